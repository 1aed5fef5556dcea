// Profiles (one per property), run generation, judging, minimisation, replay files, the search loop.
#include <set>
#include <sys/personality.h>
#include <math.h>

// ------------------------------------------------------------------ fields
static std::vector<u32> polyset[17];
static void build_polyset(){
  for(int d=2;d<=16;d++){ auto&v=irreducibles(d); if(d<=8) polyset[d]=v; else { std::set<u32> s; s.insert(v.front()); s.insert(v.back()); Rng g(9000+d); while(s.size()<10) s.insert(v[g.below(v.size())]); polyset[d].assign(s.begin(),s.end()); }
    for(u32 p:polyset[d]) get_fm(p); } }
static int pickdeg(Rng&g,bool small){ return g.chance(small?0.85:0.72)? g.range(2,8): g.range(9,16); }
static u32 setpoly(Rng&g,int d){ auto&v=polyset[d]; return v[g.below(v.size())]; }
static u32 privpoly(Ctx&c){ int d=pickdeg(c.g,false); if(d>8&&d<13&&c.g.chance(0.3)){ auto&v=irreducibles(d); return v[c.g.below(v.size())]; } return setpoly(c.g,d); }
static std::set<u32> badbase; static int nbase=0;
static void ensure_base(u32 poly){
  if(basefields.count(poly)||badbase.count(poly)) return;
  CallArgs a; memset(&a,0,sizeof a); a.i[0]=poly; fflush(stdout);
  pid_t pid=fork(); if(pid==0){ struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); alarm(20); err_capture(); call_table[C_gf2e_init].fn(&a); _exit(a.ret?0:1); }
  int st; while(waitpid(pid,&st,0)<0&&errno==EINTR); if(st!=0){ badbase.insert(poly); return; }
  mainF.curop=-1000-nbase++; call_table[C_gf2e_init].fn(&a); mainF.curop=-1; basefields[poly]=a.ret; }

// ------------------------------------------------------------------ profiles
struct Profile { const char*id; const char*weights; u32 report; int opmin,opmax; };
static const Profile profiles[]={
 {"C01","print:1.2 mul:5 slice-mul:4 scalar:2 echelon:3 slice-echelon:2 invert:2 ple:3 slice-ple:2 trsm:3 slice-trsm:2 convert:3 poly-mul:2 elem:4 slice-elem:3 struct:3 field-new:1 field-use:1 field-mat:1 table:2 random:2 window:1 new:1 free:1",M_ALL,4,10},
 {"C02","mul:10 slice-mul:8 big-mul:0.12 scalar:4 convert:0.8 elem:0.8 struct:0.6 random:0.6 window:0.8 free:0.5 new:0.4 echelon:0.4 trsm:0.3",F_MUL,3,14},
 {"C03","echelon:9 slice-echelon:6 invert:6 mul:1 convert:0.8 elem:0.8 random:0.7 window:0.8 free:0.5 struct:0.6 ple:0.4",F_ELIM,3,14},
 {"C04","ple:8 slice-ple:8 mul:0.8 convert:0.8 elem:0.8 random:0.7 window:0.8 free:0.5 struct:0.4 trsm:0.5",F_PLE,3,14},
 {"C05","trsm:9 slice-trsm:8 mul:0.8 convert:0.8 elem:0.8 random:0.7 window:0.8 free:0.5 struct:0.4",F_TRSM,3,14},
 {"C06","convert:14 mul:0.8 elem:1 slice-elem:1 random:0.8 window:1.2 free:0.6 new:0.6 struct:0.6",F_CONV,4,18},
 {"C07","poly-mul:12 poly-misc:3 slice-mul:1.5 convert:0.5 elem:0.5 free:0.5 random:0.3",F_POLY,3,12},
 {"C08","elem:9 slice-elem:9 struct:9 table:1.2 scalar:2.5 window:2 mul:0.6 convert:0.8 random:0.8 free:0.8 new:1",F_ELEM,5,24},
 {"C09","field-new:7 field-use:8 field-free:4 field-mat:3 table:2 mul:0.7 elem:0.6 free:0.6",F_FIELD,5,18},
 {"C10","mul:4 slice-mul:3 scalar:2 echelon:3 slice-echelon:2 invert:1.5 ple:3 slice-ple:2 trsm:3 slice-trsm:2 convert:4 elem:6 slice-elem:4 struct:6 random:2 window:4 free:2 new:1 print:0.5",M_ALL,4,14},
 {"C11","mul:5 slice-mul:4 scalar:3 echelon:3 slice-echelon:2 invert:3 ple:3 slice-ple:2 trsm:4 slice-trsm:3 convert:3 poly-mul:3 poly-misc:1 elem:4 slice-elem:4 struct:4 field-mat:1 table:2 random:1 window:2 print:1 misuse:0.5",M_OPND|M_SHW,3,12},
 {"C12","print:0.4 mul:5 slice-mul:4 scalar:2 echelon:3 slice-echelon:2 invert:3 ple:3 slice-ple:3 trsm:3 slice-trsm:3 convert:3 poly-mul:5 poly-misc:2 elem:2 slice-elem:2 struct:3 field-new:2 field-mat:1 table:2 random:1 new:2",M_ALL,1,3},
 {"C13","mul:5 slice-mul:4 big-mul:0.05 scalar:2 echelon:3 slice-echelon:2 invert:2 ple:3 slice-ple:3 trsm:3 slice-trsm:3 convert:4 poly-mul:4 poly-misc:2 elem:4 slice-elem:4 struct:4 field-new:1.5 field-use:1 field-free:1 field-mat:1 table:2 random:1 print:0.5 misuse:0.5 window:2 free:2 new:1",M_MEM|M_LEAK|M_NULL,4,16},
 {"C14","mul:5 slice-mul:4 scalar:2 echelon:3 slice-echelon:2 invert:2 ple:3 slice-ple:3 trsm:3 slice-trsm:3 convert:3 poly-mul:3 poly-misc:1 elem:3 slice-elem:3 struct:4 field-new:1.5 field-use:1 field-mat:1 table:2 random:2 window:1 new:1 print:0.5",F_ANY|M_DIFF,3,10},
 {"C15","print:0.8 mul:5 slice-mul:4 scalar:2 echelon:3 slice-echelon:2 invert:3 ple:3 slice-ple:3 trsm:3 slice-trsm:3 convert:3 poly-mul:3 elem:3 slice-elem:3 struct:3 field-new:0.7 field-mat:0.7 table:1.5 random:1.5 window:1 new:0.5",M_ALL,3,10},
 {"C16","random:12 elem:1 convert:0.8 mul:0.6 window:1.2 free:0.6 new:0.5",F_RAND,3,14},
 {"C17","print:12 elem:1 convert:0.5 mul:0.5 window:1.2 random:0.8 free:0.5",F_PRINT,3,14},
 {"C18","misuse:12 elem:0.8 mul:0.8 convert:0.5 window:0.8 free:0.4 invert:0.3",F_MISUSE,3,14},
 {"C20","mul:5 slice-mul:4 big-mul:0.05 scalar:2 echelon:3 slice-echelon:2 invert:3 ple:4 slice-ple:3 trsm:4 slice-trsm:3 convert:3 poly-mul:4 poly-misc:2 elem:4 slice-elem:4 struct:4 field-new:1 field-use:1 field-free:0.5 field-mat:1 table:2 random:1.5 window:1 new:1 free:1 print:1.5 misuse:1",M_HANG|F_WORK,3,10},
};
static const Profile* profile(const std::string&id){ for(auto&p:profiles) if(id==p.id) return &p; return nullptr; }
enum { PL_PRE=1, PL_INTR=2, PL_ALLOC=4 };
static void parse_weights(const char*s,std::vector<double>&w){ w.assign(n_op_kinds,0); char nm[40]; double x; int n; while(sscanf(s," %39[^:]:%lf%n",nm,&x,&n)==2){ int k=op_kind_by_name(nm); if(k<0){ fprintf(stderr,"unknown op %s\n",nm); exit(2);} w[k]=x; s+=n; } }
static int pick_w(Rng&g,const std::vector<double>&w){ double t=0; for(double x:w) t+=x; double u=(g.next()>>11)*(1.0/9007199254740992.0)*t; for(size_t i=0;i<w.size();i++){ if(w[i]<=0) continue; if(u<w[i]) return i; u-=w[i]; } for(size_t i=w.size();i-->0;) if(w[i]>0) return i; return 0; }
static EnvCfg rndenv(Rng&g){ EnvCfg e; static const int fl[]={FILL_RANDOM,FILL_RANDOM,FILL_ONES,FILL_STALE,FILL_STALE,FILL_ZERO}; e.fill=fl[g.below(6)]; e.reuse=g.below(4); e.gap=g.chance(0.45)?0:g.chance(0.2)?g.range(80,200):g.range(1,40); e.seed=g.next()>>16; return e; }
static int rndsize(Rng&g,int hi){ int u=g.below(100); int s= u<22?0: u<55?1: u<80?2: u<94?3:4; return s>hi?g.range(1,hi):s; }
static Run gen_run(const Profile&P,u64 vseed,u64 idx){
  Run r; std::string id=P.id; r.prop=id; r.idx=idx; u64 h=hcomb(vseed,idx); for(const char*p=P.id;*p;p++) h=hcomb(h,*p); r.seed=h>>1; Rng g(r.seed); r.report=P.report;
  std::vector<double> w; parse_weights(P.weights,w);
  // swarm: drop a random part of the operation kinds in half of the runs
  if(g.chance(0.4)){ int live=0; std::vector<double> w2=w; for(auto&x:w2){ if(x>0&&x<3&&g.chance(0.5)) x=0; } for(auto x:w2) live+=x>0; if(live) w=w2; }
  r.env=rndenv(g); r.envb=rndenv(g); r.size=rndsize(g,4); r.winpct= g.chance(0.3)?0: g.chance(0.5)?20:50; r.poolmax=g.range(4,14); r.nshared=0;
  static const int l2s[]={16384,32768,65536,262144,1048576,2097152}; r.l2=l2s[g.below(6)]; r.l3=r.l2*(1<<g.below(5)); static const int mbs[]={64,256,2048}; r.mb=mbs[g.below(3)];
  bool focus=g.chance(0.08); // a history of few operations, each repeated with variations
  int nf=g.chance(focus?0.2:0.5)?1:g.range(2,3); for(int i=0;i<nf;i++) r.polys.push_back(setpoly(g,pickdeg(g,r.size>=3))); if(nf>=2&&g.chance(focus?0.75:0.4)) { int d=pdeg(r.polys[0]); for(int i=1;i<nf;i++) if(i==1||g.chance(0.5)) r.polys[i]=setpoly(g,d); }
  int nops=g.range(P.opmin,P.opmax); if(r.size>=3) nops=std::max(P.opmin,nops/2);
  int mode=0; // 0 plain, 1 threads, 2 interrupts, 3 clean environment
  bool fam= id=="C02"||id=="C03"||id=="C04"||id=="C05"||id=="C06"||id=="C07"||id=="C08"||id=="C10";
  if(fam){ int u=g.below(100); mode= u<58?0: u<78?1: u<92?2:3; if(mode==1){ r.nth=g.range(2,3); r.plan=PL_PRE; r.sched=1+(g.next()>>16); } if(mode==2) r.plan=PL_INTR; if(mode==3){ r.env.fill=FILL_ZERO; r.env.reuse=0; } }
  if(id=="C10"){ r.winpct=85; if(r.size>3) r.size=3; }
  if(id=="C01"){ r.nth=g.range(2,4); r.plan=PL_PRE; r.sched=1+(g.next()>>16); r.env.fill=FILL_ZERO; r.env.reuse=0; r.nshared=g.range(1,4); if(r.size>3) r.size=3; nops=std::max(nops,r.nth*2); if(g.chance(0.4)){ /* the same kind of operation everywhere */ std::vector<double> wu=w; if(g.chance(0.5)) for(auto&x:wu) if(x>0) x=1; int k=pick_w(g,wu); std::vector<double> w2(n_op_kinds,0); w2[k]=1; int k2=pick_w(g,w); w2[k2]+=0.4; w=w2; if(!strncmp(op_kinds[k].name,"poly",4)||!strncmp(op_kinds[k].name,"slice",5)) r.size=std::min(r.size,2); } }
  if(id=="C09"){ r.nobase=1; if(r.size>2) r.size=2; if(g.chance(0.4)){ r.nth=g.range(2,3); r.plan=PL_PRE; r.sched=1+(g.next()>>16); } }
  if(id=="C11"){ int u=g.below(100); if(u<30){ r.nth=2; r.plan=PL_PRE; r.sched=1+(g.next()>>16); r.nshared=2; } else if(u<60) r.plan=PL_INTR; else if(u<80) r.plan=PL_ALLOC; else r.nshared=g.below(3); }
  if(id=="C12"){ r.plan=PL_ALLOC; if(g.chance(0.8)) r.size=std::min(r.size,2); }
  if(id=="C13"){ if(g.chance(0.2)){ r.nth=2; r.plan=PL_PRE; r.sched=1+(g.next()>>16); } else if(g.chance(0.1)) r.plan=PL_INTR; r.nobase=g.chance(0.15); if(r.nobase&&r.size>2) r.size=2; if(g.chance(0.5)) r.env.reuse=0; }
  if(id=="C14"){ if(g.chance(0.6)){ r.env.fill=FILL_ZERO; r.env.reuse=0; r.env.gap=0; } r.sched=1+(g.next()>>16); r.plan=g.chance(0.5)?PL_PRE:0; if(g.chance(0.15)) r.plan|=PL_INTR; }
  if(id=="C15"){ r.plan=PL_INTR; if(r.size>3) r.size=3; if(g.chance(0.25)){ r.nth=2; r.sched=1+(g.next()>>16); } }
  if(id=="C20"){ int u=g.below(100); if(u<35){ r.nth=g.range(2,3); r.plan=PL_PRE; r.sched=1+(g.next()>>16); if(g.chance(0.3)) r.nobase=1; } else if(u<55) r.plan=PL_INTR; else if(u<75) r.plan=PL_ALLOC; if(r.nobase&&r.size>2) r.size=2; }
  if(id=="C16"||id=="C17"||id=="C18"){ if(g.chance(0.2)){ r.nth=2; r.plan=PL_PRE; r.sched=1+(g.next()>>16); } if(r.size>3) r.size=3; }
  // some histories come back to the same operation with the same parameters: state kept between calls is keyed on those
  double again= g.chance(id=="C15"?0.7:id=="C01"?0.35:0.2)? (g.chance(0.5)?0.9:0.45):0; if(focus){ again=0.85; for(auto&x:w) if(x>=0.4) x=sqrt(x); }
  for(int k=0;k<nops;k++){ OpRec o; o.th=g.below(r.nth); if(!r.ops.empty()&&g.chance(again)){ const OpRec&p=r.ops[g.below(r.ops.size())]; o.kind=p.kind; o.sub=p.sub; if(g.chance(0.6)){ /* or with something changed: a key that leaves it out would not tell */ o.vr=g.below(1<<14); for(int b:{7,8,0x30,64}) if(g.chance(0.5)) o.vr&=~b; if(g.chance(0.4)) o.vr&=15; } } else { o.kind=pick_w(g,w); o.sub=g.next()>>8; } r.ops.push_back(o); }
  if(id=="C14"){ int ne=g.range(1,6); for(int k=0;k<ne;k++){ OpRec o; o.extra=1; size_t at=g.below(r.ops.size()+1); if(at<r.ops.size()&&g.chance(0.5)){ /* akin to the operation it precedes, or to a later one */ const OpRec&p=r.ops[g.chance(0.5)?at:at+g.below(r.ops.size()-at)]; o.kind=p.kind; o.sub=p.sub; o.vr=p.vr; if(g.chance(0.8)) o.vr=1+g.below((1<<14)-1); } else { o.kind=pick_w(g,w); o.sub=g.next()>>8; } r.ops.insert(r.ops.begin()+at,o); } }
  for(u32 p:r.polys) (void)p;
  return r; }

// ------------------------------------------------------------------ shared statistics
struct Stats { u64 runs,execs,steps,allocs,switches,fired_alloc,fired_intr,fired_pre,fired_stream,fired_rng,dirtyfills,reuses,winops,oom_survived,dies,checks,ops,scoped_out,violations,unrepro,det_checked,det_bad,fired_env,lockwaits,vtime,plan_alloc,plan_intr,plan_pre,internal,trivial; u64 kind[40]; u64 scoped_kind[40]; double busy; };
struct Shm { Stats s[64]; u8 cov[1<<16]; u64 sig[1<<18]; u64 ilv[1<<18]; volatile int stop; volatile u64 next[64]; };
static Shm*shm; static Stats*S;
static void setbit(u64*b,u64 h){ __atomic_or_fetch(&b[(h>>6)&((1<<18)-1)],1ULL<<(h&63),__ATOMIC_RELAXED); }
static u64 popbits(u64*b){ u64 n=0; for(int i=0;i<(1<<18);i++) n+=__builtin_popcountll(b[i]); double m=16777216.0,x=n; return x>=m? n: (u64)(-m*log(1-x/m)+0.5); }
static Outcome ex(const Run&r,const Var&v){
  Run q=r; for(u32 p:r.polys) if(!r.nobase) ensure_base(p); 
  Outcome o=exec_run(q,v); Stats&s=*S; s.execs++; s.steps+=o.r.steps; s.allocs+=o.r.allocs; s.switches+=o.r.switches; s.fired_alloc+=o.r.fired_alloc; s.fired_intr+=o.r.fired_intr; s.fired_pre+=o.r.fired_pre; s.fired_stream+=o.r.fired_stream; s.fired_rng+=o.r.fired_rng; s.fired_env+=o.r.fired_env; s.lockwaits+=o.r.fired_lockwait; s.vtime+=o.r.vtime_ns; s.dirtyfills+=o.r.dirtyfills; s.reuses+=o.r.reuses; s.winops+=o.r.winops; s.oom_survived+=o.r.oom_survived; s.dies+=o.r.dies_seen; s.checks+=o.r.checks;
  for(size_t k=0;k<r.ops.size()&&k<MAXOPS;k++) if(o.r.op[k].done){ s.ops++; s.kind[r.ops[k].kind]++; }
  if(o.r.status==3){ s.scoped_out++; if(o.r.vop>=0&&o.r.vop<(int)r.ops.size()) s.scoped_kind[r.ops[o.r.vop].kind]++; }
  static bool dumpd=getenv("SIM_DIGESTS")!=nullptr; if(dumpd){ fprintf(stderr,"exec: status %d class %s\n",o.r.status,o.r.vclass); for(size_t k=0;k<r.ops.size()&&k<MAXOPS;k++) fprintf(stderr,"  %zu %s done %d steps %llu digest %llx\n",k,op_kinds[r.ops[k].kind].name,o.r.op[k].done,(unsigned long long)o.r.op[k].steps,(unsigned long long)o.r.op[k].digest); }
  if(o.r.status==1||o.r.status==3){ setbit(shm->sig,hcomb(o.r.hash,o.r.ilv)); if(o.r.switches) setbit(shm->ilv,o.r.ilv); }
  return o; }

// ------------------------------------------------------------------ judging one run
struct Verdict { bool bad=false; int vop=-1; std::string cls,detail; u64 hash=0; u64 ilv=0; Result r; };
static bool failed(const Outcome&o){ return o.r.status==2||o.r.status==0; }
static Verdict vd(const Outcome&o){ Verdict v; v.bad=true; v.cls=o.r.vclass; v.detail=o.r.vdetail; v.hash=hcomb(o.r.hash,hcomb(o.r.vop,o.r.status)); v.vop=o.r.vop; v.r=o.r; for(const char*p=o.r.vdetail;*p;p++) v.hash=hcomb(v.hash,*p); return v; }
static Verdict vdiff(const Outcome&o,int k,const char*cls,const char*txt){ Verdict v=vd(o); char t[400]; snprintf(t,sizeof t,"%s: %s",k>=0&&v.r.op[k].kind<(u32)n_op_kinds?op_kinds[v.r.op[k].kind].name:"?",txt); v.cls=cls; v.detail=t; v.vop=k; v.hash=hcomb(hcomb(o.r.hash,o.r.op[k].digest),k); return v; }
static Run only_thread(const Run&r,int th,std::vector<int>&map){ Run q=r; q.ops.clear(); map.clear(); for(size_t k=0;k<r.ops.size();k++) if(!r.ops[k].extra&&r.ops[k].th%r.nth==th){ q.ops.push_back(r.ops[k]); map.push_back(k); } return q; }
static Verdict judge(const Run&r){
  const std::string&id=r.prop; Verdict none; 
  if(id=="C14"){
    Var a; a.nopre=true; a.nointr=true; Outcome oa=ex(r,a); Var b; b.envb=b.extras=true; Outcome ob=ex(r,b); none.r=ob.r; none.hash=hcomb(oa.r.hash,ob.r.hash);
    auto extra=[&](const Outcome&o){ return o.r.vop>=0&&o.r.vop<(int)r.ops.size()&&r.ops[o.r.vop].extra; };
    bool fa=failed(oa)&&(oa.r.vmask&r.report), fb=failed(ob)&&(ob.r.vmask&r.report);
    if(fb&&extra(ob)) return none; 
    if(fa&&ob.r.status==1) return vd(oa); if(fb&&oa.r.status==1) return vd(ob);
    if(oa.r.status==1&&ob.r.status==1) for(size_t k=0;k<r.ops.size();k++) if(!r.ops[k].extra&&oa.r.op[k].done&&ob.r.op[k].done&&oa.r.op[k].digest!=ob.r.op[k].digest) return vdiff(ob,k,"environment-dependent","the same call on the same inputs gave different results in two environments");
    return none; }
  Outcome o=ex(r,Var()); none.r=o.r; none.hash=o.r.hash;
  bool hit_=failed(o)&&(o.r.vmask&r.report); if(id!="C15"&&o.r.vmask==M_RECOV) hit_=false;
  if(id=="C01"){
    if(hit_&&(o.r.vmask&M_SHW)) return vd(o);
    Var v; v.nopre=true; std::vector<int> map; 
    if(hit_){ if(o.r.vop<0||o.r.vop>=(int)r.ops.size()) return none; Run q=only_thread(r,r.ops[o.r.vop].th%r.nth,map); q.sched=0; Outcome t=ex(q,v); if(t.r.status==1) return vd(o); return none; }
    if(o.r.status==1&&r.nth>1) for(int th=0;th<r.nth;th++){ Run q=only_thread(r,th,map); q.sched=0; if(map.empty()) continue; Outcome t=ex(q,v); if(t.r.status!=1) continue; for(size_t k=0;k<map.size();k++) if(o.r.op[map[k]].done&&t.r.op[k].done&&o.r.op[map[k]].digest!=t.r.op[k].digest) return vdiff(o,map[k],"interference","the result differs from the one the same thread gets when it runs alone"); }
    return none; }
  if(id=="C10"){ if(!hit_) return none; if(o.r.vmask&M_WIN) return vd(o); Var v; v.nowin=true; Outcome t=ex(r,v); if(t.r.status==1) return vd(o); return none; }
  if(id=="C12"){ if(!hit_||!o.r.fired_alloc) return none; Var v; v.noaf=true; Outcome t=ex(r,v); if(t.r.status==1) return vd(o); return none; }
  if(id=="C15"){ if(!hit_&&o.r.status!=1) return none; if(hit_&&!o.r.fired_intr) return none; bool any=false; Run q=r; // an abandonment planned for later than the operation's end did not happen
    for(size_t k=0;k<q.ops.size()&&k<MAXOPS;k++){ if(q.ops[k].it&&o.r.op[k].done&&!o.r.op[k].abandoned) q.ops[k].it=0; any|=q.ops[k].it!=0; } if(!any) return none; Var v; v.skipintr=true; 
    if(hit_){ Outcome t=ex(q,v); if(t.r.status==1) return vd(o); return none; }
    Outcome t=ex(q,v); if(t.r.status==1) for(size_t k=0;k<r.ops.size()&&k<MAXOPS;k++) if(!q.ops[k].it&&o.r.op[k].done&&t.r.op[k].done&&o.r.op[k].digest!=t.r.op[k].digest) return vdiff(o,k,"after-interrupt","the result differs from the one obtained when the abandoned operation never started");
    return none; }
  if(hit_) return vd(o); return none; }

// ------------------------------------------------------------------ fault planning (phase A measures, phase B places)
struct AltFail { int op; u64 at; bool persist; }; static std::vector<AltFail> alt_fails; // further failing allocations tried on the same history
static std::vector<Run> alt_runs; // further fault plans for the same history: tried when its operations write static storage
static std::vector<int> gst_ops;  // the operations that do
static bool plan_faults(Run&r){
  alt_fails.clear(); alt_runs.clear(); gst_ops.clear();
  if(!r.plan) return true; Rng g(hcomb(r.seed,0xfa017)); Var v; v.gst=true; v.nopre=v.nointr=v.noaf=true; v.extras=r.prop=="C14"; v.envb=v.extras; Outcome o=ex(r,v); if(o.r.status!=1) return r.prop!="C15"&&r.prop!="C12"; 
  std::vector<int> big; for(size_t k=0;k<r.ops.size()&&k<MAXOPS;k++) if(o.r.op[k].steps>0) big.push_back(k); if(big.empty()) return true;
  auto step=[&](int k){ u64 n=o.r.op[k].steps; int ng=o.r.op[k].ngst; if(ng&&g.chance(0.6)) return o.r.op[k].gst[g.below(ng)]+1+g.below(g.chance(0.5)?8:400); if(g.chance(0.15)) return n>40? n-g.below(40): 1+(u64)g.below(n); return 1+(u64)((g.next()>>11)*(1.0/9007199254740992.0)*n); };
  for(int k:big) if(o.r.op[k].ngst) gst_ops.push_back(k);
  if(!gst_ops.empty()&&(r.prop=="C15"||r.prop=="C01"||r.prop=="C11")){ auto near=[&](int k){ return o.r.op[k].gst[g.below(o.r.op[k].ngst)]+1+g.below(g.chance(0.7)?6:60); };
    for(int t=0;t<(r.prop=="C11"?2:6);t++){ Run q=r; for(auto&x:q.ops) x.it=0,x.pre.clear(); bool any=false;
      if(r.plan&PL_INTR){ int n=g.chance(0.6)?1:g.range(1,3); for(int i=0;i<n;i++){ int k=gst_ops[g.below(gst_ops.size())]; if(g.chance(0.3)&&k==(int)r.ops.size()-1) k=gst_ops[g.below(gst_ops.size())]; q.ops[k].it=near(k); S->plan_intr++; any=true; } }
      if((r.plan&PL_PRE)&&r.nth>1) for(int k:gst_ops){ int n=g.range(0,3); std::vector<u64> st; for(int i=0;i<n;i++) st.push_back(near(k)); std::sort(st.begin(),st.end()); for(u64 x:st){ q.ops[k].pre.push_back({x,(int)g.below(4)}); S->plan_pre++; any=true; } }
      if(any) alt_runs.push_back(q); } }
  if(r.plan&PL_PRE){ if(r.nth>1||r.prop=="C14") for(int k:big){ int n=g.chance(0.3)?0:g.chance(0.7)?g.range(1,3):g.range(4,12); std::vector<u64> st; for(int i=0;i<n;i++) st.push_back(step(k)); std::sort(st.begin(),st.end()); for(u64 s:st){ r.ops[k].pre.push_back({s,(int)g.below(4)}); S->plan_pre++; } } }
  if(r.plan&PL_INTR){ int n=g.range(1,std::max(1,(int)big.size()/2)); for(int i=0;i<n;i++){ int k=big[g.below(big.size())]; if(r.prop=="C14"&&!r.ops[k].extra) continue; r.ops[k].it=step(k); S->plan_intr++; } }
  if(r.plan&PL_ALLOC){ std::vector<int> al; for(int k:big) if(o.r.op[k].allocs) al.push_back(k); if(al.empty()) return true; int k=al[g.below(al.size())]; u64 n=o.r.op[k].allocs; r.ops[k].af= o.r.op[k].nsite&&g.chance(0.6)? o.r.op[k].siteat[g.below(o.r.op[k].nsite)]: g.chance(0.2)?n: 1+g.below((u32)std::min<u64>(n,1u<<30)); r.ops[k].ap=g.chance(0.35); S->plan_alloc++;
    if(r.prop=="C12") for(int t=0;t<3;t++){ int k2=al[g.below(al.size())]; auto&q=o.r.op[k2]; if(!q.nsite) continue; u64 at=q.siteat[g.below(q.nsite)]; bool dup=k2==k&&at==r.ops[k].af; for(auto&x:alt_fails) dup|=x.op==k2&&x.at==at; if(!dup) alt_fails.push_back({k2,at,g.chance(0.35)}); } }
  return true; }

// ------------------------------------------------------------------ replay files
static std::string runtext(const Run&r){ char t[512]; std::string s; auto add=[&](const char*f,...){ va_list ap; va_start(ap,f); vsnprintf(t,sizeof t,f,ap); va_end(ap); s+=t; };
  add("property %s\nseed %llu\nindex %llu\nthreads %d\nenv %d %d %llu %d\nenvb %d %d %llu %d\nknobs %d %d %d\nsched %llu\nsize %d\nwinpct %d\npoolmax %d\nnshared %d\nnobase %d\nfields",r.prop.c_str(),(unsigned long long)r.seed,(unsigned long long)r.idx,r.nth,r.env.fill,r.env.reuse,(unsigned long long)r.env.seed,r.env.gap,r.envb.fill,r.envb.reuse,(unsigned long long)r.envb.seed,r.envb.gap,r.l2,r.l3,r.mb,(unsigned long long)r.sched,r.size,r.winpct,r.poolmax,r.nshared,r.nobase);
  for(u32 p:r.polys) add(" 0x%x",p); s+="\n";
  for(auto&o:r.ops){ add("op %s thread %d sub %llu cap %d extra %d vary %d",op_kinds[o.kind].name,o.th,(unsigned long long)o.sub,o.cap,o.extra,o.vr); if(o.af) add(" fail-allocation %llu%s",(unsigned long long)o.af,o.ap?" persistent":""); if(o.it) add(" abandon-at-step %llu",(unsigned long long)o.it); for(auto&q:o.pre) add(" switch %llu:%d",(unsigned long long)q.first,q.second); s+="\n"; }
  return s; }
static bool readrun(const char*path,Run&r,std::string&cls,u64&hash){ FILE*f=fopen(path,"r"); if(!f) return false; static char L[65536]; r.ops.clear(); r.polys.clear(); unsigned long long a,b; char w[64];
  while(fgets(L,sizeof L,f)){ if(L[0]=='#') continue; char*p=L; int n; if(sscanf(p,"%63s%n",w,&n)!=1) continue; p+=n; std::string k=w;
    if(k=="property"){ sscanf(p,"%63s",w); r.prop=w; } else if(k=="seed"){ sscanf(p,"%llu",&a); r.seed=a; } else if(k=="index"){ sscanf(p,"%llu",&a); r.idx=a; } else if(k=="threads") sscanf(p,"%d",&r.nth);
    else if(k=="env"||k=="envb"){ EnvCfg e; sscanf(p,"%d %d %llu %d",&e.fill,&e.reuse,&a,&e.gap); e.seed=a; (k=="env"?r.env:r.envb)=e; } else if(k=="knobs") sscanf(p,"%d %d %d",&r.l2,&r.l3,&r.mb); else if(k=="sched"){ sscanf(p,"%llu",&a); r.sched=a; }
    else if(k=="size") sscanf(p,"%d",&r.size); else if(k=="winpct") sscanf(p,"%d",&r.winpct); else if(k=="poolmax") sscanf(p,"%d",&r.poolmax); else if(k=="nshared") sscanf(p,"%d",&r.nshared); else if(k=="nobase") sscanf(p,"%d",&r.nobase);
    else if(k=="fields"){ unsigned x; while(sscanf(p," %x%n",&x,&n)==1){ r.polys.push_back(x); p+=n; } }
    else if(k=="expect"){ sscanf(p,"%63s %llu",w,&a); cls=w; hash=a; }
    else if(k=="op"){ OpRec o; sscanf(p,"%63s%n",w,&n); p+=n; o.kind=op_kind_by_name(w); if(o.kind<0){ fclose(f); return false; } while(sscanf(p,"%63s%n",w,&n)==1){ p+=n; std::string q=w; if(q=="persistent"){ o.ap=1; continue; } if(q=="switch"){ int tg; sscanf(p," %llu:%d%n",&a,&tg,&n); p+=n; o.pre.push_back({a,tg}); continue; } sscanf(p,"%llu%n",&b,&n); p+=n; if(q=="thread") o.th=b; else if(q=="sub") o.sub=b; else if(q=="cap") o.cap=b; else if(q=="extra") o.extra=b; else if(q=="vary") o.vr=b; else if(q=="fail-allocation") o.af=b; else if(q=="abandon-at-step") o.it=b; } r.ops.push_back(o); } }
  fclose(f); auto*pf=profile(r.prop); if(!pf) return false; r.report=pf->report; return !r.ops.empty()&&!r.polys.empty(); }

// ------------------------------------------------------------------ minimisation
static Run minimise(const Run&r0,const Verdict&v0,double secs,int maxtries,int*tries){
  Run best=r0; double t0=now(); int n=0; auto ok=[&](const Run&q){ if(n>=maxtries||now()-t0>secs) return false; n++; Verdict v=judge(q); return v.bad&&v.cls==v0.cls; };
  auto attempt=[&](const Run&q){ if(ok(q)){ best=q; return true; } return false; };
  if(v0.vop>=0&&v0.vop+1<(int)best.ops.size()){ Run q=best; q.ops.resize(v0.vop+1); attempt(q); }
  for(size_t chunk=std::max<size_t>(1,best.ops.size()/2);;chunk/=2){ for(size_t i=0;i<best.ops.size()&&best.ops.size()>1;){ Run q=best; q.ops.erase(q.ops.begin()+i,q.ops.begin()+std::min(i+chunk,best.ops.size())); if(q.ops.empty()||!attempt(q)) i+=chunk; } if(chunk<=1) break; }
  for(size_t k=0;k<best.ops.size();k++){ if(!best.ops[k].pre.empty()){ Run q=best; q.ops[k].pre.clear(); if(!attempt(q)) for(size_t i=0;i<best.ops[k].pre.size();){ Run z=best; z.ops[k].pre.erase(z.ops[k].pre.begin()+i); if(!attempt(z)) i++; } } if(best.ops[k].it){ Run q=best; q.ops[k].it=0; attempt(q); } if(best.ops[k].af){ Run q=best; q.ops[k].af=0; if(!attempt(q)&&best.ops[k].ap){ q=best; q.ops[k].ap=0; attempt(q); } } }
  { Run q=best; q.sched=0; if(best.sched) attempt(q); }
  if(best.nth>1){ Run q=best; q.nth=1; for(auto&o:q.ops) o.th=0; attempt(q); }
  if(best.nshared){ Run q=best; q.nshared=0; attempt(q); }
  if(best.winpct){ Run q=best; q.winpct=0; attempt(q); }
  { Run q=best; q.env={FILL_ZERO,0,1,0}; if(!attempt(q)){ q=best; q.env.gap=0; q.env.reuse=0; attempt(q); } }
  { Run q=best; q.l2=262144; q.l3=4194304; q.mb=2048; attempt(q); }
  for(size_t k=0;k<best.ops.size();k++) for(int cap:{3,6,12,24,48}){ Run q=best; q.ops[k].cap=cap; if(attempt(q)) break; }
  for(size_t k=0;k<best.ops.size();k++) if(best.ops[k].vr) for(int m:{0,7,8,0x3fb0,0x3f40}){ Run q=best; q.ops[k].vr&=m; if(q.ops[k].vr!=best.ops[k].vr&&attempt(q)) break; }
  if(best.size>1){ Run q=best; q.size=1; attempt(q); }
  for(size_t i=0;i<best.polys.size()&&best.polys.size()>1;){ Run q=best; q.polys.erase(q.polys.begin()+i); if(!attempt(q)) i++; }
  *tries=n; return best; }
static std::string findings_file; static std::string self_exe;
struct Finding { std::string prop,cls,text; }; static std::vector<Finding> findings; // open entries: property, class, a piece of the detail
static void read_findings(){ FILE*f=fopen(findings_file.c_str(),"r"); if(!f) return; char L[1024]; while(fgets(L,sizeof L,f)){ char p[16],c[64],t[600]; if(sscanf(L,"open: property=%15s class=%63s match=%599[^\n]",p,c,t)==3) findings.push_back({p,c,t}); } fclose(f); }
static bool known(const Verdict&v,const std::string&prop,int*which){ for(size_t i=0;i<findings.size();i++) if(findings[i].prop==prop&&findings[i].cls==v.cls&&v.detail.find(findings[i].text)!=std::string::npos){ *which=i; return true; } return false; }
static int known_seen[64];
static bool write_replay(const char*path,const Run&r,const Verdict&v,const Run&orig,int tries){ FILE*f=fopen(path,"w"); if(!f) return false; fprintf(f,"# violation of %s found by seeded simulation: class %s\n# %s\n# minimised from run index %llu (seed %llu, %zu operations) with %d trial runs\nexpect %s %llu\n%s",r.prop.c_str(),v.cls.c_str(),v.detail.c_str(),(unsigned long long)orig.idx,(unsigned long long)orig.seed,orig.ops.size(),tries,v.cls.c_str(),(unsigned long long)v.hash,runtext(r).c_str()); fclose(f); return true; }
static int fresh_replay(const char*path){ fflush(stdout); pid_t pid=fork(); if(pid==0){ int fd=open("/dev/null",O_WRONLY); if(fd>=0) dup2(fd,1); execl(self_exe.c_str(),self_exe.c_str(),"--replay",path,(char*)nullptr); _exit(97); } int st; while(waitpid(pid,&st,0)<0&&errno==EINTR); return WIFEXITED(st)?WEXITSTATUS(st):98; }

// ------------------------------------------------------------------ search
static std::string replaydir; 
static int judge_report(const Profile&P,u64 idx,const Run&r);
static int do_run(const Profile&P,u64 vseed,u64 idx){ // 1: reported a violation
  Run r=gen_run(P,vseed,idx); S->runs++; if(!plan_faults(r)) { S->trivial++; return 0; }
  auto alts=alt_fails; auto altr=alt_runs; auto go=gst_ops; if(judge_report(P,idx,r)) return 1;
  for(auto&q:altr) if(judge_report(P,idx,q)) return 1;
  if(!go.empty()&&(r.prop=="C15"||r.prop=="C01")) for(int t=0;t<3;t++){ // operations that write static storage: histories made of those only
    Rng g(hcomb(r.seed,0xf0c5+t)); Run base=gen_run(P,vseed,idx),f=base; f.ops.clear(); int a=go[g.below(go.size())],b=go[g.below(go.size())]; size_t n=g.range(4,8); for(size_t k=0;k<n;k++){ OpRec x=base.ops[g.chance(0.6)?a:b]; x.th=g.below(f.nth); f.ops.push_back(x); }
    f.seed=hcomb(r.seed,0x51+t)>>1; f.poolmax=g.range(4,14); if(!plan_faults(f)) continue; auto fr=alt_runs; S->runs++; if(judge_report(P,idx,f)) return 1; for(auto&q:fr) if(judge_report(P,idx,q)) return 1; }
  for(auto&x:alts){ Run q=r; for(auto&o:q.ops) o.af=0,o.ap=0; q.ops[x.op].af=x.at; q.ops[x.op].ap=x.persist; S->plan_alloc++; if(judge_report(P,idx,q)) return 1; }
  return 0; }
static int judge_report(const Profile&P,u64 idx,const Run&r){
  double tj=now(); Verdict v=judge(r); tj=now()-tj; bool slow=tj>6; // a very slow failure is confirmed once, in a fresh process, and not minimised
  if(!v.bad&&v.r.status==3&&getenv("SIM_TRIAGE")) printf("O %s %llu %s | %s\n",P.id,(unsigned long long)idx,v.r.vclass,v.r.vdetail);
  if(!v.bad){ if(idx%53==0){ S->det_checked++; Verdict v2=judge(r); if(v2.bad||v2.hash!=v.hash){ S->det_bad++; fprintf(stderr,"nondeterministic run: %s index %llu\n",P.id,(unsigned long long)idx); } } return 0; }
  if(getenv("SIM_TRIAGE")){ S->violations++; printf("T %s %llu %s | %s\n",P.id,(unsigned long long)idx,v.cls.c_str(),v.detail.c_str()); return 1; }
  Verdict w=slow?v:judge(r); if(!w.bad||w.hash!=v.hash){ S->unrepro++; fprintf(stderr,"unreproducible: %s index %llu: %s: %s / %s: %s\n",P.id,(unsigned long long)idx,v.cls.c_str(),v.detail.c_str(),w.cls.c_str(),w.detail.c_str()); return 0; }
  int wh; if(known(v,r.prop,&wh)){ known_seen[wh]++; return 0; }
  int tries=0; Run m=r; Verdict mv=v; if(!slow){ m=minimise(r,v,25,220,&tries); mv=judge(m); } if(!mv.bad){ m=r; mv=v; }
  if(known(mv,r.prop,&wh)){ known_seen[wh]++; return 0; }
  char path[600]; snprintf(path,sizeof path,"%s/%s-%llu.replay",replaydir.c_str(),P.id,(unsigned long long)idx);
  mkdir(replaydir.c_str(),0777); if(!write_replay(path,m,mv,r,tries)){ S->internal++; fprintf(stderr,"cannot write %s\n",path); return 0; }
  if(fresh_replay(path)!=1){ if(!write_replay(path,r,v,r,0)||fresh_replay(path)!=1){ S->unrepro++; fprintf(stderr,"does not replay in a fresh process: %s index %llu: %s: %s\n",P.id,(unsigned long long)idx,v.cls.c_str(),v.detail.c_str()); unlink(path); return 0; } }
  S->violations++; 
  if(__atomic_exchange_n(&shm->stop,1,__ATOMIC_SEQ_CST)==0||getenv("SIM_KEEPGOING")){ printf("%s: %s\nVIOLATION property=%s replay=%s\n",mv.cls.c_str(),mv.detail.c_str(),P.id,path); fflush(stdout); }
  return 1; }
static int replay(const char*path){ Run r; std::string cls; u64 hash=0; if(!readrun(path,r,cls,hash)){ fprintf(stderr,"cannot read %s\n",path); return 2; } Verdict v=judge(r);
  if(v.bad&&v.cls==cls&&v.hash==hash){ printf("%s: %s\nVIOLATION property=%s replay=%s\n",v.cls.c_str(),v.detail.c_str(),r.prop.c_str(),path); return 1; }
  if(v.bad){ printf("a different violation: %s: %s (recorded: %s)\nVIOLATION property=%s replay=%s\n",v.cls.c_str(),v.detail.c_str(),cls.c_str(),r.prop.c_str(),path); return 3; }
  printf("the recorded violation does not occur (status %d %s)\n",v.r.status,v.r.status==1?"":v.r.vdetail); return 0; }

static int main2(int argc,char**argv){
  std::string prop,rep,out; u64 seed=1; long runs=1000; double wall=200; int jobs=8; long single=-1; bool verbose=false;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ return i+1<argc?argv[++i]:(char*)""; }; if(a=="--prop") prop=nx(); else if(a=="--seed") seed=strtoull(nx(),0,0); else if(a=="--runs") runs=atol(nx()); else if(a=="--wall") wall=atof(nx()); else if(a=="--jobs") jobs=atoi(nx()); else if(a=="--out") out=nx(); else if(a=="--replaydir") replaydir=nx(); else if(a=="--replay") rep=nx(); else if(a=="--findings") findings_file=nx(); else if(a=="--one") single=atol(nx()); else if(a=="-v") verbose=true; else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; } }
  int pers=personality(0xffffffff); if(pers>=0&&!(pers&ADDR_NO_RANDOMIZE)&&!getenv("SIM_REEXEC")&&personality(pers|ADDR_NO_RANDOMIZE)>=0){ setenv("SIM_REEXEC","1",1); execv("/proc/self/exe",argv); }
  { char b[1024]; ssize_t n=readlink("/proc/self/exe",b,sizeof b-1); if(n>0) self_exe.assign(b,n); }
  shm=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(shm==MAP_FAILED){ perror("mmap"); return 2; } S=&shm->s[0]; 
  if(n_guards>=sizeof shm->cov){ fprintf(stderr,"too many guards\n"); return 2; } covmap=shm->cov;
  core_init(); if(getenv("SIM_WORKDUMP")){ work_dump=fopen(getenv("SIM_WORKDUMP"),"a"); } build_polyset(); read_findings();
  auto mkres=[&](){ shmR=(Result*)mmap(0,sizeof(Result),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); };
  if(!rep.empty()){ mkres(); return replay(rep.c_str()); }
  const Profile*P=profile(prop); if(!P){ fprintf(stderr,"unknown property\n"); return 2; }
  if(single>=0){ mkres(); Run r=gen_run(*P,seed,single); if(verbose) fputs(runtext(r).c_str(),stdout); bool pf=plan_faults(r); if(verbose) fputs(runtext(r).c_str(),stdout); if(getenv("SIM_NOFORK")){ for(u32 p:r.polys) if(!r.nobase) ensure_base(p); debug_nofork=true; } Verdict v=judge(r); printf("plan %d status %d bad %d class %s detail %s hash %llx vop %d mask %x steps %llu\n",pf,v.r.status,v.bad,v.bad?v.cls.c_str():v.r.vclass,v.bad?v.detail.c_str():v.r.vdetail,(unsigned long long)v.hash,v.r.vop,v.r.vmask,(unsigned long long)v.r.steps); return v.bad; }
  double t0=now(); fflush(stdout); if(jobs>64) jobs=64; std::vector<pid_t> pids; 
  for(int j=0;j<jobs;j++){ pid_t pid=fork(); if(pid==0){ S=&shm->s[j]; mkres(); for(long i=j;i<runs&&!shm->stop;i+=jobs){ if(now()-t0>wall) break; double tr=now(); shm->next[j]=i; do_run(*P,seed,i); S->busy+=now()-tr; if(verbose&&now()-tr>3) fprintf(stderr,"slow: %ld %.1fs\n",i,now()-tr); if(getenv("SIM_KEEPGOING")) shm->stop=0; } fflush(stdout); _exit(0); } pids.push_back(pid); }
  int bad=0; for(auto p:pids){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(st!=0){ bad++; } }
  for(int j=0;j<jobs;j++) (void)0; double el=now()-t0;
  Stats T; memset(&T,0,sizeof T); for(int j=0;j<jobs;j++){ u64*d=(u64*)&T,*s=(u64*)&shm->s[j]; for(size_t i=0;i<offsetof(Stats,busy)/8;i++) d[i]+=s[i]; T.busy+=shm->s[j].busy; }
  if(getenv("SIM_COVDUMP")&&guard_pcs){ FILE*f=fopen(getenv("SIM_COVDUMP"),"w"); for(u32 i=1;i<=n_guards;i++) fprintf(f,"%d %lx %d\n",shm->cov[i],(unsigned long)guard_pcs[2*(i-1)],(int)guard_pcs[2*(i-1)+1]); fclose(f); } // for the developer: which blocks were reached
  u64 cov=0; for(u32 i=1;i<=n_guards;i++) cov+=shm->cov[i];
  if(!out.empty()){ FILE*f=fopen(out.c_str(),"w"); if(!f){ perror(out.c_str()); return 2; }
    fprintf(f,"{\"runs\":%llu,\"executions\":%llu,\"wall_s\":%.2f,\"jobs\":%d,\"steps\":%llu,\"operations\":%llu,\"checks\":%llu,\"allocations\":%llu,\"thread_switches\":%llu,\"window_ops\":%llu,\"simulated_ns\":%llu,",(unsigned long long)T.runs,(unsigned long long)T.execs,el,jobs,(unsigned long long)T.steps,(unsigned long long)T.ops,(unsigned long long)T.checks,(unsigned long long)T.allocs,(unsigned long long)T.switches,(unsigned long long)T.winops,(unsigned long long)T.vtime);
    fprintf(f,"\"faults\":{\"preemptions_planned\":%llu,\"preemptions_fired\":%llu,\"abandonments_planned\":%llu,\"abandonments_fired\":%llu,\"allocation_failures_planned\":%llu,\"allocation_failures_fired\":%llu,\"stops_observed\":%llu,\"completed_or_stopped_after_failed_allocation\":%llu,\"stream_faults\":%llu,\"random_source_draws\":%llu,\"clock_environment_and_system_queries_answered\":%llu,\"lock_waits\":%llu,\"dirty_blocks_handed_out\":%llu,\"recycled_blocks_handed_out\":%llu},",(unsigned long long)T.plan_pre,(unsigned long long)T.fired_pre,(unsigned long long)T.plan_intr,(unsigned long long)T.fired_intr,(unsigned long long)T.plan_alloc,(unsigned long long)T.fired_alloc,(unsigned long long)T.dies,(unsigned long long)T.oom_survived,(unsigned long long)T.fired_stream,(unsigned long long)T.fired_rng,(unsigned long long)T.fired_env,(unsigned long long)T.lockwaits,(unsigned long long)T.dirtyfills,(unsigned long long)T.reuses);
    fprintf(f,"\"distinct_histories\":%llu,\"distinct_interleavings\":%llu,\"blocks_reached\":%llu,\"blocks_total\":%u,\"stopped_outside_scope\":%llu,\"unreproducible\":%llu,\"determinism_checked\":%llu,\"determinism_failed\":%llu,\"violations\":%llu,\"unplannable\":%llu,\"bad_fields\":%zu,\"op_kinds\":{",(unsigned long long)popbits(shm->sig),(unsigned long long)popbits(shm->ilv),(unsigned long long)cov,n_guards,(unsigned long long)T.scoped_out,(unsigned long long)T.unrepro,(unsigned long long)T.det_checked,(unsigned long long)T.det_bad,(unsigned long long)T.violations,(unsigned long long)T.trivial,badbase.size());
    for(int k=0;k<n_op_kinds;k++) fprintf(f,"%s\"%s\":%llu",k?",":"",op_kinds[k].name,(unsigned long long)T.kind[k]); fprintf(f,"},\"scoped_out_by_kind\":{"); bool c0=false; for(int k=0;k<n_op_kinds;k++) if(T.scoped_kind[k]){ fprintf(f,"%s\"%s\":%llu",c0?",":"",op_kinds[k].name,(unsigned long long)T.scoped_kind[k]); c0=true; } fprintf(f,"}}\n"); fclose(f); }
  printf("%s: %llu runs, %llu executions, %llu operations, %.1f s, %llu out of scope, %llu unreproducible\n",P->id,(unsigned long long)T.runs,(unsigned long long)T.execs,(unsigned long long)T.ops,el,(unsigned long long)T.scoped_out,(unsigned long long)T.unrepro);
  if(T.violations) return 1; if(bad){ fprintf(stderr,"%d workers ended abnormally\n",bad); return 2; } return 0; }
int main(int argc,char**argv){ int r=main2(argc,argv); fflush(stdout); fflush(stderr); _exit(r); }
