#include "driver.h"
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <fcntl.h>
#include <sys/stat.h>

Run run; Var var; std::vector<Fld> flds;
static std::vector<Thr*> thr; static std::vector<Obj*> sharedpool; static std::vector<Obj*> allobjs;
static std::map<u32,void*> basefields;
static Ctx* curctx[16]; static Thr* setup_thr;
static int cache_sz;

// ------------------------------------------------------------------ library-boundary seams (called from acc.c)
extern void sim_step1(); extern void sim_range(uintptr_t a,size_t n,int store,const char*fn);
extern "C" void sim_lib_event(void){ sim_step1(); }
extern "C" void sim_lib_range(uintptr_t a,size_t n,int st,const char*fn){ F->lib+=n+2; if(F->in_op) sim_range(a,n,st,fn); }
extern "C" void sim_lib_work(unsigned long long n){ F->lib+=n; }

// ------------------------------------------------------------------ views
static void view(Obj*o,MV*v){ if(o->kind==MZED) acc_mzed(o->p,v); else if(o->kind==SLICE) acc_slice(o->p,v); else acc_poly(o->p,v); }
static inline u64 hw(u64 h,u64 v){ h^=v; h*=0x9E3779B97F4A7C15ULL; return h^(h>>29); }
static u64 hash_view(const MV&v){ u64 h=hw(hw(hw(v.nrows,v.ncols),v.w),v.depth);
  for(int k=0;k<v.nx;k++){ const XV&x=v.x[k]; h=hw(hw(h,x.nrows),x.ncols); for(int i=0;i<x.nrows;i++){ const u64*r=x.rows[i]; for(int j=0;j<x.width;j++) h=hw(h,r[j]); } } return h; }
u64 rawhash(Obj*o){ if(o->kind==PERM){ int*v; int n=acc_perm(o->p,&v); u64 h=n; for(int i=0;i<n;i++) h=hw(h,(u32)v[i]); return h; }
  if(o->kind==FIELD||o->kind==NJT) return 0; MV v; view(o,&v); return hash_view(v); }
static void enc_x(const XV&x,std::function<u64(int,int)> bit); 
void encode(Obj*o){ MV v; view(o,&v); Mat tmp; const Mat*m=&o->m; if(o->detached){ tmp=mat_of(o); m=&tmp; }
  if(o->kind==MZED){ const XV&x=v.x[0]; int w=v.w; for(int i=0;i<v.nrows;i++){ u64*r=x.rows[i]; for(int j=0;j<x.width;j++) r[j]=0; for(int j=0;j<v.ncols;j++){ int b=w*j; r[b>>6]|=(u64)m->at(i,j)<<(b&63); } } }
  else for(int k=0;k<v.nx;k++){ const XV&x=v.x[k]; for(int i=0;i<v.nrows;i++){ u64*r=x.rows[i]; for(int j=0;j<x.width;j++) r[j]=0; for(int j=0;j<v.ncols;j++) r[j>>6]|=(u64)(m->at(i,j)>>k&1)<<(j&63); } } }
static bool padding_ok(const XV&x){ if(!x.width) return true; u64 bad=~x.high_bitmask; if(!bad) return true; for(int i=0;i<x.nrows;i++) if(x.rows[i][x.width-1]&bad) return false; return true; }
static void dec_slices(const MV&v,Mat&m){ for(int k=0;k<v.nx;k++){ const XV&x=v.x[k]; for(int i=0;i<m.r;i++){ const u64*r=x.rows[i]; for(int j=0;j<m.c;j++) if(r[j>>6]>>(j&63)&1) m.at(i,j)|= (u16)(1u<<k); } } }
bool decode(Obj*o,Mat&m,bool*pad,std::string*err){ MV v; view(o,&v); char t[160];
  if(v.nrows<0||v.ncols<0||v.nrows>(1<<20)||v.ncols>(1<<20)){ if(err)*err="nonsense dimensions"; return false; }
  int e=o->fld>=0?flds[o->fld].e:0;
  if(o->fld>=0&&v.ff!=flds[o->fld].ff){ if(err)*err="wrong field pointer"; return false; }
  if(o->kind==MZED){ if(v.w!=flds[o->fld].w||v.x[0].nrows!=v.nrows||v.x[0].ncols!=v.w*v.ncols){ snprintf(t,sizeof t,"inconsistent header: %dx%d width %d over a %dx%d bit matrix",v.nrows,v.ncols,v.w,v.x[0].nrows,v.x[0].ncols); if(err)*err=t; return false; } }
  else if(o->kind==SLICE){ if(v.depth<e||v.depth>16){ snprintf(t,sizeof t,"depth %d for degree %d",v.depth,e); if(err)*err=t; return false; }
    for(int k=0;k<v.nx;k++) if(v.x[k].nrows!=v.nrows||v.x[k].ncols!=v.ncols){ if(err)*err="slice of wrong shape"; return false; } }
  m=Mat(v.nrows,v.ncols); if(pad)*pad=true;
  if(o->kind==MZED){ const XV&x=v.x[0]; int w=v.w; u64 mask=(1ULL<<w)-1; for(int i=0;i<v.nrows;i++){ const u64*r=x.rows[i]; for(int j=0;j<v.ncols;j++){ int b=w*j; m.at(i,j)=(u16)(r[b>>6]>>(b&63)&mask); } } if(pad)*pad=padding_ok(x); }
  else { dec_slices(v,m); for(int k=0;k<v.nx;k++) if(pad&&!padding_ok(v.x[k])) *pad=false; }
  return true; }
static Mat submat(const Mat&a,int r0,int c0,int nr,int nc){ Mat m(nr,nc); for(int i=0;i<nr;i++) for(int j=0;j<nc;j++) m.at(i,j)=a.at(r0+i,c0+j); return m; }
static void putmat(Mat&a,int r0,int c0,const Mat&b){ for(int i=0;i<b.r;i++) for(int j=0;j<b.c;j++) a.at(r0+i,c0+j)=b.at(i,j); }
Mat mat_of(Obj*o){ if(o->root==o) return o->m; return submat(o->root->m,o->r0,o->c0,o->nr,o->nc); }
void resync(Obj*o){ o->raw=rawhash(o); }

// ------------------------------------------------------------------ violations
static char rbuf[600]; static bool recovering;
void raise(Ctx&c,u32 mask,const char*cls,const char*fmt,...){
  va_list ap; va_start(ap,fmt); vsnprintf(rbuf,sizeof rbuf,fmt,ap); va_end(ap);
  if(recovering) mask=M_RECOV; // what an abandoned operation leaves behind is the recovery property alone
  if(mask&run.report) violation(mask,cls,"%s: %s",R->curname,rbuf);
  snprintf(R->vclass,sizeof R->vclass,"%s",cls); snprintf(R->vdetail,sizeof R->vdetail,"%s: %s",R->curname,rbuf); R->vmask=mask; R->vop=c.k; finish_child(3);
}
static u64 seen_mem,seen_lock,seen_shw;
extern u64 lockviol_shared; 
static void poll_recorded(Ctx&c){
  if(memviol_count>seen_mem){ seen_mem=memviol_count; if(run.report&M_MEM||(c.expect_die&&run.report&F_MISUSE)) raise(c,M_MEM|(c.expect_die?F_MISUSE:0),"memory","%s",memviol_first.c_str()); }
  if(lockviol_count>seen_lock){ seen_lock=lockviol_count; u32 m=M_OPND; if(lockviol_shared>seen_shw) m|=M_SHW; seen_shw=lockviol_shared; if(c.expect_die) m|=F_MISUSE; if(c.win) m|=M_WIN; bool decided= run.prop=="C15"? false: run.prop=="C01"? (m&M_SHW)!=0: true; /* for those two an input put back in time is no violation: what can be observed decides */ if(decided&&(run.report&m)) raise(c,m,(m&M_SHW)?"shared-write":"foreign-write","%s",lockviol_first.c_str()); lockviol_first.clear(); }
}

// ------------------------------------------------------------------ locks
static void lock_x(const XV&x,bool lock,bool rowsonly){
  if(!x.nrows) return;
  if(rowsonly){ for(int i=0;i<x.nrows;i++) range_lock((uintptr_t)x.rows[i],(size_t)x.width*8,lock); return; }
  int last=-1; for(int i=0;i<x.nrows;i++){ int b=find_block((uintptr_t)x.rows[i]); if(b!=last&&b>=0) block_lock(b,lock); last=b; if(b>=0 && x.nrows>64) { if(blocks[b].n>=(size_t)x.nrows*x.rowstride*8) break; } }
}
void sim_unlock(Obj*o,bool unlock){
  if(o->kind==FIELD||o->kind==NJT) return;
  if(o->kind==PERM){ int*v; acc_perm(o->p,&v); block_lock(find_block((uintptr_t)v),!unlock); return; }
  MV v; view(o,&v); bool win=o->root!=o&&!o->detached;
  for(int k=0;k<v.nx;k++) lock_x(v.x[k],!unlock,win);
  if(!win){ int b=find_block((uintptr_t)o->p); block_lock(b,!unlock); if(o->kind==POLY) block_lock(find_block((uintptr_t)acc_poly_x(o->p)),!unlock); }
}
static void lock_fresh(){ for(int b:*F->fresh){ if(blocks[b].live && (int)blocks[b].n!=cache_sz) block_lock(b,true); } F->fresh->clear(); }

// ------------------------------------------------------------------ calls
static u64 global_scall;
// the tree under test does not have this function (or not with these arguments)
static void unavailable(Ctx&c,int call){ snprintf(R->vclass,sizeof R->vclass,"unavailable"); snprintf(R->vdetail,sizeof R->vdetail,"%s is not available in this tree",call_table[call].name); R->vmask=0; R->vop=c.k; finish_child(3); }
long scall(Ctx&c,int call,std::initializer_list<void*> p,std::initializer_list<long> i,void**ret){
  if(!call_table[call].fn) unavailable(c,call);
  CallArgs a; memset(&a,0,sizeof a); int n=0; for(void*x:p) a.p[n++]=x; n=0; for(long x:i) a.i[n++]=x;
  u64 st=F->step,nx=F->next,bd=F->budget,lb=F->lib; F->in_op=true; F->in_main=false; F->step=0; F->budget=400000000ULL; F->next=F->budget; F->errtext->clear();
  char saved[64]; memcpy(saved,R->curname,64); snprintf(R->curname,64,"%s",call_table[call].name);
  int r=setjmp(F->jb);
  if(r==0) call_table[call].fn(&a);
  R->steps+=F->step; F->step=st; F->lib=lb; F->next=nx; F->budget=bd; 
  if(r!=0) raise(c,c.fam|F_CONS,"unexpected-stop","set-up call stopped the process: %s",F->errtext->c_str());
  lock_fresh(); memcpy(R->curname,saved,64);
  if(ret) *ret=a.ret; 
  if(memviol_count>seen_mem||lockviol_count>seen_lock){ snprintf(R->curname,64,"%s",call_table[call].name); poll_recorded(c); memcpy(R->curname,saved,64); }
  return a.iret;
}
void sched_preempt(int target);
#include "work.inc"
int maincall(Ctx&c,int call,std::initializer_list<void*> p,std::initializer_list<long> i){
  if(!call_table[call].fn) unavailable(c,call);
  Fiber*f=F; c.call=call; memset(&c.a,0,sizeof c.a); int n=0; for(void*x:p) c.a.p[n++]=x; n=0; for(long x:i) c.a.i[n++]=x;
  snprintf(R->curname,64,"%s",call_table[call].name);
  bool faults=!c.mainused&&!c.nofault; c.mainused=true;
  for(Obj*o:c.ins) if(o->detached) encode(o);
  for(Obj*o:c.dests){ if(o->detached){ encode(o); } o->busy=o->root->busy=true; if(!c.locked_dests) sim_unlock(o,true); }
  f->intr_at=0; f->slice0=0; f->alloc_fail_at=0; f->npre=f->ipre=0; f->alloc_failed=false; f->allocs=0; f->errtext->clear(); f->step=0; f->lib=0; f->budget= c.k>=0&&!strncmp(op_kinds[c.o->kind].name,"big",3)? 4000000000ULL: 1500000000ULL; f->fresh->clear();
  if(!work_dump){ long x1,x2,x3,x4; double m; char wk; double lim=work_lim(c,call,x1,x2,x3,x4,m,wk); lim= run.report==(M_HANG|F_WORK)? 2*lim: std::max(20*lim,3e7); if(lim<(double)f->budget) f->budget=(u64)lim; } // what never ends is cut early
  if(faults){ 
    if(c.o->it&&!c.nointr&&!var.nointr&&!var.skipintr) f->intr_at=c.o->it;
    if(c.o->af&&!var.noaf){ f->alloc_fail_at=c.o->af; f->alloc_persist=c.o->ap; }
    if(!var.nopre) for(auto&q:c.o->pre) if(f->npre<32){ f->pre[f->npre].step=q.first; f->pre[f->npre].target=q.second; f->npre++; }
    f->track_gst=var.gst;
  }
  volatile int out=OK; bool skipped=false;
  if(faults&&var.skipintr&&c.o->it&&!c.nointr){ out=INTR; skipped=true; }
  else {
    stack_garbage(); f->in_op=true; f->in_main=true; R->curmain=1; op_arm();
    int r=setjmp(f->jb);
    if(r==0) call_table[call].fn(&c.a);
    else out=r;
    F->in_main=false; R->curmain=0; F->next=~0ULL;
  }
  if(work_dump||run.report==(M_HANG|F_WORK)) work_check(c,call,out);
  R->steps+=f->step; if(faults||c.k<0){ if(c.k>=0&&c.k<MAXOPS){ R->op[c.k].steps=f->step; R->op[c.k].allocs=f->allocs; } }
  f->track_gst=false; f->intr_at=0; f->alloc_fail_at=0; f->npre=0;
  c.outcome=out;
  if(out==INTR&&c.k>=0&&c.k<MAXOPS) R->op[c.k].abandoned=1;
  if(out==INTR&&!skipped) mark_abandoned_op(c.k);
  if(out==DIED) mark_abandoned_op(c.k);
  if(!c.locked_dests) for(Obj*o:c.dests) sim_unlock(o,false);
  lock_fresh();
  poll_recorded(c);
  c.dig=hcomb(c.dig,out*1000003ULL+(u64)(out==OK?c.a.iret:0));
  if(out==DIED){
    if(f->alloc_failed){ 
      if(f->errtext->empty()) raise(c,M_DIAG,"silent-stop","process stopped for lack of memory without a diagnostic");
      for(Obj*o:allobjs) if(o->live&&o->root==o&&!o->busy&&o->kind!=FIELD&&o->kind!=NJT&&rawhash(o)!=o->raw) raise(c,M_OPND,"input-modified","an object the operation does not own changed before it failed for lack of memory");
      R->oom_survived++; R->hash=hcomb(R->hash,0xdead); finish_child(1); }
    if(!c.expect_die) raise(c,c.fam|F_CONS,"unexpected-stop","stopped the process: %s",f->errtext->c_str());
  }
  if(out==OK&&f->alloc_failed) R->oom_survived++;
  if(out==INTR){ // the destination must still be usable: overwrite it
    std::string wh=skipped?std::string("-"):where_abandoned();
    for(Obj*o:c.dests){
      if(o->kind==PERM){ int*v; int n2=acc_perm(o->p,&v); for(int x=0;x<n2;x++) v[x]=x; o->raw=rawhash(o); o->busy=false; continue; }
      if(o->kind==MZED||o->kind==SLICE){ sim_unlock(o,true); u32 fam=c.fam; scall(c,o->kind==MZED?C_mzed_set_ui:C_mzd_slice_set_ui,{o->p},{0}); sim_unlock(o,false); 
        c.fam=M_RECOV; recovering=true; settle(c,o,Mat(o->nr,o->nc),("after interrupt in "+wh+" and reset").c_str()); recovering=false; c.fam=fam; }
      else if(o->kind==POLY){ MV v; view(o,&v); for(int k=0;k<v.nx;k++) for(int x=0;x<v.x[k].nrows;x++) for(int y=0;y<v.x[k].width;y++) v.x[k].rows[x][y]=0; for(auto&m:o->pc) std::fill(m.a.begin(),m.a.end(),0); o->raw=rawhash(o); }
      o->busy=false; if(o->root) o->root->busy=false;
    }
  }
  return out;
}
static void undest(Ctx&c){ for(Obj*o:c.dests){ o->busy=false; if(o->root) o->root->busy=false; } }

Mat peek(Ctx&c,Obj*d){ Mat m; std::string err; bool pad; if(d->detached||d->root==d){ if(!decode(d,m,&pad,&err)) raise(c,c.fam,"corrupt-header","%s",err.c_str()); return m; }
  Obj*r=d->root; if(!decode(r,m,&pad,&err)) raise(c,c.fam|M_WIN,"corrupt-header","%s",err.c_str()); return submat(m,d->r0,d->c0,d->nr,d->nc); }
void settle(Ctx&c,Obj*d,const Mat&want,const char*what){
  Obj*r=d->root; R->checks++;
  std::string err; bool pad=true; Mat got;
  if(d->detached){
    if(!decode(d,got,&pad,&err)) raise(c,c.fam,"corrupt-header","%s %s",what,err.c_str());
    for(int i=0;i<want.r;i++) for(int j=0;j<want.c;j++) if(got.at(i,j)!=want.at(i,j)) raise(c,c.fam,"wrong-result","%s: entry (%d,%d) of %dx%d over 0x%x is 0x%x, should be 0x%x",what,i,j,want.r,want.c,flds[d->fld].poly,got.at(i,j),want.at(i,j));
    if(!pad) raise(c,c.fam,"dirty-padding","%s: bits beyond the last column set",what);
    putmat(r->m,d->r0,d->c0,want); encode(r); r->raw=rawhash(r); d->busy=r->busy=false; c.dig=hcomb(c.dig,hash_view([&]{MV v; view(d,&v); return v;}())); return;
  }
  if(!decode(r,got,&pad,&err)) raise(c,c.fam|(d!=r?M_WIN:0),"corrupt-header","%s %s",what,err.c_str());
  if(got.r!=r->nr||got.c!=r->nc) raise(c,c.fam,"wrong-shape","%s: result is %dx%d, should be %dx%d",what,got.r,got.c,r->nr,r->nc);
  Mat full=r->m; putmat(full,d->r0,d->c0,want);
  if(!(got==full)){
    int in=-1,out=-1; for(int i=0;i<full.r;i++) for(int j=0;j<full.c;j++) if(got.at(i,j)!=full.at(i,j)){ bool inside=i>=d->r0&&i<d->r0+d->nr&&j>=d->c0&&j<d->c0+d->nc; int&x=inside?in:out; if(x<0) x=i*full.c+j; }
    int x=in>=0?in:out; int i=x/full.c,j=x%full.c;
    if(in>=0) raise(c,c.fam|(out>=0?M_WIN:0),"wrong-result","%s: entry (%d,%d) of %dx%d over 0x%x is 0x%x, should be 0x%x",what,i-d->r0,j-d->c0,d->nr,d->nc,flds[d->fld].poly,got.at(i,j),full.at(i,j));
    raise(c,M_WIN|(c.fam&(F_CONV|F_RAND)),"outside-window","%s: entry (%d,%d) of the %dx%d parent, outside the %dx%d window at (%d,%d), changed from 0x%x to 0x%x",what,i,j,full.r,full.c,d->nr,d->nc,d->r0,d->c0,full.at(i,j),got.at(i,j));
  }
  if(!pad) raise(c,c.fam|(d!=r?M_WIN:0),"dirty-padding","%s: bits beyond the last column of a %dx%d matrix set",what,r->nr,r->nc);
  r->m=full; r->raw=rawhash(r); d->busy=r->busy=false; c.dig=hcomb(c.dig,r->raw);
}
static void check_others(Ctx&c){
  for(Obj*o:allobjs){ if(!o->live||o->root!=o||o->busy||o->kind==FIELD||o->kind==NJT) continue; 
    if(rawhash(o)!=o->raw){ u32 m=M_OPND|(c.fam&(F_CONV|F_RAND)); if(c.win) m|=M_WIN; if(o->shared) m|=M_SHW; if(c.expect_die) m|=F_MISUSE; bool in=false; for(Obj*x:c.ins) if(x->root==o) in=true; for(Obj*x:c.dests) if(x->root==o) in=true;
      raise(c,m,in?"input-modified":"bystander-modified","a %s of shape %dx%d that is not the destination changed",o->kind==MZED?"packed matrix":o->kind==SLICE?"bit-sliced matrix":o->kind==POLY?"matrix polynomial":"permutation",o->nr,o->nc); } }
}

// ------------------------------------------------------------------ objects
static Obj* track(Ctx&c,Obj*o){ allobjs.push_back(o); if(c.t) c.t->pool.push_back(o); else { sharedpool.push_back(o); o->shared=true; } return o; }
static void untrack(Ctx&c,Obj*o){ auto&p=c.t?c.t->pool:sharedpool; for(size_t i=0;i<p.size();i++) if(p[i]==o){ p.erase(p.begin()+i); break; } for(size_t i=0;i<allobjs.size();i++) if(allobjs[i]==o){ allobjs.erase(allobjs.begin()+i); break; } }
Mat rndmat(Ctx&c,int fld,int r,int cc,int style){
  Rng g(hcomb(c.g.next(),c.o->vr&8)); Mat m(r,cc); u32 q=1u<<flds[fld].e; if(style<0) style=g.below(14);
  if(style==0) return m;                                             // zero
  if(style==1){ for(auto&x:m.a) if(g.chance(0.1)) x=g.below(q); return m; }
  if(style==2){ for(auto&x:m.a) x=q-1; return m; }
  if(style==3){ for(int i=0;i<r&&i<cc;i++) m.at(i,i)=1+g.below(q-1); return m; }
  if(style==4&&r>0&&cc>0){ int k=g.range(0,std::min(r,cc)); Mat A(r,k),B(k,cc); for(auto&x:A.a)x=g.below(q); for(auto&x:B.a) x=g.chance(0.5)?g.below(q):0; if((u64)r*k*cc<2000000) return m_mul(flds[fld].fm,A,B); }
  if(style==5){ for(auto&x:m.a) x=g.below(2)?1u<<(flds[fld].e-1):0; return m; }
  if(style==6){ for(auto&x:m.a) x=g.below(q); int z=g.below(cc+1); for(int i=0;i<r;i++) for(int j=0;j<z&&j<cc;j++) m.at(i,j)=0; return m; }
  if(style==7){ for(auto&x:m.a) x=g.below(q); for(int t=0;t<3;t++){ int z=g.below(r); for(int j=0;j<cc;j++) m.at(z,j)=0; } return m; }
  if(style==8){ for(auto&x:m.a) x=g.below(q); for(int t=0;t<1+cc/8;t++){ int z=g.below(cc); for(int i=0;i<r;i++) m.at(i,z)=0; } return m; }
  if(style==12){ int i0=g.below(r),j0=g.below(cc),i1=i0+1+g.below(r-i0),j1=j0+1+g.below(cc-j0); for(int i=i0;i<i1;i++) for(int j=j0;j<j1;j++) m.at(i,j)=g.below(q); return m; } // a block somewhere
  if(style==13){ for(int t=g.range(1,3);t>0;t--) m.at(g.below(r),g.below(cc))=1+g.below(q-1); return m; }                                                                     // a few entries
  for(auto&x:m.a) x=g.below(q); return m; }
Obj* newroot(Ctx&c,int kind,int fld,int nr,int nc,const Mat*content){
  Obj*o=new Obj; o->kind=kind; o->fld=fld; o->nr=nr; o->nc=nc; o->root=o; void*p; scall(c,kind==MZED?C_mzed_init:C_mzd_slice_init,{flds[fld].ff},{nr,nc},&p); o->p=p;
  o->m=content?*content:Mat(nr,nc); Mat got; bool pad; std::string err; if(!decode(o,got,&pad,&err)) raise(c,c.fam|F_CONS|F_ELEM,"corrupt-header","new matrix: %s",err.c_str()); 
  if(got.r!=nr||got.c!=nc) raise(c,c.fam|F_CONS|F_ELEM,"wrong-shape","new matrix of wrong shape");
  for(auto x:got.a) if(x) raise(c,c.fam|F_CONS|F_ELEM,"wrong-result","a new matrix is not zero");
  if(content) encode(o); o->raw=rawhash(o); return track(c,o); }
Obj* newpoly(Ctx&c,int depth,int nr,int nc,bool content){ Obj*o=new Obj; o->kind=POLY; o->nr=nr; o->nc=nc; o->root=o; o->depth=depth; void*p; scall(c,C_mzd_poly_init,{}, {depth-1,nr,nc},&p); o->p=p; o->pc.assign(depth,Mat(nr,nc));
  if(content){ MV v; view(o,&v); int st=c.g.below(8); for(int k=0;k<depth;k++){ for(auto&x:o->pc[k].a) x= st==0?0: st==1?1: c.g.below(2); for(int i=0;i<nr;i++) for(int j=0;j<nc;j++) if(o->pc[k].at(i,j)) v.x[k].rows[i][j>>6]|=1ULL<<(j&63); } }
  o->raw=rawhash(o); return track(c,o); }
Obj* newperm(Ctx&c,int len,int mode){ Obj*o=new Obj; o->kind=PERM; o->nr=len; o->nc=1; o->root=o; void*p; scall(c,C_mzp_init,{}, {len},&p); o->p=p; int*v; acc_perm(p,&v); 
  if(mode>=3){ int dim=mode-3, n=len<dim?len:dim, sh=c.g.below(4); // transpositions (i, v[i]) of dim things: all, few, neighbouring, or few in a late part
    for(int i=0;i<len;i++) v[i]=i; if(n) switch(sh){ case 0: for(int i=0;i<n;i++) v[i]=c.g.range(i,dim-1); break; case 1: case 2: { int lo=sh==2?c.g.below(n):0; for(int k=1+c.g.below(3);k>0;k--){ int i=c.g.range(lo,n-1); v[i]=c.g.range(i,dim-1); } } break; default: for(int i=0;i<n;i++) v[i]=std::min(dim-1,i+(int)c.g.below(3)); } }
  else for(int i=0;i<len;i++) v[i]= mode==0? i : mode==1? c.g.range(i,len-1) : (int)c.g.next(); o->perm.assign(v,v+len); o->raw=rawhash(o); return track(c,o); }
Obj* mkwindow(Ctx&c,Obj*par,int r0,int c0,int nr,int nc){ // relative to par
  Obj*o=new Obj; o->kind=par->kind; o->fld=par->fld; o->nr=nr; o->nc=nc; o->root=par->root; o->parent=par; o->r0=par->r0+r0; o->c0=par->c0+c0; 
  if(var.nowin){ void*p; scall(c,o->kind==MZED?C_mzed_init:C_mzd_slice_init,{flds[o->fld].ff},{nr,nc},&p); o->p=p; o->detached=true; encode(o); }
  else { void*p; scall(c,o->kind==MZED?C_mzed_init_window:C_mzd_slice_init_window,{par->p},{r0,c0,r0+nr,c0+nc},&p); o->p=p; MV v; view(o,&v); if(v.nrows!=nr||v.ncols!=nc||v.ff!=flds[o->fld].ff) raise(c,c.fam|M_WIN,"corrupt-header","window of wrong shape"); 
    MV pv; view(o->root,&pv); for(int k=0;k<v.nx;k++) for(int i=0;i<nr;i++) if(v.x[k].rows[i]!=pv.x[k].rows[o->r0+i]+(o->kind==MZED?(o->c0*v.w)/64:o->c0/64)) raise(c,c.fam|M_WIN,"corrupt-header","window row %d does not point into the parent",i); }
  o->root->nwin++; R->winops++; return track(c,o); }
void freeobj(Ctx&c,Obj*o){ 
  if(o->kind==MZED||o->kind==SLICE){ bool w=o->root!=o&&!o->detached; scall(c,o->kind==MZED?(w?C_mzed_free_window:C_mzed_free):(w?C_mzd_slice_free_window:C_mzd_slice_free),{o->p},{}); if(o->root!=o) o->root->nwin--; }
  else if(o->kind==POLY) scall(c,C_mzd_poly_free,{o->p},{});
  else if(o->kind==PERM) scall(c,C_mzp_free,{o->p},{});
  else if(o->kind==FIELD) scall(c,C_gf2e_free,{o->p},{});
  else if(o->kind==NJT) scall(c,C_njt_free,{o->p},{});
  o->live=false; untrack(c,o); for(Obj*x:allobjs) if(x->parent==o) x->parent=o->parent; delete o; }
int unitof(Obj*o){ return o->kind==MZED?64/flds[o->fld].w:64; }
static int unitk(int kind,int fld){ return kind==MZED?64/flds[fld].w:64; }
static bool usable_input(Ctx&c,Obj*o){ return o->live&&!o->busy&&!o->root->busy; }
static Obj* cut(Ctx&c,Obj*p,int nr,int nc){ int u=unitof(p); int mr=p->nr-nr, mc=(p->nc-nc)/u; if(p->nr<nr||p->nc<nc) return nullptr; return mkwindow(c,p,c.g.range(0,mr),u*c.g.range(0,mc),nr,nc); }
static Obj* bigger_and_cut(Ctx&c,int kind,int fld,int nr,int nc,const Mat*content){ int u=unitk(kind,fld); int r0=c.g.range(0,4), c0=u*c.g.below(3); int er=c.g.range(0,4), ec=c.g.chance(0.3)?0:c.g.range(0,u+u/2); 
  Obj*p=nullptr; int R2=r0+nr+er,C2=c0+nc+ec; Mat m=rndmat(c,fld,R2,C2,11); if(content) putmat(m,r0,c0,*content); p=newroot(c,kind,fld,R2,C2,&m);
  if(c.g.chance(0.25)){ // nested
    int a=c.g.range(0,r0), b=u*c.g.below(c0/u+1); Obj*q=mkwindow(c,p,a,b,c.g.range(r0+nr,R2)-a,C2-b); return mkwindow(c,q,r0-a,c0-b,nr,nc); }
  return mkwindow(c,p,r0,c0,nr,nc); }
Obj* input(Ctx&c,int kind,int fld,int nr,int nc,const Mat*content){
  Obj*o=nullptr; int roll=c.g.below(100);
  if(!content&&roll<30){ std::vector<Obj*> cand; auto scan=[&](std::vector<Obj*>&p){ for(Obj*x:p) if(x->kind==kind&&x->fld==fld&&x->nr==nr&&x->nc==nc&&usable_input(c,x)) cand.push_back(x); }; scan(c.t->pool); scan(sharedpool); if(!cand.empty()) o=cand[c.g.below(cand.size())]; }
  if(!o&&!content&&roll<30+run.winpct){ std::vector<Obj*> cand; for(Obj*x:c.t->pool) if(x->kind==kind&&x->fld==fld&&x->nr>=nr&&x->nc>=nc&&usable_input(c,x)) cand.push_back(x); if(!cand.empty()) o=cut(c,cand[c.g.below(cand.size())],nr,nc); }
  if(!o&&(int)c.g.below(100)<run.winpct) { Mat m=content?*content:rndmat(c,fld,nr,nc); o=bigger_and_cut(c,kind,fld,nr,nc,&m); }
  if(!o){ Mat m=content?*content:rndmat(c,fld,nr,nc); o=newroot(c,kind,fld,nr,nc,&m); }
  if(o->root!=o) c.win=true; c.ins.push_back(o); return o; }
Obj* anyinput(Ctx&c,int kind,int maxvol){ // an existing object of the kind, if lucky
  if(c.g.chance(0.45)){ std::vector<Obj*> cand; auto scan=[&](std::vector<Obj*>&p){ for(Obj*x:p) if(x->kind==kind&&usable_input(c,x)&&(long)x->nr*x->nc<=maxvol&&(!c.o->cap||(x->nr<=c.o->cap&&x->nc<=c.o->cap))) cand.push_back(x); }; scan(c.t->pool); scan(sharedpool); if(!cand.empty()){ Obj*o=cand[c.g.below(cand.size())]; if(o->root!=o) c.win=true; c.ins.push_back(o); return o; } }
  return nullptr; }
Obj* dest(Ctx&c,int kind,int fld,int nr,int nc,bool allow_null,const Mat*content,bool*isnull){
  if(isnull) *isnull=false; int roll=c.g.below(100); Obj*o=nullptr;
  if(allow_null&&roll<30){ if(isnull)*isnull=true; return nullptr; }
  auto clash=[&](Obj*x){ for(Obj*y:c.ins) if(y->root==x->root) return true; for(Obj*y:c.dests) if(y->root==x->root) return true; return x->shared||x->root->shared; };
  if(!content&&roll<55){ std::vector<Obj*> cand; for(Obj*x:c.t->pool) if(x->kind==kind&&x->fld==fld&&x->nr==nr&&x->nc==nc&&usable_input(c,x)&&!clash(x)) cand.push_back(x); if(!cand.empty()) o=cand[c.g.below(cand.size())]; }
  if(!o&&!content&&(int)c.g.below(100)<run.winpct){ std::vector<Obj*> cand; for(Obj*x:c.t->pool) if(x->kind==kind&&x->fld==fld&&x->nr>=nr&&x->nc>=nc&&usable_input(c,x)&&!clash(x)) cand.push_back(x); if(!cand.empty()) o=cut(c,cand[c.g.below(cand.size())],nr,nc); }
  if(!o&&(int)c.g.below(100)<run.winpct+5){ Mat m=content?*content:rndmat(c,fld,nr,nc); o=bigger_and_cut(c,kind,fld,nr,nc,&m); }
  if(!o){ Mat m=content?*content:(c.g.chance(0.4)?Mat(nr,nc):rndmat(c,fld,nr,nc)); o=newroot(c,kind,fld,nr,nc,&m); }
  if(o->root!=o) c.win=true; c.dests.push_back(o); return o; }
Obj* adopt(Ctx&c,int kind,int fld,void*p,const Mat&want,const char*what){
  if(!p) raise(c,c.fam,"null-result","%s returned no matrix",what);
  for(Obj*x:allobjs) if(x->p==p) raise(c,c.fam,"wrong-result","%s returned one of its arguments instead of a new matrix",what);
  Obj*o=new Obj; o->kind=kind; o->fld=fld; o->nr=want.r; o->nc=want.c; o->root=o; o->p=p; o->m=want; MV v; view(o,&v); if(v.nrows!=want.r||v.ncols!=want.c) raise(c,c.fam,"wrong-shape","%s: result is %dx%d, should be %dx%d",what,v.nrows,v.ncols,want.r,want.c);
  track(c,o); settle(c,o,want,what); return o; }
void finish_perm(Ctx&c,Obj*p,std::vector<int>&out){ int*v; int n=acc_perm(p->p,&v); out.assign(v,v+n); p->perm=out; p->raw=rawhash(p); p->busy=false; c.dig=hcomb(c.dig,p->raw); }
int pickfld(Ctx&c){ return (c.g.below(flds.size())+(c.o->vr&7))%flds.size(); }
bool vast=false; // the operation being generated has one side of thousands
static int dim0(Ctx&c){ Rng&g=c.g; static const int wb[]={15,16,17,31,32,33,63,64,65,66,1,2,3,7,8,9,48,70,127,128,129}; int d; int s=run.size; if(c.skinny<0) c.skinny= s>=1&&!c.o->cap&&g.chance(0.05); // now and then one very long side
  if(c.skinny==1&&g.chance(0.06)){ c.skinny=2; vast=true; return g.chance(0.3)? g.range(65530,66000): g.range(1300,70000); } // past 2^16
  if(c.skinny==2) return g.range(1,3);
  if(c.skinny) return g.chance(0.4)? g.range(150,1300): g.range(1,5);
  if(c.lastdim&&g.chance(0.12)) return c.lastdim; // equal sides more often than chance gives
  if(g.chance(0.2)) s=std::min(s,1);
  switch(s){ case 0: d=g.range(1,6); break; case 1: d=g.range(1,24); break; case 2: d=g.chance(0.5)?wb[g.below(18)]:g.range(1,70); break; case 3: d=g.chance(0.3)?wb[g.below(21)]:g.range(40,140); break; default: d=g.chance(0.3)?wb[g.below(21)]:g.range(130,280); }
  if(c.o->cap&&d>c.o->cap) d=1+d%c.o->cap; return c.lastdim=d; }

int dim(Ctx&c){ int d=dim0(c), v=c.o->vr>>4&3; if(v&&(c.ndim++&1)==(c.o->vr>>7&1)) d= v==1?d+1: v==2&&d>1?d-1: v==3?d+(c.o->vr>>8&63): d; return d; }
// ------------------------------------------------------------------ running one simulated execution
static void run_op(Thr*t,int k){
  vast=false;
  if(R->steps>2000000000ULL) return; // a very long history ends here
  const OpRec&o=run.ops[k]; Ctx c; c.k=k; c.o=&o; c.g=Rng(o.sub); c.t=t; c.fam=op_kinds[o.kind].fam;
  F->curop=k; F->in_op=true; F->in_main=false; F->next=~0ULL; F->step=0; F->rndarmed=false; F->rndmode=0; R->curop=k; R->op[k].kind=o.kind; R->op[k].flags=c.fam; snprintf(R->curname,64,"%s",op_kinds[o.kind].name); curctx[t->id]=&c;
  op_kinds[o.kind].h(c);
  R->curop=k; undest(c); c.win=c.win||false; check_others(c);
  for(Obj*x:c.temps) freeobj(c,x);
  R->op[k].digest=c.dig; R->op[k].done=1; R->hash=hcomb(R->hash,hcomb(c.dig,k));
  // keep the pool small
  int guard=0; while((int)t->pool.size()>run.poolmax&&guard++<50){ std::vector<Obj*> cand; for(Obj*x:t->pool) if(!x->busy&&!(x->root==x&&x->nwin)) cand.push_back(x); if(cand.empty()) break; freeobj(c,cand[c.g.below(cand.size())]); }
  F->in_op=false; curctx[t->id]=nullptr;
}
static void thr_main(Fiber*f){ Thr*t=nullptr; for(auto*x:thr) if(&x->f==f) t=x; while(t->pos<t->ops.size()){ run_op(t,t->ops[t->pos]); t->pos++; fiber_switch(&mainF); } }
static void note_switch(int to){ R->ilv=hcomb(R->ilv,((u64)last_guard<<8)|to); }
void sched_preempt(int target){
  Thr*to=nullptr; int n=thr.size(); for(int d=0;d<n;d++){ Thr*x=thr[(target+d)%n]; if(&x->f==F||x->pos>=x->ops.size()) continue; to=x; break; }
  if(!to) return; R->fired_pre++; R->switches++; note_switch(to->id);
  char nm[64]; memcpy(nm,R->curname,64); int cm=R->curmain; 
  fiber_switch(&to->f);
  R->curop=F->curop; memcpy(R->curname,nm,64); R->curmain=cm;
}
static void schedule(){ u64 n=0; for(;;){ std::vector<int> live; for(size_t i=0;i<thr.size();i++) if(thr[i]->pos<thr[i]->ops.size()) live.push_back(i); if(live.empty()) break; int pick=live[0];
    if(run.sched==0||var.nopre){ for(int i:live) if(thr[i]->ops[thr[i]->pos]<thr[pick]->ops[thr[pick]->pos]) pick=i; } else pick=live[hcomb(run.sched,n++)%live.size()];
    if(live.size()>1){ R->switches++; note_switch(pick); } fiber_switch(&thr[pick]->f); } }
static void child_main(){
  cache_sz=acc_cache_size(); const EnvCfg&e=var.envb?run.envb:run.env; sim_l2=run.l2; sim_l3=run.l3; sim_mulblock=run.mb;
  core_begin_run(e); 
  static Thr st; setup_thr=&st; OpRec so; Ctx c; c.k=-2; c.o=&so; c.g=Rng(hcomb(run.seed,77)); c.t=nullptr; c.fam=F_CONS; mainF.curop=-2; mainF.budget=~0ULL; R->curop=-1;
  for(u32 p:run.polys){ Fld f; f.poly=p; f.fm=get_fm(p); f.e=f.fm->e; f.w=f.e<=2?2:f.e<=4?4:f.e<=8?8:16; auto it=basefields.find(p); f.base=it!=basefields.end()&&!run.nobase; if(f.base) f.ff=it->second; else { c.fam=F_CONS|F_FIELD; scall(c,C_gf2e_init,{}, {(long)p},&f.ff); c.fam=F_CONS; } f.h=acc_ff_hash(f.ff); flds.push_back(f); }
  for(size_t i=0;i<blocks.size();i++) if(blocks[i].base&&blocks[i].live&&(int)blocks[i].n!=cache_sz){ // lock the tables of the fields in use
      }
  for(auto&f:flds) if(f.base){ uintptr_t a=(uintptr_t)f.ff; int b=find_block(a); int op=blocks[b].op; for(size_t i=0;i<blocks.size();i++) if(blocks[i].base&&blocks[i].live&&blocks[i].op==op&&(int)blocks[i].n!=cache_sz) block_lock(i,true); }
  for(int i=0;i<run.nshared;i++){ int f=c.g.below(flds.size()); int a=dim(c),b=dim(c); if(a>70)a=70; if(b>70)b=70; Mat m=rndmat(c,f,a,b,11); newroot(c,c.g.below(2)?MZED:SLICE,f,a,b,&m); }
  mainF.in_op=false;
  int nt=run.nth+(var.extras?1:0); for(int i=0;i<nt;i++){ Thr*t=new Thr; memset(&t->f,0,sizeof t->f); t->id=i; thr.push_back(t); }
  for(size_t k=0;k<run.ops.size();k++){ const OpRec&o=run.ops[k]; if(o.extra){ if(var.extras) thr[run.nth]->ops.push_back(k); } else thr[o.th%run.nth]->ops.push_back(k); }
  for(auto*t:thr) fiber_init(&t->f,t->id,thr_main);
  schedule();
  // everything is released; nothing may remain
  F->in_op=true; mainF.curop=(int)run.ops.size(); c.k=-3; c.fam=F_CONS; R->curop=-3; snprintf(R->curname,64,"final clean-up"); c.g=Rng(hcomb(run.seed,78));
  for(size_t i=0;i<=thr.size();i++){ Ctx d=c; d.t=i<thr.size()?thr[i]:nullptr; for(;;){ auto&p=d.t?d.t->pool:sharedpool; std::vector<Obj*> cand; for(Obj*x:p) if(!(x->root==x&&x->nwin)) cand.push_back(x); if(cand.empty()) break; freeobj(d,cand[d.g.below(cand.size())]); } }
  for(auto&f:flds){ if(acc_ff_hash(f.ff)!=f.h) raise(c,M_OPND|M_SHW|F_FIELD,"field-modified","the tables of the field 0x%x changed during the run",f.poly); if(!f.base) scall(c,C_gf2e_free,{f.ff},{}); }
  std::string what; check_redzones(&what); poll_recorded(c);
  size_t n=live_nonbase(&what,true); if(n){ if((run.report&M_LEAK)&&run.prop=="C13") raise(c,M_LEAK,"leak","%zu allocations remain after every object was freed: %s",n,what.c_str()); }
  finish_child(1);
}

// ------------------------------------------------------------------ process control
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static Result* shmR; static int wall_limit=120; // seconds of processor time; the step budget is what normally ends a run
static void on_segv(int,siginfo_t*si,void*){ uintptr_t a=(uintptr_t)si->si_addr; if(F&&F->stk&&a<(uintptr_t)F->stk+256&&a+(1u<<20)>=(uintptr_t)F->stk) R->stackover=1; signal(SIGSEGV,SIG_DFL); }
static void limit_child(){ struct itimerval it={{0,0},{wall_limit,0}}; setitimer(ITIMER_PROF,&it,nullptr); alarm(1500);
  static char alt[65536]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_segv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; sigaction(SIGSEGV,&sa,nullptr); }
static bool debug_nofork; // development aid: run the next execution in this process
struct Outcome { Result r; int sig; bool timeout; };
static Outcome exec_run(const Run&rr,const Var&v){
  for(u32 p:rr.polys) get_fm(p);
  memset(shmR,0,sizeof *shmR); shmR->status=0; shmR->curop=-1; R=shmR;
  fflush(stdout); pid_t pid=debug_nofork?0:fork();
  if(pid==0){ struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); limit_child(); run=rr; var=v; err_capture(); child_main(); _exit(99); }
  int st=0; while(waitpid(pid,&st,0)<0&&errno==EINTR); Outcome o; o.r=*shmR; o.sig=0; o.timeout=false;
  if(WIFSIGNALED(st)){ o.sig=WTERMSIG(st); if(o.sig==SIGALRM||o.sig==SIGPROF) o.timeout=true; if(o.sig==SIGKILL) o.timeout=true; o.r.status=0; }
  else if(WEXITSTATUS(st)!=0){ o.sig=1000+WEXITSTATUS(st); o.r.status=0; }
  if(o.r.status==0){ snprintf(o.r.vclass,sizeof o.r.vclass,o.timeout?"no-progress":o.r.stackover?"runaway-recursion":"crash"); snprintf(o.r.vdetail,sizeof o.r.vdetail,"%s: the process %s (signal %d) during op %d",o.r.curname,o.timeout?"never finished":o.r.stackover?"ran out of stack":"crashed",o.sig,o.r.curop); 
    u32 fam=F_CONS; if(o.r.curop>=0&&o.r.curop<(int)rr.ops.size()) fam=op_kinds[rr.ops[o.r.curop].kind].fam; o.r.vmask=fam|(o.timeout?M_HANG:o.r.stackover?M_HANG|M_NULL:M_NULL); o.r.vop=o.r.curop; o.r.hash=hcomb(fam,o.sig); }
  else if(o.r.status==2&&(o.r.vmask&(M_HANG|M_NULL))){ u32 fam=F_CONS; if(o.r.vop>=0&&o.r.vop<(int)rr.ops.size()) fam=op_kinds[rr.ops[o.r.vop].kind].fam; o.r.vmask|=fam; }
  if(!strcmp(o.r.vclass,"no-progress")) o.r.hash=77; // where exactly the limit struck is not part of the failure
  return o; }

#include "ops.inc"
#include "props.inc"
