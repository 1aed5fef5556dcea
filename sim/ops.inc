// Operation handlers: each performs one library operation on objects of the calling thread and
// compares the outcome with the reference model.
static void undest1(Obj*o){ o->busy=false; if(o->root) o->root->busy=false; }
static int coin(Ctx&c,int n){ return c.g.below(n); }
static bool hit(Ctx&c,double p){ return c.g.chance(p); }
static void volcap(int&m,int&k,int&n,double cap){ if(vast&&cap<240000) cap=240000; while((double)m*k*n>cap){ int*x=&m; if(k>*x)x=&k; if(n>*x)x=&n; if(*x<=1) break; *x=(*x*2+2)/3; } }
static u16 rndel0(Ctx&c,int f){ u32 q=1u<<flds[f].e; u32 z=c.g.below(6),x=c.g.below(q); switch(z){ case 0: return 0; case 1: return 1; case 2: return q-1; default: return x; } }
static u16 rndel(Ctx&c,int f){ u16 x=rndel0(c,f); if(c.o->vr&64) x=(x+1+(c.o->vr>>8))%(1u<<flds[f].e); return x; }
static u16 rndnz(Ctx&c,int f){ u16 x=rndel(c,f); return x?x:1; }
static Obj* inplace(Ctx&c,int kind,int maxvol,int maxdim=100000){ // a matrix the operation will modify
  if(hit(c,0.45)){ std::vector<Obj*> cand; for(Obj*x:c.t->pool) if(x->kind==kind&&usable_input(c,x)&&!x->root->shared&&(long)x->nr*x->nc<=maxvol&&x->nr<=maxdim&&x->nc<=maxdim&&(!c.o->cap||(x->nr<=c.o->cap&&x->nc<=c.o->cap))){ bool cl=false; for(Obj*y:c.ins) if(y->root==x->root) cl=true; if(!cl) cand.push_back(x); } if(!cand.empty()){ Obj*o=cand[c.g.below(cand.size())]; if(o->root!=o) c.win=true; c.dests.push_back(o); return o; } }
  int f=pickfld(c); int m=std::min(dim(c),maxdim),n=std::min(dim(c),maxdim),one=1; volcap(m,one,n,maxvol); return dest(c,kind,f,m,n,false); }
static Obj* anyin(Ctx&c,int kind,int maxvol){ Obj*o=anyinput(c,kind,maxvol); if(o) return o; int f=pickfld(c); int m=dim(c),n=dim(c),one=1; volcap(m,one,n,maxvol); return input(c,kind,f,m,n); }
static void*P(Obj*o){ return o?o->p:nullptr; }
static void check_ret(Ctx&c,Obj*d){ if(d&&c.a.ret!=d->p) raise(c,c.fam,"wrong-result","did not return its destination"); }
static void result(Ctx&c,int kind,int f,Obj*C,const Mat&want,const char*what){ if(C){ check_ret(c,C); settle(c,C,want,what);} else adopt(c,kind,f,c.a.ret,want,what); }

// ------------------------------------------------------------------ multiplication
struct MulV{ int call; int mode; int cls; int cut; };  // mode 0 overwrite (NULL ok) 1 accumulate 2 accumulate (NULL ok) 3 needs a zero destination 4 overwrite, not NULL; cls 0 naive 1 table 2 karatsuba/blm 3 strassen/default
static const MulV mulv[]={
  {C_mzed_mul,0,3,0},{C_mzed_mul,0,3,0},{C_mzed_addmul,2,3,0},{C_mzed_mul_naive,0,0,0},{C_mzed_addmul_naive,2,0,0},{C_mzed_mul_newton_john,0,1,0},{C_mzed_addmul_newton_john,2,1,0},
  {C_mzed_mul_karatsuba,0,2,0},{C_mzed_addmul_karatsuba,1,2,0},{C_mzed_mul_blm,0,2,0},{C_mzed_addmul_blm,1,2,0},{C_mzed_mul_strassen,0,3,1},{C_mzed_mul_strassen,0,3,1},{C_mzed_addmul_strassen,2,3,1},
  {C__mzed_mul,3,3,0},{C__mzed_addmul,1,3,0},{C__mzed_mul_naive,1,0,0},{C__mzed_mul_newton_john0,1,1,0},{C__mzed_mul_newton_john,1,1,0},{C__mzed_addmul_karatsuba,2,2,0},{C__mzed_addmul_blm,2,2,0},
  {C__mzed_mul_strassen,4,3,1},{C__mzed_addmul_strassen,1,3,1}};
static const MulV smulv[]={ {C_mzd_slice_mul,0,2,0},{C_mzd_slice_addmul,1,2,0},{C_mzd_slice_mul_karatsuba,0,2,0},{C_mzd_slice_addmul_karatsuba,1,2,0},{C__mzd_slice_addmul_karatsuba,2,2,0},{C__mzd_slice_addmul_naive,2,2,0},
  {C_mzd_slice_mul_blm,0,2,2},{C_mzd_slice_addmul_blm,1,2,2},{C__mzd_slice_mul_blm,3,2,2}};
static void mulshape(Ctx&c,int f,int cls,int&m,int&k,int&n){
  int e=flds[f].e; m=dim(c);k=dim(c);n=dim(c); if(hit(c,0.2)) k=m; if(hit(c,0.2)) n=k; 
  if(cls==1){ // tables of 2^e rows for every column of A
    int kc= e<=8?260: e<=10?60: e<=12?30: e<=14?12:6; if(k>kc) k=1+k%kc; if(e>8){ int nc= e<=10?60:e<=12?24:8; if(n>nc) n=1+n%nc; if(hit(c,0.6)&&m<e) m=e+coin(c,4); }
    volcap(m,k,n,1.5e6);
  } else if(cls==0) volcap(m,k,n,e>8?1.2e5:8e5);
  else if(cls==3) volcap(m,k,n,e>8?4e5:2.5e6);
  else { volcap(m,k,n,4e6); }
}
static void mul_generic(Ctx&c,int kind,const MulV&v,int m,int k,int n,int f,long cut){
  bool sq=hit(c,0.06); if(sq) m=k=n=std::min(m,std::min(k,n)); // a matrix times itself
  Obj*A=input(c,kind,f,m,k); Obj*B=sq?A:input(c,kind,f,k,n); Obj*C; bool isnull=false; Mat zero(m,n);
  C=dest(c,kind,f,m,n,v.mode==0||v.mode==2,v.mode==3?&zero:nullptr,&isnull);
  if(v.mode==3&&kind==SLICE&&!C) {}
  Mat want=C&&(v.mode==1||v.mode==2)?mat_of(C):Mat(m,n); Mat a=mat_of(A),b=mat_of(B); m_addmul(flds[f].fm,want,a,b);
  if(v.cut==2){ void*blm=nullptr; if(hit(c,0.6)){ int e=flds[f].e; void*p; bool own=hit(c,0.5); std::vector<int> ip(40,0); if(own){ scall(c,C_crt_init,{}, {e,e},&p); } else { ip[e]=1; p=ip.data(); }
      int djb=hit(c,0.6); scall(c,C_blm_init_crt,{flds[f].ff,p},{e,e,djb},&blm); if(own) scall(c,C_mm_free,{p},{}); if(!djb&&hit(c,0.4)){ int b=find_block((uintptr_t)blm); block_lock(b,false); scall(c,C_blm_djb_compile,{blm},{}); block_lock(b,true); } }
    u64 h=blm?acc_blm_hash(blm):0; if(maincall(c,v.call,{P(C),P(A),P(B),blm},{})!=OK) return; if(blm){ if(acc_blm_hash(blm)!=h) raise(c,M_OPND|F_POLY,"input-modified","the bilinear map changed"); result(c,kind,f,C,want,"product"); scall(c,C_blm_free,{blm},{}); return; } }
  else if(maincall(c,v.call,{P(C),P(A),P(B)},{cut})!=OK) return;
  result(c,kind,f,C,want,"product");
}
static long cutpick(Ctx&c){ static const int t[]={64,64,64,65,80,100,128,200,512,4096}; return t[c.g.below(10)]; }
static void h_mul(Ctx&c){ const MulV&v=mulv[c.g.below(sizeof mulv/sizeof*mulv)]; int f=pickfld(c),m,k,n; mulshape(c,f,v.cls,m,k,n);
  long cut=cutpick(c); if(v.cut&&hit(c,0.15)&&(v.call==C_mzed_mul_strassen||v.call==C_mzed_addmul_strassen)) cut=0;
  if(v.cut&&run.size>=3&&!c.o->cap&&hit(c,0.5)){ m=c.g.range(86,175);k=c.g.range(86,175);n=c.g.range(86,175); if(flds[f].e>8){ m=c.g.range(86,100);k=c.g.range(86,100);n=c.g.range(86,100);} cut=64; }
  mul_generic(c,MZED,v,m,k,n,f,cut); }
static void h_smul(Ctx&c){ const MulV&v=smulv[c.g.below(sizeof smulv/sizeof*smulv)]; int f=pickfld(c),m,k,n; mulshape(c,f,v.cls,m,k,n); mul_generic(c,SLICE,v,m,k,n,f,0); }
static void h_bigmul(Ctx&c){ int f=pickfld(c); int m=c.g.range(505,530),k=c.g.range(510,530),n=c.g.range(510,530); if(hit(c,0.3)) m=512; if(hit(c,0.3)) k=512; if(hit(c,0.3)) n=512; if(flds[f].e>8){ m=512+coin(c,8);k=512+coin(c,8);n=512+coin(c,8);} if(c.o->cap){ m%=c.o->cap;k%=c.o->cap;n%=c.o->cap; m++;k++;n++; }
  static const MulV bv[]={{C_mzed_mul,0,3,0},{C_mzed_addmul,2,3,0},{C__mzed_mul,3,3,0},{C__mzed_addmul,1,3,0}}; mul_generic(c,MZED,bv[c.g.below(4)],m,k,n,f,0); }
static void h_scalar(Ctx&c){
  int f=pickfld(c); u16 a=rndel(c,f); int which=coin(c,5); FM*fm=flds[f].fm; int m=dim(c),n=dim(c); 
  if(which!=2&&which!=4&&run.size>=1&&flds[f].e<=8&&hit(c,0.25)&&!c.o->cap){ static const int ms[]={1,2,64,300,512}; m=ms[coin(c,5)]; n=131072/m+coin(c,40); } 
  auto sc=[&](const Mat&x){ Mat y(x.r,x.c); for(size_t i=0;i<x.a.size();i++) y.a[i]=fm->mul(a,x.a[i]); return y; };
  if(which<=1||which==3){ Obj*B; Obj*C; bool isn; 
    if(which==1){ B=C=dest(c,MZED,f,m,n,false); Mat w=sc(mat_of(C)); if(maincall(c,C_mzed_mul_scalar,{P(C),P(B)},{a})!=OK) return; result(c,MZED,f,C,w,"in-place scalar product"); return; }
    B=input(c,MZED,f,m,n); C=dest(c,MZED,f,m,n,true,nullptr,&isn); Mat w=sc(mat_of(B)); if(maincall(c,C_mzed_mul_scalar,{P(C),P(B)},{a})!=OK) return; result(c,MZED,f,C,w,"scalar product"); }
  else { bool acc=which==4; Obj*B=input(c,SLICE,f,m,n); Obj*C=dest(c,SLICE,f,m,n,!acc); Mat w=sc(mat_of(B)); if(acc){ Mat o=mat_of(C); for(size_t i=0;i<w.a.size();i++) w.a[i]^=o.a[i]; }
    if(maincall(c,acc?C_mzd_slice_addmul_scalar:C_mzd_slice_mul_scalar,{P(C),P(B)},{a})!=OK) return; result(c,SLICE,f,C,w,"scalar product"); }
}

// ------------------------------------------------------------------ elimination
static int njcap(int e){ return e<=8?140:e<=10?60:e<=12?36:e<=14?18:10; }
static bool is_echelon(const Mat&m,int rank){ int last=-1; for(int i=0;i<m.r;i++){ int p=-1; for(int j=0;j<m.c;j++) if(m.at(i,j)){p=j;break;} if(i<rank){ if(p<=last) return false; last=p; } else if(p>=0) return false; } return true; }
static void ech_check(Ctx&c,Obj*A,const Mat&old,bool full,long rank){
  Mat red=old; int r=m_rref(flds[A->fld].fm,red); if(rank!=r) raise(c,c.fam,"wrong-rank","returned rank %ld of a %dx%d matrix of rank %d over 0x%x",rank,old.r,old.c,r,flds[A->fld].poly);
  if(full){ settle(c,A,red,"reduced echelon form"); return; }
  Mat got=peek(c,A); if(!is_echelon(got,r)) raise(c,c.fam,"not-echelon","result of a %dx%d matrix of rank %d over 0x%x is not in row echelon form",old.r,old.c,r,flds[A->fld].poly);
  Mat g2=got; m_rref(flds[A->fld].fm,g2); if(!(g2==red)) raise(c,c.fam,"wrong-result","row space of a %dx%d matrix over 0x%x changed",old.r,old.c,flds[A->fld].poly); settle(c,A,got,"echelon form"); }
static void h_ech(Ctx&c){ static const int v[]={C_mzed_echelonize_naive,C_mzed_echelonize_newton_john,C_mzed_echelonize_ple,C_mzed_echelonize}; int k=coin(c,4); int f=pickfld(c),e=flds[f].e; int m=dim(c),n=dim(c),one=1; 
  if(run.size>=2&&hit(c,0.3)){ n=c.g.range(65,150); m=c.g.range(e,90); }
  int cap=k==0?(e>8?40:120):njcap(e); if(k==2||k==3) cap= e<=8?200:njcap(e)*2; if(m>cap) m=1+m%cap; if(n>cap&&k!=2&&k!=3) n=1+n%cap; if(n>260) n=260; if(e>10&&n>cap) n=1+n%cap; if(e>8&&hit(c,0.4)&&m<e) m=e+coin(c,3); if(c.o->cap){ if(m>c.o->cap) m=c.o->cap; if(n>c.o->cap) n=c.o->cap; }
  volcap(m,one,n,30000); bool full=coin(c,2); Obj*A=dest(c,MZED,f,m,n,false); Mat old=mat_of(A); 
  if(maincall(c,v[k],{P(A)},{full})!=OK) return; ech_check(c,A,old,full,c.a.iret); }
static void h_sech(Ctx&c){ int f=pickfld(c),e=flds[f].e; int m=dim(c),n=dim(c),one=1; if(run.size>=2&&hit(c,0.3)) n=c.g.range(65,200); int cap=e<=8?200:njcap(e)*2; if(m>cap) m=1+m%cap; if(e>10&&n>cap&&hit(c,0.7)) n=1+n%cap; if(c.o->cap){ if(m>c.o->cap) m=c.o->cap; if(n>c.o->cap) n=c.o->cap; } volcap(m,one,n,30000); bool full=coin(c,2); Obj*A=dest(c,SLICE,f,m,n,false); Mat old=mat_of(A);
  if(maincall(c,coin(c,2)?C_mzd_slice_echelonize_ple:C_mzd_slice_echelonize,{P(A)},{full})!=OK) return; ech_check(c,A,old,full,c.a.iret); }
static Mat invertible(Ctx&c,int f,int n){ FM*fm=flds[f].fm; Mat L(n,n),U(n,n); for(int i=0;i<n;i++){ L.at(i,i)=1; U.at(i,i)=rndnz(c,f); for(int j=0;j<i;j++){ L.at(i,j)=rndel(c,f); U.at(j,i)=rndel(c,f); } } Mat m=m_mul(fm,L,U); int s=coin(c,3); if(s) for(int t=0;t<n;t++){ int a=c.g.below(n),b=c.g.below(n); if(a!=b) for(int j=0;j<n;j++) std::swap(m.at(a,j),m.at(b,j)); } return m; }
static void h_inv(Ctx&c){ int f=pickfld(c),e=flds[f].e; int n=dim(c); int cap=std::min(njcap(e),90); if(n>cap) n=1+n%cap; Mat m=invertible(c,f,n); Obj*A=input(c,MZED,f,n,n,&m); Obj*B=dest(c,MZED,f,n,n,true);
  Mat aug(n,2*n); putmat(aug,0,0,m); for(int i=0;i<n;i++) aug.at(i,n+i)=1; m_rref(flds[f].fm,aug); Mat want=submat(aug,0,n,n,n);
  if(maincall(c,C_mzed_invert_newton_john,{P(B),P(A)},{})!=OK) return; result(c,MZED,f,B,want,"inverse"); }

// ------------------------------------------------------------------ PLE / PLUQ
static void ple_check(Ctx&c,Obj*A,Obj*Pp,Obj*Qp,const Mat&old,long rank,bool pluq){
  FM*fm=flds[A->fld].fm; int nr=old.r,nc=old.c; Mat red=old; std::vector<int> piv; int r=m_rref(fm,red,&piv); u32 poly=flds[A->fld].poly;
  if(rank!=r) raise(c,c.fam,"wrong-rank","returned rank %ld of a %dx%d matrix of rank %d over 0x%x",rank,nr,nc,r,poly);
  Mat got=peek(c,A); std::vector<int> p,q; finish_perm(c,Pp,p); finish_perm(c,Qp,q);
  if((int)p.size()!=nr||(int)q.size()!=nc) raise(c,c.fam,"corrupt-header","permutation lengths changed");
  for(int i=0;i<nr;i++) if(p[i]<i||p[i]>=nr) raise(c,c.fam,"bad-permutation","P[%d]=%d for %d rows",i,p[i],nr);
  for(int i=0;i<nc;i++) if(q[i]<i||q[i]>=nc) raise(c,c.fam,"bad-permutation","Q[%d]=%d for %d columns",i,q[i],nc);
  Mat PA=old; for(int i=0;i<nr;i++) if(p[i]!=i) for(int j=0;j<nc;j++) std::swap(PA.at(i,j),PA.at(p[i],j));
  if(!pluq) for(int i=1;i<r;i++) if(q[i]<=q[i-1]) raise(c,c.fam,"bad-permutation","pivot columns not increasing: Q[%d]=%d Q[%d]=%d",i-1,q[i-1],i,q[i]);
  Mat L(nr,r),E(r,nc); 
  for(int i=0;i<nr;i++) for(int j=0;j<r&&j<=i;j++) L.at(i,j)=got.at(i,j);
  for(int i=0;i<r;i++) if(!got.at(i,i)) raise(c,c.fam,"wrong-result","zero pivot %d on the diagonal of L",i);
  if(!pluq){ for(int i=0;i<r;i++){ E.at(i,q[i])=1; for(int j=q[i]+1;j<nc;j++) E.at(i,j)=got.at(i,j); } }
  else { for(int i=0;i<r;i++){ E.at(i,i)=1; for(int j=i+1;j<nc;j++) E.at(i,j)=got.at(i,j); } for(int i=nc-1;i>=0;i--) if(q[i]!=i) for(int x=0;x<r;x++) std::swap(E.at(x,i),E.at(x,q[i])); }
  Mat LE=m_mul(fm,L,E); if(!(LE==PA)){ int i=0; while(LE.a[i]==PA.a[i]) i++; raise(c,c.fam,"wrong-result","factors of a %dx%d matrix of rank %d over 0x%x do not reconstruct it: entry (%d,%d)",nr,nc,r,poly,i/nc,i%nc); }
  settle(c,A,got,"factors"); }
static void ple_shape(Ctx&c,int f,int cap,int&m,int&n){ m=dim(c);n=dim(c); int one=1; if(run.size>=2&&hit(c,0.35)){ n=c.g.range(65,200); m=c.g.range(2,100); } if(m>cap) m=1+m%cap; if(n>cap&&cap<60&&hit(c,0.6)) n=1+n%cap; if(c.o->cap){ if(m>c.o->cap) m=c.o->cap; if(n>c.o->cap) n=c.o->cap; } volcap(m,one,n,25000); }
static long plecut(Ctx&c){ static const int t[]={0,1,64,500,5000,100000}; return t[coin(c,6)]; }
static void h_ple(Ctx&c){ static const int v[]={C_mzed_ple_naive,C_mzed_ple_newton_john,C_mzed_ple,C__mzed_ple,C__mzed_ple}; int k=coin(c,5); int f=pickfld(c),e=flds[f].e,m,n; ple_shape(c,f,k==0?(e>8?40:100):e<=8?160:njcap(e)*3/2,m,n);
  Obj*A=dest(c,MZED,f,m,n,false); Obj*Pp=newperm(c,m,coin(c,3)),*Q=newperm(c,n,coin(c,3)); c.dests.push_back(Pp); c.dests.push_back(Q); Mat old=mat_of(A); 
  int o=maincall(c,v[k],{P(A),P(Pp),P(Q)},{plecut(c)}); if(o==OK) ple_check(c,A,Pp,Q,old,c.a.iret,false); undest1(Pp); undest1(Q); c.dests.resize(1); freeobj(c,Pp); freeobj(c,Q); }
static void h_sple(Ctx&c){ int k=coin(c,4); static const int v[]={C_mzd_slice_ple,C_mzd_slice_pluq,C__mzd_slice_ple,C__mzd_slice_pluq}; int f=pickfld(c),e=flds[f].e,m,n; ple_shape(c,f,e<=8?160:njcap(e)*3/2,m,n);
  Obj*A=dest(c,SLICE,f,m,n,false); Obj*Pp=newperm(c,m,coin(c,3)),*Q=newperm(c,n,coin(c,3)); c.dests.push_back(Pp); c.dests.push_back(Q); Mat old=mat_of(A);
  int o=maincall(c,v[k],{P(A),P(Pp),P(Q)},{plecut(c)}); if(o==OK) ple_check(c,A,Pp,Q,old,c.a.iret,k&1); undest1(Pp); undest1(Q); c.dests.resize(1); freeobj(c,Pp); freeobj(c,Q); }

// ------------------------------------------------------------------ triangular solving
struct TrV{ int call; bool up; int cls; };
static const TrV trv[2][8]={ {{C_mzed_trsm_lower_left_naive,0,0},{C_mzed_trsm_lower_left_newton_john,0,1},{C_mzed_trsm_lower_left,0,2},{C__mzed_trsm_lower_left,0,3},{C_mzed_trsm_upper_left_naive,1,0},{C_mzed_trsm_upper_left_newton_john,1,1},{C_mzed_trsm_upper_left,1,2},{C__mzed_trsm_upper_left,1,3}},
 {{C_mzd_slice_trsm_lower_left_naive,0,0},{C_mzd_slice_trsm_lower_left_newton_john,0,1},{C_mzd_slice_trsm_lower_left,0,2},{C__mzd_slice_trsm_lower_left,0,3},{C_mzd_slice_trsm_upper_left_naive,1,0},{C_mzd_slice_trsm_upper_left_newton_john,1,1},{C_mzd_slice_trsm_upper_left,1,2},{C__mzd_slice_trsm_upper_left,1,3}}};
static void trsm_generic(Ctx&c,int kind){ const TrV&v=trv[kind==SLICE][coin(c,8)]; int f=pickfld(c),e=flds[f].e; FM*fm=flds[f].fm; int n=dim(c),m=dim(c); int cap= v.cls==0?(e>8?50:140): e<=8?200:njcap(e)*2; 
  if(v.cls>=2&&run.size>=2&&hit(c,0.4)) n=c.g.range(60,160); if(n>cap) n=1+n%cap; if(e>8&&m>60) m=1+m%60; int one=1; if(c.o->cap){ if(n>c.o->cap) n=c.o->cap; if(m>c.o->cap) m=c.o->cap; } { int a=n,b=n; volcap(a,b,m,1.5e6); n=std::min(a,b); } (void)one;
  static const int cuts[]={64,65,80,100,128,512,1,2,10,32,63,2048}; long cut=cuts[coin(c,12)];
  Mat T=rndmat(c,f,n,n,coin(c,4)?11:1); if(hit(c,0.2)) for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(v.up?j<i:j>i) T.at(i,j)=0; for(int i=0;i<n;i++) T.at(i,i)=hit(c,0.4)?1:rndnz(c,f);
  Obj*L=input(c,kind,f,n,n,&T); Obj*B=dest(c,kind,f,n,m,false); Mat X=mat_of(B);
  auto row=[&](int i,int lo,int hi){ for(int j=lo;j<hi;j++){ u16 t=T.at(i,j); if(t) for(int x=0;x<m;x++) X.at(i,x)^=fm->mul(t,X.at(j,x)); } u16 iv=fm->inv(T.at(i,i)); for(int x=0;x<m;x++) X.at(i,x)=fm->mul(iv,X.at(i,x)); };
  if(v.up) for(int i=n-1;i>=0;i--) row(i,i+1,n); else for(int i=0;i<n;i++) row(i,0,i);
  if(maincall(c,v.call,{P(L),P(B)},{cut})!=OK) return; settle(c,B,X,"solution"); }
static void h_trsm(Ctx&c){ trsm_generic(c,MZED); } static void h_strsm(Ctx&c){ trsm_generic(c,SLICE); }

// ------------------------------------------------------------------ conversion
static void h_conv(Ctx&c){ int k=coin(c,3); int f=pickfld(c),m=dim(c),n=dim(c); if(hit(c,0.08)&&!c.o->cap&&run.size>=1) n=c.g.range(200,700); else if(hit(c,0.01)&&!c.o->cap&&run.size>=1){ vast=true; m=c.g.range(1,3); n=hit(c,0.4)?c.g.range(65530,66500):c.g.range(1300,66500); if(hit(c,0.5)) std::swap(m,n); } int one=1; volcap(m,one,n,30000);
  if(k<=1){ int ik=k==0?MZED:SLICE,ok=k==0?SLICE:MZED; Obj*A=input(c,ik,f,m,n); Obj*B=dest(c,ok,f,m,n,true); Mat w=mat_of(A); if(maincall(c,k==0?C_mzed_slice:C_mzed_cling,{P(B),P(A)},{})!=OK) return; result(c,ok,f,B,w,"converted matrix"); return; }
  bool first=coin(c,2); Obj*A=input(c,first?MZED:SLICE,f,m,n); Mat w=mat_of(A); if(maincall(c,first?C_mzed_slice:C_mzed_cling,{nullptr,P(A)},{})!=OK) return; Obj*B=adopt(c,first?SLICE:MZED,f,c.a.ret,w,"converted matrix");
  Obj*D=dest(c,first?MZED:SLICE,f,m,n,false); Mat z=mat_of(D); if(maincall(c,first?C_mzed_cling:C_mzed_slice,{P(D),P(B)},{})!=OK) return; result(c,first?MZED:SLICE,f,D,w,"converted back"); }

// ------------------------------------------------------------------ polynomials over GF(2)
static void settle_poly(Ctx&c,Obj*o,const std::vector<Mat>&want,const char*what){ MV v; view(o,&v); R->checks++; if(v.depth!=(int)want.size()) raise(c,c.fam,"wrong-shape","%s has %d coefficients, should have %zu",what,v.depth,want.size());
  for(int k=0;k<v.nx;k++){ const XV&x=v.x[k]; if(x.nrows!=o->nr||x.ncols!=o->nc) raise(c,c.fam,"wrong-shape","%s: coefficient %d is %dx%d, should be %dx%d",what,k,x.nrows,x.ncols,o->nr,o->nc); for(int i=0;i<o->nr;i++) for(int j=0;j<o->nc;j++) if((x.rows[i][j>>6]>>(j&63)&1)!=want[k].at(i,j)) raise(c,c.fam,"wrong-result","%s: coefficient %d entry (%d,%d) of %dx%d is wrong (%zu coefficients)",what,k,i,j,o->nr,o->nc,want.size()); if(!padding_ok(x)) raise(c,c.fam,"dirty-padding","%s: bits beyond the last column of coefficient %d set",what,k); }
  o->pc=want; o->depth=want.size(); o->raw=rawhash(o); undest1(o); c.dig=hcomb(c.dig,o->raw); }
static Obj* adopt_poly(Ctx&c,void*p,int nr,int nc,std::vector<Mat> want,const char*what){ if(!p) raise(c,c.fam,"null-result","%s: returned nothing",what); Obj*o=new Obj; o->kind=POLY; o->nr=nr;o->nc=nc;o->root=o;o->p=p; MV v; view(o,&v); if(v.nrows!=nr||v.ncols!=nc||v.depth<(int)want.size()||v.depth>140) raise(c,c.fam,"wrong-shape","%s: result is %dx%d with %d coefficients",what,v.nrows,v.ncols,v.depth); while((int)want.size()<v.depth) want.push_back(Mat(nr,nc)); track(c,o); settle_poly(c,o,want,what); return o; }
static Obj* polyin(Ctx&c,int depth,int nr,int nc){ Obj*o=nullptr; if(hit(c,0.3)){ for(Obj*x:c.t->pool) if(x->kind==POLY&&x->nr==nr&&x->nc==nc&&x->depth==depth&&!x->busy){ o=x; break; } } if(!o) o=newpoly(c,depth,nr,nc,true); c.ins.push_back(o); return o; }
static std::vector<int> two(Mat&){ return {}; }
static void gf2_addmul(Mat&C,const Mat&A,const Mat&B){ for(int i=0;i<A.r;i++) for(int k=0;k<A.c;k++) if(A.at(i,k)) for(int j=0;j<B.c;j++) C.at(i,j)^=B.at(k,j); }
static void h_poly(Ctx&c){ (void)two; int which=coin(c,7); int da=c.g.range(1,16),db=c.g.range(1,16); if(which==1||which==2||hit(c,0.25)) db=da; if(hit(c,0.2)){ da=c.g.range(1,4); db=c.g.range(1,4); if(which==1||which==2) db=da; }
  bool lng=false; if((which==0||which==3||which>=5)&&run.size>=1&&!c.o->cap&&hit(c,0.04)){ lng=true; da=c.g.range(17,70); db=c.g.range(1,70); if(hit(c,0.3)) db=da; if(hit(c,0.3)) std::swap(da,db); if((double)da*db>2600) db=1+2600/da; } // longer than a word
  int m=dim(c),k=dim(c),n=dim(c); vast=false; volcap(m,k,n,60000); if(lng||hit(c,0.6)){ if(m>12)m=1+m%12; if(n>70) n=1+n%70; if(k>20) k=1+k%20; } if(lng) volcap(m,k,n,60);
  int call=C__mzd_poly_addmul_naive; if(which==1||which==2) call=C__mzd_poly_addmul_karatsubs_balanced; if(which==3) call=C__mzd_poly_addmul_crt; if(which==4) call=C__mzd_poly_addmul_ext1; if(which>=5) call=C__mzd_poly_addmul_blm;
  if(which==4){ if(run.size>=1&&!c.o->cap&&hit(c,0.06)){ static const int ds[]={31,32,33,33,34,40,63,64,65,65}; int d=ds[coin(c,10)]; da=c.g.range(1,d); db=d+1-da; volcap(m,k,n,30); } else { while(da+db-1>24){ da=1+da/2; db=1+db/2; } volcap(m,k,n,4000); } }
  Obj*A=polyin(c,da,m,k),*B=polyin(c,db,k,n); Obj*C=nullptr; bool nul= which!=4&&hit(c,0.3); int dc=da+db-1+(hit(c,0.3)?1+coin(c,3):0);
  if(!nul){ for(Obj*x:c.t->pool) if(x->kind==POLY&&x->nr==m&&x->nc==n&&x->depth>=da+db-1&&!x->busy&&x!=A&&x!=B&&hit(c,0.5)){ C=x; break; } if(!C) C=newpoly(c,dc,m,n,true); c.dests.push_back(C); }
  std::vector<Mat> want(da+db-1,Mat(m,n)); if(C) want=C->pc; for(int i=0;i<da;i++) for(int j=0;j<db;j++) gf2_addmul(want[i+j],A->pc[i],B->pc[j]);
  if(which<5){ if(maincall(c,call,{P(C),P(A),P(B)},{})!=OK) return; if(C){ if(c.a.ret!=C->p) raise(c,c.fam,"wrong-result","did not return its destination"); settle_poly(c,C,want,"product"); } else adopt_poly(c,c.a.ret,m,n,want,"product"); return; }
  // bilinear map built here; any of the steps may be the one under fault
  int step=coin(c,5),djb=hit(c,0.55); void*p,*f; auto call2=[&](int s,int cl,std::initializer_list<void*> pp,std::initializer_list<long> ii,void**ret)->bool{ if(s==step){ if(maincall(c,cl,pp,ii)!=OK) return false; if(ret)*ret=c.a.ret; return true; } if(C&&cl==call) sim_unlock(C,true); scall(c,cl,pp,ii,ret); if(C&&cl==call) sim_unlock(C,false); return true; };
  if(!call2(0,C_crt_init,{}, {da,db},&p)) return; 
  { int*ip=(int*)p; int tot=ip[0]; for(int i=1;i<=16;i++){ if(ip[i]<0) raise(c,c.fam,"wrong-result","negative count in the moduli"); tot+=i*ip[i]; } if(tot<da+db-1) raise(c,c.fam,"wrong-result","moduli of total degree %d cannot determine a product of %d coefficients",tot,da+db-1); }
  bool dflt=da==db&&da<=16&&hit(c,0.3); int pp[40]={0}; if(dflt) pp[da]=1;
  else if(hit(c,0.4)){ // moduli of the caller's choice: any co-prime ones of sufficient total degree
    static const int irr[17]={0,2,1,2,3,6,9,18,30,56,99,186,335,630,1161,2182,4080}; int need=da+db-1, top=coin(c,4)?4:9; pp[0]=coin(c,3)?coin(c,4):coin(c,9); if(pp[0]>need) pp[0]=need; int tot=pp[0]; 
    auto room=[&](int d){ auto left=[&](int x){ return std::max(0,irr[x]-pp[x]); }; int m=irr[d]; if(d%2==0&&pp[d/2]<irr[d/2]) m+=left(d/2); if(d==4) m=std::min(m+left(1),irr[4]+left(2)); return m; };
    std::vector<int> want2(10,0); int rest=need-tot; for(int t=0;t<60&&rest>0;t++){ int d=1+coin(c,top); if(coin(c,3)==0) d=1+coin(c,3); want2[d]++; rest-=d; } 
    for(int d=1;d<10;d++){ pp[d]=std::min(want2[d],room(d)); tot+=d*pp[d]; } for(int d=5;d<10&&tot<need;d++) while(d%2&&pp[d]<irr[d]&&tot<need){ pp[d]++; tot+=d; }
    if(tot>=need&&tot<=need+10) dflt=true; }
  if(!call2(1,C_blm_init_crt,{nullptr,dflt?(void*)pp:p},{da,db,djb},&f)) return;
  bool late=!djb&&hit(c,0.4); if(!call2(2,C_mm_free,{p},{},nullptr)) return; 
  if(late){ int b=find_block((uintptr_t)f); block_lock(b,false); scall(c,C_blm_djb_compile,{f},{}); block_lock(b,true); }
  u64 h=acc_blm_hash(f); void*ret=nullptr;
  if(!call2(3,call,{P(C),P(A),P(B),f},{},&ret)) return; 
  if(acc_blm_hash(f)!=h) raise(c,M_OPND|c.fam,"input-modified","the bilinear map changed");
  if(C) settle_poly(c,C,want,"product"); else adopt_poly(c,ret,m,n,want,"product");
  if(!call2(4,C_blm_free,{f},{},nullptr)) return;
}
static void h_polymisc(Ctx&c){ int which=coin(c,3); int d=c.g.range(1,16),m=dim(c),n=dim(c),one=1; volcap(m,one,n,3000); Obj*A=polyin(c,d,m,n);
  if(which==0){ Obj*B=polyin(c,d,m,n); Obj*C=newpoly(c,d+coin(c,3),m,n,false); c.dests.push_back(C); std::vector<Mat> w=C->pc; for(int k=0;k<d;k++) for(size_t i=0;i<w[k].a.size();i++) w[k].a[i]=A->pc[k].a[i]^B->pc[k].a[i]; if(maincall(c,C_mzd_poly_add,{P(C),P(A),P(B)},{})!=OK) return; settle_poly(c,C,w,"sum"); }
  else if(which==1){ Obj*B=hit(c,0.5)?A:polyin(c,hit(c,0.8)?d:c.g.range(1,16),m,n); bool eq=A->pc.size()==B->pc.size(); if(eq) for(size_t k=0;k<A->pc.size();k++) eq=eq&&A->pc[k]==B->pc[k]; if(maincall(c,C_mzd_poly_cmp,{P(A),P(B)},{})!=OK) return; if(((int)c.a.iret==0)!=eq) raise(c,c.fam,"wrong-result","comparison of %s polynomials returned %ld",eq?"equal":"different",c.a.iret); }
  else { c.ins.clear(); Obj*C=A; c.dests.push_back(C); int nd=c.g.range(1,18); std::vector<Mat> w=C->pc; w.resize(nd,Mat(m,n)); c.nointr=true; if(maincall(c,C_mzd_poly_adapt_depth,{P(C)},{nd})==INTR) return; settle_poly(c,C,w,"polynomial of adapted depth"); }
}

// ------------------------------------------------------------------ elementary operations
#define KC(a,b) (kind==MZED?a:b)
static void h_elem_k(Ctx&c,int kind){
  int vol=6000; Obj*A; int w=coin(c,kind==MZED?13:12);
  switch(w){
  case 0: { int f=pickfld(c),m=dim(c),n=dim(c); int al=coin(c,4); Obj*X,*Y,*C; bool under=false;
      if(al==0){ C=X=dest(c,kind,f,m,n,false); Y=hit(c,0.2)?X:input(c,kind,f,m,n); } else if(al==1){ C=Y=dest(c,kind,f,m,n,false); X=input(c,kind,f,m,n); }
      else { X=input(c,kind,f,m,n); Y=input(c,kind,f,m,n); under=al==3; C=dest(c,kind,f,m,n,!under); }
      if(al<2){ Obj*I=al==0?Y:X; if(I!=C&&I->root==C->root){ // overlapping views of one parent: use a separate copy
          c.ins.pop_back(); Mat t=mat_of(I); I=newroot(c,kind,f,m,n,&t); c.ins.push_back(I); if(al==0) Y=I; else X=I; } }
      Mat a=mat_of(X),b=mat_of(Y); for(size_t i=0;i<a.a.size();i++) a.a[i]^=b.a[i]; int cl= under?KC(C__mzed_add,C__mzd_slice_add):KC(C_mzed_add,C_mzd_slice_add);
      if(maincall(c,cl,{P(C),P(X),P(Y)},{})!=OK) return; result(c,kind,f,C,a,"sum"); return; }
  case 1: { A=anyin(c,kind,vol*4); Obj*B=dest(c,kind,A->fld,A->nr,A->nc,true); Mat m=mat_of(A); if(maincall(c,KC(C_mzed_copy,C_mzd_slice_copy),{P(B),P(A)},{})!=OK) return; result(c,kind,A->fld,B,m,"copy"); return; }
  case 2: { A=inplace(c,kind,vol); u16 v=rndel(c,A->fld); Mat m(A->nr,A->nc); for(int i=0;i<m.r&&i<m.c;i++) m.at(i,i)=v; if(maincall(c,KC(C_mzed_set_ui,C_mzd_slice_set_ui),{P(A)},{v})!=OK) return; settle(c,A,m,"scalar matrix"); return; }
  case 3: { A=inplace(c,kind,vol); Mat m=mat_of(A); int n=1+coin(c,6); for(int t=0;t<n;t++){ int i=coin(c,m.r),j=coin(c,m.c); if(hit(c,0.3)) j=m.c-1; u16 v=rndel(c,A->fld); bool add=coin(c,2); 
        if(maincall(c,add?KC(C_mzed_add_elem,C_mzd_slice_add_elem):KC(C_mzed_write_elem,C_mzd_slice_write_elem),{P(A)},{i,j,v})!=OK) return; if(add) m.at(i,j)^=v; else m.at(i,j)=v; 
        long g=scall(c,KC(C_mzed_read_elem,C_mzd_slice_read_elem),{P(A)},{i,j}); if(g!=m.at(i,j)) raise(c,c.fam,"wrong-result","entry (%d,%d) reads 0x%lx after writing, should be 0x%x",i,j,g,m.at(i,j)); if(hit(c,0.5)&&m.c>1){ int j2=(j+1)%m.c; g=scall(c,KC(C_mzed_read_elem,C_mzd_slice_read_elem),{P(A)},{i,j2}); if(g!=m.at(i,j2)) raise(c,c.fam,"wrong-result","entry (%d,%d) reads 0x%lx, should be 0x%x",i,j2,g,m.at(i,j2)); }
        settle(c,A,m,"matrix after entry access"); } return; }
  case 4: { A=anyin(c,kind,vol); Mat m=mat_of(A); if(hit(c,0.4)){ if(hit(c,0.5)){ Mat o(m.r,m.c); if(!hit(c,0.15)) o.at(hit(c,0.4)?m.r-1:coin(c,m.r),hit(c,0.4)?m.c-1:coin(c,m.c))=1u<<coin(c,flds[A->fld].e); m=o; A=newroot(c,kind,A->fld,m.r,m.c,&m); c.ins.push_back(A); } bool z=true; for(auto x:m.a) z=z&&!x; if(maincall(c,KC(C_mzed_is_zero,C_mzd_slice_is_zero),{P(A)},{})!=OK) return; if(((int)c.a.iret!=0)!=z) raise(c,c.fam,"wrong-result","zero test of a %s matrix returned %d",z?"zero":"non-zero",(int)c.a.iret); return; }
      Mat b=m; int s=coin(c,8), fa=A->fld, fe=flds[fa].e; if(s){ int i=coin(c,m.r),j=hit(c,0.5)?m.c-1:coin(c,m.c); auto flip=[&](u16 d){ b.at(i,j)^=d; }; if(s<=2) flip((s==1)?1u<<(fe-1):1u<<coin(c,fe)); else if(s==3) flip(rndel(c,fa)); else if(s==4) flip((1u<<fe)-1); else if(s==5){ u16 d=rndel(c,fa); int n=2+coin(c,3); for(int t=0;t<n;t++){ i=coin(c,m.r); j=coin(c,m.c); flip(d); } } else if(s==6){ b=rndmat(c,fa,m.r,m.c,-1); } else { u16 d=1u<<coin(c,fe); d|=1u<<coin(c,fe); flip(d); } } Obj*B=b==m&&hit(c,0.2)?A:newroot(c,kind,A->fld,m.r,m.c,&b); if(B!=A) c.ins.push_back(B); bool eq=b==m; if(coin(c,2)) std::swap(A,B);
      if(maincall(c,KC(C_mzed_cmp,C_mzd_slice_cmp),{P(A),P(B)},{})!=OK) return; if(((int)c.a.iret==0)!=eq) raise(c,c.fam,"wrong-result","comparison of %s %dx%d matrices returned %d",eq?"equal":"different",m.r,m.c,(int)c.a.iret); return; }
  case 5: { A=inplace(c,kind,vol); Mat m=mat_of(A); int i=coin(c,m.r),j=coin(c,m.r); for(int x=0;x<m.c;x++) std::swap(m.at(i,x),m.at(j,x)); if(i==j){} if(maincall(c,KC(C_mzed_row_swap,C_mzd_slice_row_swap),{P(A)},{i,j})!=OK) return; settle(c,A,m,"rows swapped"); return; }
  case 6: { A=inplace(c,kind,vol); Mat m=mat_of(A); int i=coin(c,m.c),j=coin(c,m.c); for(int x=0;x<m.r;x++) std::swap(m.at(x,i),m.at(x,j)); if(maincall(c,KC(C_mzed_col_swap,C_mzd_slice_col_swap),{P(A)},{i,j})!=OK) return; settle(c,A,m,"columns swapped"); return; }
  case 7: { A=inplace(c,kind,vol); Mat m=mat_of(A); int i=coin(c,m.c),j=coin(c,m.c),a=coin(c,m.r),b=c.g.range(a,m.r); for(int x=a;x<b;x++) std::swap(m.at(x,i),m.at(x,j)); if(maincall(c,KC(C_mzed_col_swap_in_rows,C_mzd_slice_col_swap_in_rows),{P(A)},{i,j,a,b})!=OK) return; settle(c,A,m,"columns swapped in some rows"); return; }
  case 8: { A=inplace(c,kind,vol); Mat m=mat_of(A); int f=A->fld; int r=coin(c,m.r),st=coin(c,m.c); u16 x=rndel(c,f); for(int j=st;j<m.c;j++) m.at(r,j)=flds[f].fm->mul(x,m.at(r,j)); if(kind==MZED){ if(maincall(c,C_mzed_rescale_row,{P(A)},{r,st,x})!=OK) return; } else if(maincall(c,C_mzd_slice_rescale_row,{P(A)},{r,st,x})!=OK) return; settle(c,A,m,"row rescaled"); return; }
  case 9: { A=inplace(c,kind,vol); Mat m=mat_of(A); int nc=hit(c,0.7)?m.c:1+coin(c,m.c); int br=hit(c,0.5)?m.r:dim(c); Obj*B; bool same=hit(c,0.3)&&nc==m.c; if(same) B=A; else { Mat z=rndmat(c,A->fld,br,nc); B=hit(c,0.6)?newroot(c,kind,A->fld,br,nc,&z):bigger_and_cut(c,kind,A->fld,br,nc,&z); c.ins.push_back(B); } Mat b=mat_of(B); int i=coin(c,m.r),j=coin(c,b.r); for(int x=0;x<b.c;x++) m.at(i,x)=b.at(j,x);
      if(maincall(c,KC(C_mzed_copy_row,C_mzd_slice_copy_row),{P(A),P(B)},{i,j})!=OK) return; settle(c,A,m,"row copied"); return; }
  case 10: { A=inplace(c,kind,vol); Mat m=mat_of(A); int i=coin(c,m.r),j=coin(c,m.r); if(m.r<2) return; if(i==j) j=(j+1)%m.r; for(int x=0;x<m.c;x++) m.at(j,x)^=m.at(i,x); if(maincall(c,KC(C_mzed_row_add,C_mzd_slice_row_add),{P(A)},{i,j})!=OK) return; settle(c,A,m,"row added"); return; }
  case 11: if(kind==SLICE){ A=inplace(c,SLICE,vol); if(A->root!=A||A->nwin){ return; } Mat m=mat_of(A); int e=flds[A->fld].e; int d=c.g.range(e,16); c.nointr=true; if(maincall(c,C_mzd_slice_adapt_depth,{P(A)},{d})!=OK){ if(c.outcome==INTR){} return; } settle(c,A,m,"depth adapted"); sim_unlock(A,true); void*r; scall(c,C_mzd_slice_adapt_depth,{P(A)},{e},&r); sim_unlock(A,false); settle(c,A,m,"depth restored"); return; }
    // fallthrough
  case 12: { A=inplace(c,kind,vol); Mat m=mat_of(A); int f=A->fld; Obj*B; bool same=hit(c,0.5); if(same) B=A; else { int br=1+coin(c,8); Mat z=rndmat(c,f,br,m.c); B=hit(c,0.6)?newroot(c,kind,f,br,m.c,&z):bigger_and_cut(c,kind,f,br,m.c,&z); c.ins.push_back(B); } Mat b=mat_of(B); int i=coin(c,m.r),j=coin(c,b.r),st=hit(c,0.3)?0:coin(c,m.c); if(same&&i==j&&m.r>1) j=(j+1)%b.r; bool sr=coin(c,3)==0; u16 x=sr?1:rndel(c,f); 
      for(int y=st;y<m.c;y++) m.at(i,y)^=flds[f].fm->mul(x,b.at(j,y));
      if(sr){ if(maincall(c,C_mzed_add_row,{P(A),P(B)},{i,j,st})!=OK) return; } else if(maincall(c,C_mzed_add_multiple_of_row,{P(A),P(B)},{i,j,x,st})!=OK) return; settle(c,A,m,"scaled row added"); return; }
  }
}
static void h_elem(Ctx&c){ h_elem_k(c,MZED); } static void h_selem(Ctx&c){ h_elem_k(c,SLICE); }
static void h_struct(Ctx&c){ int kind=coin(c,2)?MZED:SLICE; int w=coin(c,5); int vol=hit(c,0.08)&&!c.o->cap?90000:8000;
  if(w<=1){ int f=pickfld(c),m=dim(c),n=dim(c),x=dim(c),one=1; volcap(m,one,n,vol); if(x>80&&hit(c,0.8)) x=1+x%80; bool same=hit(c,0.15); Obj*A=input(c,kind,f,m,n); if(same) x=w==0?m:n; Obj*B=same&&hit(c,0.7)?A: w==0?input(c,kind,f,x,n):input(c,kind,f,m,x); Mat a=mat_of(A),b=mat_of(B); Mat r(w==0?m+x:m,w==0?n:n+x); putmat(r,0,0,a); putmat(r,w==0?m:0,w==0?0:n,b); Obj*C=dest(c,kind,f,r.r,r.c,true);
    if(maincall(c,w==0?KC(C_mzed_stack,C_mzd_slice_stack):KC(C_mzed_concat,C_mzd_slice_concat),{P(C),P(A),P(B)},{})!=OK) return; result(c,kind,f,C,r,w==0?"stacked matrix":"concatenated matrix"); return; }
  if(w==2){ Obj*A=anyin(c,kind,vol); Mat a=mat_of(A); int r0=coin(c,a.r),c0=coin(c,a.c),r1=c.g.range(r0+1,a.r),c1=c.g.range(c0+1,a.c); Mat s=submat(a,r0,c0,r1-r0,c1-c0); Obj*S=dest(c,kind,A->fld,s.r,s.c,true); if(maincall(c,KC(C_mzed_submatrix,C_mzd_slice_submatrix),{P(S),P(A)},{r0,c0,r1,c1})!=OK) return; result(c,kind,A->fld,S,s,"submatrix"); return; }
  if(w==3){ Obj*A=inplace(c,kind,vol); Mat m=mat_of(A); int k=coin(c,4); bool tri=k==3&&kind==SLICE&&coin(c,3)==0; int len=k<2?m.r:m.c; int pl=len; if(!coin(c,5)&&(kind==MZED||k<2)) pl=std::max(1,len+(int)coin(c,9)-4); Obj*Pp=newperm(c,pl,coin(c,8)?3+len:0); if(pl<len) len=pl; c.ins.push_back(Pp); auto&p=Pp->perm; auto rs=[&](int i){ if(p[i]!=i) for(int x=0;x<m.c;x++) std::swap(m.at(i,x),m.at(p[i],x)); }; auto cs=[&](int i){ if(p[i]!=i) for(int x=0;x<m.r;x++) std::swap(m.at(x,i),m.at(x,p[i])); };
    if(k==0) for(int i=0;i<len;i++) rs(i); else if(k==1) for(int i=len-1;i>=0;i--) rs(i); else if(k==2) for(int i=len-1;i>=0;i--) cs(i); else if(tri) for(int i=0;i<len;i++){ if(p[i]!=i) for(int x=0;x<std::min(i,m.r);x++) std::swap(m.at(x,i),m.at(x,p[i])); } else for(int i=0;i<len;i++) cs(i);
    static const int cl[2][4]={{C_mzed_apply_p_left,C_mzed_apply_p_left_trans,C_mzed_apply_p_right,C_mzed_apply_p_right_trans},{C_mzd_slice_apply_p_left,C_mzd_slice_apply_p_left_trans,C_mzd_slice_apply_p_right,C_mzd_slice_apply_p_right_trans}};
    int o=maincall(c,tri?C_mzd_slice_apply_p_right_trans_tri:cl[kind==SLICE][k],{P(A),P(Pp)},{}); if(o==OK) settle(c,A,m,"permuted matrix"); c.ins.pop_back(); freeobj(c,Pp); return; }
  { int f=pickfld(c),m=dim(c),n=dim(c),one=1; volcap(m,one,n,vol); Mat a=rndmat(c,f,m,n,11); int z=coin(c,m+1); for(int i=0;i<m;i++) for(int j=0;j<n;j++) if(i>=z) a.at(i,j)=0; for(int i=0;i<z;i++){ bool nz=false; for(int j=0;j<n;j++) nz|=a.at(i,j)!=0; if(!nz||hit(c,0.3)){ for(int j=0;j<n;j++) a.at(i,j)=0; a.at(i,coin(c,n))=1u<<coin(c,flds[f].e); } } Obj*A=input(c,MZED,f,m,n,&a); if(maincall(c,C_mzed_first_zero_row,{P(A)},{})!=OK) return; if((int)c.a.iret!=z) raise(c,c.fam,"wrong-result","first zero row of a %dx%d matrix with %d leading non-zero rows given as %d",m,n,z,(int)c.a.iret); }
}

// ------------------------------------------------------------------ fields
static void field_probe(Ctx&c,void*ff,FM*fm,int n){ int e=fm->e; u32 q=1u<<e; 
  for(int t=0;t<n;t++){ u32 a=t<4?(u32[]){0,1,q-1,q>>1}[t]:c.g.below(q), b=c.g.below(q); if(hit(c,0.15)) b=q-1; long g=scall(c,C_gf2e_mulp,{ff},{a,b}); if(g!=fm->mul(a,b)) raise(c,c.fam,"wrong-result","0x%x * 0x%x over 0x%x is 0x%lx, should be 0x%x",a,b,fm->poly,g,fm->mul(a,b));
    if(t&1){ g=scall(c,C_gf2e_mul,{ff},{a,b}); if(g!=fm->mul(a,b)) raise(c,c.fam,"wrong-result","gf2e_mul: 0x%x * 0x%x over 0x%x is 0x%lx",a,b,fm->poly,g); } else { g=scall(c,C_gf2e_mul_arith,{ff},{a,b}); if(g!=fm->mul(a,b)) raise(c,c.fam,"wrong-result","_gf2e_mul_arith: 0x%x * 0x%x over 0x%x is 0x%lx",a,b,fm->poly,g); }
    if(a){ g=scall(c,(t&2)?C_gf2e_inv:C_gf2e_invp,{ff},{a}); if(g!=fm->inv(a)) raise(c,c.fam,"wrong-result","inverse of 0x%x over 0x%x is 0x%lx, should be 0x%x",a,fm->poly,g,fm->inv(a)); } }
  int w=e<=2?2:e<=4?4:e<=8?8:16; long g=scall(c,C_gf2e_degree_to_w,{ff},{}); if(g!=w) raise(c,c.fam,"wrong-result","width of degree %d is %ld",e,g); }
static u32 privpoly(Ctx&c);
static Obj* anyfield(Ctx&c){ std::vector<Obj*> v; for(Obj*x:c.t->pool) if(x->kind==FIELD) v.push_back(x); return v.empty()?nullptr:v[c.g.below(v.size())]; }
static void h_fnew(Ctx&c){ u32 poly=privpoly(c); FM*fm=get_fm(poly); if(maincall(c,C_gf2e_init,{}, {(long)poly})!=OK) return; void*ff=c.a.ret; if(!ff) raise(c,c.fam,"null-result","no field"); if(acc_ff_degree(ff)!=fm->e||acc_ff_minpoly(ff)!=poly) raise(c,c.fam,"wrong-result","degree or minimal polynomial of the field is wrong");
  Obj*o=new Obj; o->kind=FIELD; o->p=ff; o->poly=poly; o->root=o; o->raw=0; track(c,o); o->nr=0; u64 h=acc_ff_hash(ff); c.dig=hcomb(c.dig,h); o->perm={(int)h,(int)(h>>32)}; field_probe(c,ff,fm,8); }
static void fieldsum(Ctx&c,Obj*o){ u64 h=acc_ff_hash(o->p); if((int)h!=o->perm[0]||(int)(h>>32)!=o->perm[1]) raise(c,c.fam|M_OPND,"field-modified","tables of the field 0x%x changed",o->poly); }
static int degw(u64 a){ return a?63-__builtin_clzll(a):0; }
static u64 rndpoly(Ctx&c,int maxdeg){ int d=c.g.range(0,maxdeg); u64 v=c.g.next(); if(hit(c,0.2)) v=~0ULL; if(hit(c,0.1)) v=0; v&= d==63?~0ULL:((2ULL<<d)-1); return v; }
// arithmetic of polynomials over GF(2), the layer below the fields
static void gf2x_op(Ctx&c){ int w=coin(c,5); if(w==0){ int d=c.g.range(1,32); u64 m=(1ULL<<d)-1,a=rndpoly(c,31)&m,b=rndpoly(c,31)&m,want=0; for(int i=0;i<d;i++) if(a>>i&1) want^=b<<i; if(maincall(c,C_gf2x_mul,{}, {(long)a,(long)b,d})!=OK) return; if((u64)c.a.iret!=want) raise(c,c.fam,"wrong-result","product of polynomials 0x%lx and 0x%lx of degree below %d is 0x%lx, should be 0x%lx",(long)a,(long)b,d,c.a.iret,(long)want); return; }
  u64 a=rndpoly(c,63),b=rndpoly(c,63); if(!b) b=1; if(w==1){ if(maincall(c,C_gf2x_deg,{}, {(long)a})!=OK) return; if(c.a.iret!=degw(a)) raise(c,c.fam,"wrong-result","degree of 0x%lx is %ld",(long)a,c.a.iret); return; }
  u64 r=a,q=0; int db=degw(b); for(int i=63;i>=db;i--) if(r>>i&1){ r^=b<<(i-db); q|=1ULL<<(i-db); }
  static const int cl[]={C_gf2x_div,C_gf2x_mod,C_gf2x_divmod}; if(maincall(c,cl[w-2],{}, {(long)a,(long)b})!=OK) return; u64 g=c.a.iret; bool bad= w==2?g!=q: w==3?g!=r: g!=q||(u64)c.a.i[9]!=r; if(bad) raise(c,c.fam,"wrong-result","dividing 0x%lx by 0x%lx gave 0x%lx, quotient 0x%lx and remainder 0x%lx expected",(long)a,(long)b,(long)g,(long)q,(long)r); }
static void h_fuse(Ctx&c){ if(hit(c,0.15)){ gf2x_op(c); return; } Obj*o=anyfield(c); if(!o||hit(c,0.2)){ int f=pickfld(c); field_probe(c,flds[f].ff,flds[f].fm,12); return; } FM*fm=get_fm(o->poly); int k=coin(c,3); 
  if(k==0){ u32 q=1u<<fm->e,a=c.g.below(q),b=c.g.below(q); int w=coin(c,3); if(w==2&&!a) a=1; if(maincall(c,w==0?C_gf2e_mulp:w==1?C_gf2e_mul:C_gf2e_inv,{o->p},{a,b})!=OK) return; u16 want=w<2?fm->mul(a,b):fm->inv(a); if(c.a.iret!=want) raise(c,c.fam,"wrong-result","field operation over 0x%x gave 0x%lx, should be 0x%x",o->poly,c.a.iret,want); }
  if(k==1){ u32 q=1u<<fm->e,a=c.g.below(q); if(maincall(c,C_gf2e_t16_init,{o->p},{a})!=OK) return; u64*T=(u64*)c.a.ret; int w=fm->e<=2?2:fm->e<=4?4:fm->e<=8?8:16; if(!T) raise(c,c.fam,"null-result","no table"); for(int t=0;t<400;t++){ u32 x=t==0?0:t==1?0xffff:c.g.below(65536); u32 y=0; bool okx=true; for(int s=0;s<16;s+=w){ u32 el=x>>s&((1u<<w)-1); if(el>=(1u<<fm->e)){ okx=false; break; } y|=(u32)fm->mul(a,el)<<s; } if(okx&&T[x]!=y) raise(c,c.fam,"wrong-result","multiplication table of 0x%x over 0x%x: entry 0x%x is 0x%lx, should be 0x%x",a,o->poly,x,(unsigned long)T[x],y); } scall(c,C_gf2e_t16_free,{T},{}); }
  field_probe(c,o->p,fm,fm->e<=4?24:10); fieldsum(c,o); }
static void h_ffree(Ctx&c){ Obj*o=anyfield(c); if(!o){ h_fnew(c); return; } fieldsum(c,o); c.mainused=true; freeobj(c,o); for(Obj*x:c.t->pool) if(x->kind==FIELD){ fieldsum(c,x); field_probe(c,x->p,get_fm(x->poly),4); } for(auto&f:flds) field_probe(c,f.ff,f.fm,2); }
static void h_fmat(Ctx&c){ Obj*o=anyfield(c); if(!o){ h_fnew(c); return; } FM*fm=get_fm(o->poly); // a product over a private field
  Fld F2; F2.poly=o->poly; F2.fm=fm; F2.ff=o->p; F2.e=fm->e; F2.w=fm->e<=2?2:fm->e<=4?4:fm->e<=8?8:16; F2.base=false; F2.h=0; flds.push_back(F2); int f=flds.size()-1; int m=1+coin(c,12),k=1+coin(c,8),n=1+coin(c,8); int save=run.winpct; run.winpct=0; bool sl=coin(c,2); int kind=sl?SLICE:MZED; Mat a=rndmat(c,f,m,k,11),b=rndmat(c,f,k,n,11); Obj*A=newroot(c,kind,f,m,k,&a),*B=newroot(c,kind,f,k,n,&b),*C=newroot(c,kind,f,m,n,nullptr); c.ins={A,B}; c.dests={C}; Mat want=m_mul(fm,a,b); static const int mv[]={C_mzed_mul,C_mzed_mul_naive,C_mzed_mul_newton_john,C_mzed_mul_karatsuba}; int cl=sl?C_mzd_slice_mul:mv[coin(c,fm->e>12?1:4)];
  run.winpct=save; c.nofault=true; if(maincall(c,cl,{C->p,A->p,B->p},{})==OK) settle(c,C,want,"product over a private field"); c.ins.clear(); c.dests.clear(); freeobj(c,A); freeobj(c,B); freeobj(c,C); flds.pop_back(); fieldsum(c,o); }
// rows reduced with one to six tables at once
static void njt_open(void*tp,bool lock){ MV v; acc_mzed(acc_njt_T(tp),&v); lock_x(v.x[0],lock,false); acc_mzed(acc_njt_M(tp),&v); lock_x(v.x[0],lock,false); block_lock(find_block((uintptr_t)acc_njt_Lp(tp)),lock); }
static void h_prows(Ctx&c){ static const int cl[]={C_mzed_process_rows,C_mzed_process_rows2,C_mzed_process_rows3,C_mzed_process_rows4,C_mzed_process_rows5,C_mzed_process_rows6};
  c.fam=F_ELEM|F_FIELD; Obj*M=inplace(c,MZED,6000); int f=M->fld,e=flds[f].e,w=flds[f].w; if(e>9) return; Mat m=mat_of(M); int n=1+coin(c,6); n=std::min({n,m.c,64/w}); if(e>6) n=std::min(n,2); int col=hit(c,0.3)?0:coin(c,m.c-n+1); int r0=hit(c,0.5)?0:coin(c,m.r),r1=hit(c,0.5)?m.r:c.g.range(r0,m.r);
  int ar=n+coin(c,4); Mat a=rndmat(c,f,ar,m.c); Obj*A=input(c,MZED,f,ar,m.c,&a); a=mat_of(A); void*T[6]; int rw[6]; void*x;
  for(int j=0;j<n;j++){ rw[j]=coin(c,ar); scall(c,C_njt_init,{flds[f].ff},{m.c},&T[j]); njt_open(T[j],false); scall(c,C_mzed_make_table,{T[j],A->p},{rw[j],col+j},&x); njt_open(T[j],true); }
  FM*fm=flds[f].fm; for(int r=r0;r<r1;r++){ u16 y[6]; for(int j=0;j<n;j++) y[j]=m.at(r,col+j); for(int j=0;j<n;j++) if(y[j]) for(int k=col+j;k<m.c;k++) m.at(r,k)^=fm->mul(y[j],a.at(rw[j],k)); }
  void*q[7]={P(M)}; for(int j=0;j<6;j++) q[j+1]=j<n?T[j]:nullptr; int o=maincall(c,cl[n-1],{q[0],q[1],q[2],q[3],q[4],q[5],q[6]},{r0,r1,col}); if(o==OK) settle(c,M,m,"rows reduced by tables"); for(int j=0;j<n;j++) scall(c,C_njt_free,{T[j]},{}); }
static void h_njt(Ctx&c){ if(hit(c,0.35)){ h_prows(c); return; } int f=pickfld(c),e=flds[f].e; if(e>12){ for(size_t i=0;i<flds.size();i++) if(flds[i].e<=12) f=i; e=flds[f].e; if(e>12) return; } int m=1+coin(c,12),n=dim(c); if(e>8&&n>30) n=1+n%30; if(hit(c,0.15)&&e<=8&&!c.o->cap) n=c.g.range(100,300); Obj*A=input(c,MZED,f,m,n); Mat a=mat_of(A); Obj*T=nullptr; bool nul=hit(c,0.3); if(!nul){ T=new Obj; T->kind=NJT; T->fld=f; T->root=T; void*p; scall(c,C_njt_init,{flds[f].ff},{n},&p); T->p=p; track(c,T); } 
  int rounds=1+coin(c,3); for(int t=0;t<rounds;t++){ int r=coin(c,m),cc=hit(c,0.4)?0:coin(c,n); if(t>0&&hit(c,0.5)) cc=std::min(n-1,cc); 
    Obj tb; bool have=T!=nullptr; void*tp=have?T->p:nullptr; if(have) njt_open(tp,false);
    (void)tb; if(maincall(c,C_mzed_make_table,{tp,A->p},{r,cc})!=OK){ if(T){ T->live=true; } return; }
    if(!have){ T=new Obj; T->kind=NJT; T->fld=f; T->root=T; T->p=c.a.ret; track(c,T); tp=T->p; }
    MV v; acc_mzed(acc_njt_T(tp),&v); FM*fm=flds[f].fm; int w=flds[f].w; for(u32 x=0;x<(1u<<e);x++){ int row=acc_njt_L(tp,x); if(row<0||row>=v.nrows) raise(c,c.fam,"wrong-result","table index out of range"); const u64*rr=v.x[0].rows[row]; if(e>8&&(x%7)) continue; for(int j=cc;j<n;j++){ int b=w*j; u16 g=(u16)(rr[b>>6]>>(b&63)&((1ULL<<w)-1)); if(g!=fm->mul(x,a.at(r,j))) raise(c,c.fam,"wrong-result","table row of 0x%x, column %d: 0x%x instead of 0x%x (start column %d)",x,j,g,fm->mul(x,a.at(r,j)),cc); } c.dig=hcomb(c.dig,row); }
    if(have){ acc_mzed(acc_njt_T(tp),&v); lock_x(v.x[0],true,false); acc_mzed(acc_njt_M(tp),&v); lock_x(v.x[0],true,false); }
    c.mainused=true; }
  freeobj(c,T); }

// ------------------------------------------------------------------ randomisation
static void h_rand(Ctx&c){ int kind=coin(c,3); F->rndmode= hit(c,0.6)?0:1+coin(c,3); u64 s=c.g.next(); int call=kind==0?C_mzed_randomize:kind==1?C_mzd_slice_randomize:C_mzd_poly_randomize;
  auto arm=[&]{ *F->rnd=Rng(s); F->rndcnt=0; F->rndarmed=true; };
  if(kind==2){ int d=c.g.range(1,8),m=dim(c),n=dim(c),one=1; volcap(m,one,n,2000); Obj*A=newpoly(c,d,m,n,true); c.dests={A}; arm(); if(maincall(c,call,{A->p},{})!=OK) return; 
    auto grab=[&](Obj*o){ MV v; view(o,&v); std::vector<Mat> w(v.depth>140?0:v.depth,Mat(m,n)); for(int k=0;k<v.nx;k++){ if(!padding_ok(v.x[k])) raise(c,c.fam,"dirty-padding","bits beyond the last column set"); for(int i=0;i<m;i++) for(int j=0;j<n;j++) w[k].at(i,j)=v.x[k].rows[i][j>>6]>>(j&63)&1; } return w; };
    std::vector<Mat> g1=grab(A); settle_poly(c,A,g1,"random polynomial"); Obj*B=newpoly(c,d,m,n,true); sim_unlock(B,true); arm(); scall(c,call,{B->p},{}); sim_unlock(B,false); std::vector<Mat> g2=grab(B); settle_poly(c,B,g2,"random polynomial"); for(int k=0;k<d;k++) if(!(g1[k]==g2[k])) raise(c,c.fam,"not-determined","the same random stream gave two different polynomials"); return; }
  int k2=kind==0?MZED:SLICE; Obj*A=inplace(c,k2,5000); int f=A->fld; u32 q=1u<<flds[f].e; arm(); if(maincall(c,call,{P(A)},{})!=OK) return; Mat g=peek(c,A); for(auto x:g.a) if(x>=q) raise(c,c.fam,"wrong-result","0x%x is not an element of a field of %u elements",x,q); settle(c,A,g,"random matrix");
  Obj*B=hit(c,0.5)?bigger_and_cut(c,k2,f,g.r,g.c,nullptr):nullptr; if(!B){ Mat old=rndmat(c,f,g.r,g.c); B=newroot(c,k2,f,g.r,g.c,&old); } if(B->detached) encode(B); sim_unlock(B,true); arm(); int keep=F->rndmode; scall(c,call,{P(B)},{}); F->rndmode=keep; sim_unlock(B,false); Mat g2=peek(c,B); settle(c,B,g2,"random matrix"); if(!(g2==g)) raise(c,c.fam,"not-determined","the same random stream gave two different matrices of shape %dx%d over 0x%x",g.r,g.c,flds[f].poly);
  if(F->rndmode==0&&g.r*g.c<=150&&hit(c,0.5)&&A->root==A){ std::vector<u16> o1(g.a.size(),0),o0(g.a.size(),0); Rng rs(s); for(int t=0;t<48;t++){ *F->rnd=Rng(rs.next()); sim_unlock(A,true); scall(c,call,{P(A)},{}); sim_unlock(A,false); Mat x=peek(c,A); settle(c,A,x,"random matrix"); for(size_t i=0;i<x.a.size();i++){ o1[i]|=x.a[i]; o0[i]|=~x.a[i]; } } for(size_t i=0;i<o1.size();i++) if((o1[i]&(q-1))!=q-1||(o0[i]&(q-1))!=q-1) raise(c,c.fam,"biased","some bit of entry (%d,%d) of a %dx%d matrix over 0x%x kept its value in 48 random fillings",(int)i/g.c,(int)i%g.c,g.r,g.c,flds[f].poly); }
}

// ------------------------------------------------------------------ printing
static void h_print(Ctx&c){ int kind=coin(c,2)?MZED:SLICE; Obj*A=anyin(c,kind,1500); Mat m=mat_of(A); int e=flds[A->fld].e; int w=e<=2?2:e<=4?4:e<=8?8:16; std::string want; char t[32]; int wd=kind==MZED?(w+3)/4:(w+3)/4; for(int i=0;i<m.r;i++){ want+='['; for(int j=0;j<m.c;j++){ snprintf(t,32,"%*x",wd,m.at(i,j)); want+=t; if(j<m.c-1) want+=' '; } want+="]\n"; }
  OutFault o; o.mode=hit(c,0.35)?0:1+coin(c,4); o.limit=c.g.below(want.size()+8); o.seed=c.g.next(); o.bufmode=coin(c,3); int call=kind==MZED?C_mzed_print:C_mzd_slice_print; if(A->detached) encode(A);
  out_begin(o); int r=maincall(c,call,{P(A)},{}); std::string got=out_end(); if(r!=OK) return; auto show=[](const std::string&s){ std::string x=s.substr(0,60); for(auto&ch:x) if(ch=='\n') ch='/'; return x; };
  bool full=o.mode==0||o.mode==1; size_t lim=got.size(); if(o.mode==4){ /* interrupted writes may drop whole buffers: what arrived is made of pieces of the text in order */ size_t p=0; for(size_t i=0;i<got.size();i++){ p=want.find(got[i],p); if(p==std::string::npos) raise(c,c.fam,"wrong-output","output on an interrupted stream is not made of pieces of the expected text"); p++; } }
  else if(full?got!=want:(want.compare(0,lim,got)!=0)) { size_t i=0; while(i<got.size()&&i<want.size()&&got[i]==want[i]) i++; raise(c,c.fam,"wrong-output","printed text of a %dx%d matrix over 0x%x differs at byte %zu: '%s' should be '%s'",m.r,m.c,flds[A->fld].poly,i,show(got.substr(i)).c_str(),show(i<want.size()?want.substr(i):"").c_str()); }
  c.dig=hcomb(c.dig,got.size()); if(o.mode&&!run.ops[c.k].af&&!run.ops[c.k].it){ OutFault q; q.mode=0; q.limit=0; q.seed=1; q.bufmode=2; if(c.g.chance(0.5)) out_recover(); else out_begin(q); scall(c,call,{P(A)},{}); got=out_end(); if(got!=want) raise(c,c.fam,"wrong-output","printing again on a working stream after a stream fault gave '%s'",show(got).c_str()); }
}

// ------------------------------------------------------------------ checked misuse
static void h_misuse(Ctx&c){ c.expect_die=true; c.locked_dests=true; c.nofault=true; int w=coin(c,12); int f=pickfld(c),f2=f; for(int t=0;t<4&&f2==f;t++) f2=pickfld(c); if(f2!=f&&flds[f2].ff==flds[f].ff) f2=f; int d1=1+coin(c,20),d2=1+coin(c,20),d3=1+coin(c,20); auto off=[&](int d){ return hit(c,0.5)||d==1? d+1+coin(c,3): d-1; }; const char*what="?"; int o;
  auto mk=[&](int kind,int ff,int r,int cc){ Mat m=rndmat(c,ff,r,cc,11); Obj*x=hit(c,0.25)?bigger_and_cut(c,kind,ff,r,cc,&m):newroot(c,kind,ff,r,cc,&m); c.ins.push_back(x); return x; };
  if(w<=1){ int kind=w==0?MZED:SLICE; Obj*A,*B,*C=nullptr; int k=coin(c,4); if(k==1&&f2==f) k=0; A=mk(kind,f,d1,d2); 
    if(k==0){ bool row=coin(c,2); B=mk(kind,f,row?off(d1):d1,row?d2:off(d2)); if(coin(c,2)) C=mk(kind,f,d1,d2); what="addends of different shape"; } else if(k==1){ B=mk(kind,f2,d1,d2); if(coin(c,2)) C=mk(kind,f,d1,d2); what="addends over different fields"; } else if(k==2||f2==f){ B=mk(kind,f,d1,d2); bool row=coin(c,2); C=mk(kind,f,row?off(d1):d1,row?d2:off(d2)); what="sum into a matrix of different shape"; } else { B=mk(kind,f,d1,d2); C=mk(kind,f2,d1,d2); what="sum into a matrix over another field"; }
    o=maincall(c,KC(C_mzed_add,C_mzd_slice_add),{P(C),P(A),P(B)},{}); }
  else if(w==2){ Obj*A=mk(MZED,f,d1,d2),*B; if(f2!=f&&coin(c,2)){ B=mk(MZED,f2,d1,d2); what="copy into a matrix over another field"; } else { bool row=coin(c,2); B=mk(MZED,f,row?std::max(1,d1-1-coin(c,3)):d1,row?d2:std::max(1,d2-1-coin(c,3))); if(B->nr==d1&&B->nc==d2){ Obj*nb=mk(MZED,f,1,1); Obj*na=mk(MZED,f,3,2); A=na; B=nb; } what="copy into a matrix that is too small"; } o=maincall(c,C_mzed_copy,{P(B),P(A)},{}); }
  else if(w<=9){ int kind=w<=6?MZED:SLICE; static const int mc[]={C_mzed_mul,C_mzed_addmul,C_mzed_mul_naive,C_mzed_addmul_naive,C_mzed_mul_newton_john,C_mzed_addmul_newton_john,C_mzed_mul_karatsuba,C_mzed_addmul_karatsuba,C_mzed_mul_blm,C_mzed_addmul_blm,C_mzed_mul_strassen,C_mzed_addmul_strassen}; static const int sc[]={C_mzd_slice_mul,C_mzd_slice_addmul,C_mzd_slice_mul_karatsuba,C_mzd_slice_addmul_karatsuba,C_mzd_slice_mul_blm,C_mzd_slice_addmul_blm};
    int idx=kind==MZED?coin(c,12):coin(c,6); int call=kind==MZED?mc[idx]:sc[idx]; bool acc=idx&1; Obj*A,*B,*C=nullptr; int k=coin(c,4); if((k==1||k==3)&&f2==f) k&=2; A=mk(kind,f,d1,d2);
    if(k==0){ B=mk(kind,f,off(d2),d3); if(acc||coin(c,2)) C=mk(kind,f,d1,d3); what="factors with different inner dimension"; } else if(k==1){ B=mk(kind,f2,d2,d3); if(acc||coin(c,2)) C=mk(kind,f,d1,d3); what="factors over different fields"; } else if(k==2){ B=mk(kind,f,d2,d3); bool row=coin(c,2); C=mk(kind,f,row?off(d1):d1,row?d3:off(d3)); what="product into a matrix of different shape"; } else { B=mk(kind,f,d2,d3); C=mk(kind,f2,d1,d3); what="product into a matrix over another field"; }
    o= kind==SLICE&&idx>=4? maincall(c,call,{P(C),P(A),P(B),nullptr},{}) : maincall(c,call,{P(C),P(A),P(B)},{64}); }
  else if(w==10){ int e=flds[f].e; int n=1+coin(c,std::min(20,njcap(e))); Mat m=invertible(c,f,n); int z=coin(c,n); int s=coin(c,3); if(s==0||n==1) for(int j=0;j<n;j++) m.at(z,j)=0; else if(s==1){ int y=(z+1)%n; u16 x=rndel(c,f); for(int j=0;j<n;j++) m.at(z,j)=flds[f].fm->mul(x,m.at(y,j)); } else for(int i=0;i<n;i++) m.at(i,z)=0; Obj*A=hit(c,0.25)?bigger_and_cut(c,MZED,f,n,n,&m):newroot(c,MZED,f,n,n,&m); c.ins.push_back(A); Obj*B=coin(c,2)?mk(MZED,f,n,n):nullptr; what="inverse of a singular matrix"; o=maincall(c,C_mzed_invert_newton_john,{P(B),P(A)},{}); }
  else { int d=17+coin(c,12); if(hit(c,0.3)) d=17+coin(c,46); long poly=(1L<<d)|(c.g.next()&((1L<<d)-1))|1; what="field of unsupported degree"; o=maincall(c,C_gf2e_init,{}, {poly}); }
  if(o==OK) raise(c,c.fam,"misuse-accepted","%s was accepted",what);
  if(F->errtext->empty()) raise(c,c.fam,"silent-stop","%s stopped the process without a diagnostic",what);
}
static void h_window(Ctx&c){ int kind=coin(c,2)?MZED:SLICE; std::vector<Obj*> v; for(Obj*x:c.t->pool) if(x->kind==kind&&usable_input(c,x)) v.push_back(x); Obj*p; if(v.empty()||hit(c,0.3)){ int f=pickfld(c); int m=dim(c)+2,n=dim(c)+unitk(kind,f)*coin(c,3),one=1; volcap(m,one,n,8000); Mat x=rndmat(c,f,m,n); p=newroot(c,kind,f,m,n,&x); } else p=v[c.g.below(v.size())]; int u=unitof(p); int r0=coin(c,p->nr),c0=u*coin(c,(p->nc-1)/u+1); int nr=c.g.range(1,p->nr-r0),nc=c.g.range(1,p->nc-c0); if(hit(c,0.15)&&nr==p->nr) nc=c.g.range(1,p->nc-c0); mkwindow(c,p,r0,c0,nr,nc); }
static void h_free(Ctx&c){ int n=1+coin(c,3); while(n--){ std::vector<Obj*> cand; for(Obj*x:c.t->pool) if(!x->busy&&!(x->root==x&&x->nwin)) cand.push_back(x); if(cand.empty()) return; freeobj(c,cand[c.g.below(cand.size())]); } }
static void h_new(Ctx&c){ int kind=coin(c,2)?MZED:SLICE; int f=pickfld(c),m=dim(c),n=dim(c),one=1; volcap(m,one,n,20000); if(maincall(c,kind==MZED?C_mzed_init:C_mzd_slice_init,{flds[f].ff},{m,n})!=OK) return; Obj*o=adopt(c,kind,f,c.a.ret,Mat(m,n),"new matrix"); if(hit(c,0.6)){ o->m=rndmat(c,f,m,n); encode(o); resync(o); } }

const OpKind op_kinds[]={ {"mul",F_MUL,h_mul},{"slice-mul",F_MUL,h_smul},{"big-mul",F_MUL,h_bigmul},{"scalar",F_MUL|F_ELEM,h_scalar},{"echelon",F_ELIM,h_ech},{"slice-echelon",F_ELIM,h_sech},{"invert",F_ELIM,h_inv},{"ple",F_PLE,h_ple},{"slice-ple",F_PLE,h_sple},{"trsm",F_TRSM,h_trsm},{"slice-trsm",F_TRSM,h_strsm},{"convert",F_CONV,h_conv},{"poly-mul",F_POLY,h_poly},{"poly-misc",F_POLY,h_polymisc},{"elem",F_ELEM,h_elem},{"slice-elem",F_ELEM,h_selem},{"struct",F_ELEM,h_struct},{"field-new",F_FIELD,h_fnew},{"field-use",F_FIELD,h_fuse},{"field-free",F_FIELD,h_ffree},{"field-mat",F_FIELD,h_fmat},{"table",F_FIELD,h_njt},{"random",F_RAND,h_rand},{"print",F_PRINT,h_print},{"misuse",F_MISUSE,h_misuse},{"window",F_ELEM,h_window},{"free",F_CONS,h_free},{"new",F_ELEM,h_new} };
const int n_op_kinds=sizeof op_kinds/sizeof*op_kinds;
int op_kind_by_name(const char*n){ for(int i=0;i<n_op_kinds;i++) if(!strcmp(op_kinds[i].name,n)) return i; return -1; }
