// Work of a call, counted in simulated steps (basic blocks, memory accesses, lock waits),
// against what its operands allow. The models are deliberately coarse: H covers everything that
// multiplies or eliminates (schoolbook products, tables of 2^e rows), L what touches each entry a
// bounded number of times, G packing of slices into 16-bit entries, P products of polynomials over matrices, F fields and their tables.
// work_calib.inc holds, per call, the largest ratio seen over long calibration runs; a call may use
// WORK_SLACK times that before it counts as runaway.
#define WORK_SLACK 12.0
static FILE*work_dump=nullptr;
struct WorkCal { const char*name; double ratio; };
static const WorkCal work_cal[]={
#include "work_calib.inc"
 {nullptr,0} };
static int wbits_(long e){ return e<=2?2:e<=4?4:e<=8?8:16; }
static char work_class(const char*n){
  auto has=[&](const char*x){ return strstr(n,x)!=nullptr; }; auto pre=[&](const char*x){ return !strncmp(n,x,strlen(x)); };
  if(pre("gf2e")||pre("gf2x")||pre("blm")||pre("crt")||pre("mm_")) return 'F';
  if(has("cling")) return 'G';
  if(has("poly")) return 'P';
  if(has("scalar")) return 'S';
  if(has("add_multiple_of_row")) return 'L';
  if(has("mul")||has("invert")||has("echelon")||has("ple")||has("pluq")||has("trsm")||has("make_table")) return 'H';
  return 'L'; }
static double work_model(char k,double R_,double C_,double D,double e){
  double M=std::max(R_,C_), w=C_*wbits_((long)e)/64;
  switch(k){ case 'G': return R_*(C_/4+1)*20*e+400; case 'F': return D>16? 1e6*D/16*D/16*D/16*D/16: 1e6; case 'P': return 20*D*D*(R_+8)*(C_/64+1)+2000*D+3000;
    case 'H': return (M+4)*((1L<<(long)e)*(w+2)+(R_+8)*(w+8)*4+5*R_*C_)+2000; }
  double sl=R_*(C_/64+3)*e; // words of the slices, with what a call into libm4ri costs per row
  return D*(R_*C_*(e+8)+4*sl+20*(R_+C_)+100*e)+(k=='S'? 2*sl*e: 0)+400; }
static double work_lim(Ctx&c,int call,long&R_,long&C_,long&D,long&e,double&m,char&k){
  R_=C_=D=e=1; const char*nm=call_table[call].name;
  auto use=[&](Obj*o){ if(o->kind==FIELD) e=std::max<long>(e,pdeg(o->poly)); if(o->kind==MZED||o->kind==SLICE||o->kind==POLY||o->kind==PERM){ R_=std::max<long>(R_,o->nr); C_=std::max<long>(C_,o->nc); } if(o->kind==POLY) D=std::max<long>(D,o->depth); if(o->fld>=0&&o->kind!=POLY) e=std::max<long>(e,flds[o->fld].e); };
  for(void*p:c.a.p) if(p){ for(Obj*o:allobjs) if(o->p==p&&o->live){ use(o); break; } for(auto&q:flds) if(q.ff==p) e=std::max<long>(e,q.e); }
  for(Obj*o:c.ins) use(o); for(Obj*o:c.dests) use(o);
  if(strstr(nm,"init")) for(int k=0;k<2;k++) if(c.a.i[k]>0&&c.a.i[k]<100000&&!strncmp(nm,"mz",2)) (k?C_:R_)=std::max<long>(k?C_:R_,c.a.i[k]);
  if(!strcmp(nm,"blm_init_crt")||!strcmp(nm,"crt_init")) D=std::max(c.a.i[0],c.a.i[1]);
  k=work_class(nm); m=work_model(k,R_,C_,D,e);
  static int cal[512]; static bool init=false; if(!init){ init=true; for(int i=0;i<512;i++) cal[i]=-2; }
  if(call<512&&cal[call]==-2){ cal[call]=-1; for(int i=0;work_cal[i].name;i++) if(!strcmp(work_cal[i].name,nm)) cal[call]=i; }
  return (call<512&&cal[call]>=0? work_cal[cal[call]].ratio: 40.0)*WORK_SLACK*m+5000; }
static void work_check(Ctx&c,int call,int out){
  Fiber*f=F; long R_,C_,D,e; double m; char k; const char*nm=call_table[call].name; double lim=work_lim(c,call,R_,C_,D,e,m,k), did=(double)f->step+(double)f->lib, ratio=did/m;
  if(work_dump){ fprintf(work_dump,"%s %c %.4f %d %llu %ld %ld %ld %ld %ld\n",nm,k,ratio,out,(unsigned long long)did,R_,C_,D,e,c.a.i[0]); fflush(work_dump); return; }
  R->checks++;
  if(did>lim) raise(c,F_WORK,"runaway-work","%llu steps for operands of at most %ldx%ld%s over a field of degree %ld; it should need fewer than %.0f",(unsigned long long)did,R_,C_,D>1?" (polynomials)":"",e,lim);
}
