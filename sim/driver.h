// Run records, objects and the op context of the simulated workload.
#pragma once
#include "core.h"
#include "acc.h"
#include "calls.h"
#include <functional>

enum : u32 { F_MUL=1,F_ELIM=2,F_PLE=4,F_TRSM=8,F_CONV=16,F_POLY=32,F_ELEM=64,F_FIELD=128,F_RAND=256,F_PRINT=512,F_MISUSE=1024,
  M_WIN=1<<11,M_OPND=1<<12,M_MEM=1<<13,M_LEAK=1<<14,M_SHW=1<<15,M_DIAG=1<<16,F_CONS=1<<17,M_RECOV=1<<18,M_DIFF=1<<19,F_WORK=1<<20,M_HANG=1u<<30,M_NULL=1u<<31 };
#define M_ALL 0xffffffffu
#define F_ANY (F_MUL|F_ELIM|F_PLE|F_TRSM|F_CONV|F_POLY|F_ELEM|F_FIELD|F_RAND|F_PRINT|F_MISUSE|F_CONS)

struct OpRec { int th=0, kind=0; u64 sub=0; int cap=0; u64 af=0; int ap=0; u64 it=0; std::vector<std::pair<u64,int>> pre; int extra=0; int vr=0; /* a variation of an operation repeated from earlier in the run: bits 0-2 other field, 3 other content, 4-5 one side longer or shorter, 6 other element */ };
struct Run {
  std::string prop; u64 seed=0, idx=0; int nth=1; EnvCfg env{0,0,1,0}, envb{0,0,1,0}; int l2=262144,l3=4194304,mb=2048; u64 sched=0;
  int size=1; std::vector<u32> polys; int winpct=15; int poolmax=10; u32 report=M_ALL; int nshared=0; int nobase=0; int plan=0; std::vector<OpRec> ops;
};
struct Var { bool nowin=false, skipintr=false, noaf=false, nopre=false, nointr=false, extras=false, envb=false; bool gst=false; };

enum Kind { MZED, SLICE, POLY, PERM, FIELD, NJT };
struct Obj { int kind=0, fld=-1; void*p=nullptr; bool shared=false, busy=false, live=true, detached=false; Obj*root=nullptr; Obj*parent=nullptr; int r0=0,c0=0,nr=0,nc=0; int nwin=0;
  Mat m; std::vector<Mat> pc; std::vector<int> perm; u64 raw=0; u32 poly=0; int depth=0; };
struct Fld { u32 poly; FM*fm; void*ff; int e,w; bool base; u64 h; };
struct Thr { Fiber f; std::vector<Obj*> pool; std::vector<int> ops; size_t pos=0; int id=0; };
struct Ctx { int ndim=0; int k; const OpRec*o; Rng g{1}; Thr*t; u32 fam=0; CallArgs a; int call=0; std::vector<Obj*> dests; std::vector<Obj*> ins; std::vector<Obj*> temps; bool nofault=false, mainused=false, expect_die=false, nointr=false, locked_dests=false; int outcome=0; int skinny=-1, lastdim=0; u64 dig=0; bool win=false; };
extern Run run; extern Var var; extern std::vector<Fld> flds;

struct OpKind { const char*name; u32 fam; void(*h)(Ctx&); };
extern const OpKind op_kinds[]; extern const int n_op_kinds; int op_kind_by_name(const char*);

// services
enum { OK=0, DIED=1, INTR=2 };
void raise(Ctx&c,u32 mask,const char*cls,const char*fmt,...) __attribute__((format(printf,4,5)));
long scall(Ctx&c,int call,std::initializer_list<void*> p,std::initializer_list<long> i,void**ret=nullptr);
int maincall(Ctx&c,int call,std::initializer_list<void*> p,std::initializer_list<long> i);
void settle(Ctx&c,Obj*d,const Mat&want,const char*what);
Mat peek(Ctx&c,Obj*d); Mat mat_of(Obj*o);
Obj* newroot(Ctx&c,int kind,int fld,int nr,int nc,const Mat*content);
Obj* newpoly(Ctx&c,int depth,int nr,int nc,bool content);
Obj* newperm(Ctx&c,int len,int mode);
Obj* mkwindow(Ctx&c,Obj*parent,int r0,int c0,int nr,int nc);
Obj* input(Ctx&c,int kind,int fld,int nr,int nc,const Mat*content=nullptr);
Obj* anyinput(Ctx&c,int kind,int maxvol);
Obj* dest(Ctx&c,int kind,int fld,int nr,int nc,bool allow_null,const Mat*content=nullptr,bool*isnull=nullptr);
Obj* adopt(Ctx&c,int kind,int fld,void*p,const Mat&want,const char*what);
void freeobj(Ctx&c,Obj*o);
void finish_perm(Ctx&c,Obj*p,std::vector<int>&out);
extern bool vast; int dim(Ctx&c); int pickfld(Ctx&c); Mat rndmat(Ctx&c,int fld,int r,int cc,int style=-1);
void sim_unlock(Obj*o,bool unlock);
u64 rawhash(Obj*o); void encode(Obj*o); bool decode(Obj*o,Mat&m,bool*pad,std::string*err);
void resync(Obj*o);
