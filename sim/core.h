// Simulator core: allocator, shadow memory, callbacks, fibers, wraps.
#pragma once
#include "model.h"
#include <setjmp.h>
#include <stddef.h>

#include <errno.h>
enum { EXIT_NONE=0, EXIT_DIE=1, EXIT_INTR=2 };

#define MAXOPS 96
#define MAXGST 32
#define MAXSITE 48
struct OpStat { u64 steps, allocs, digest; int done; int ngst; u32 seen_gst; u64 gst[MAXGST]; u32 kind; u32 flags; int abandoned; int nsite; u32 site[MAXSITE], siteseen[MAXSITE]; u64 siteat[MAXSITE]; };
struct Result {           // shared between child and worker
  int status;             // 0 none(crash) 1 ok 2 violation 3 stopped (outside this property's scope)
  char vclass[160]; char vdetail[600]; int vop; u32 vmask;
  u64 hash; u64 ilv; int nops; int curop; int curmain; char curname[64];
  u64 steps, allocs, switches, fired_alloc, fired_intr, fired_pre, fired_stream, fired_rng, dirtyfills, reuses, knobs, winops, oom_survived, dies_seen, checks, fired_env, fired_lockwait, vtime_ns;
  u64 leaked_expected; int stackover;
  OpStat op[MAXOPS];
};
extern Result* R;

struct EnvCfg { int fill; int reuse; u64 seed; int gap; };
enum { FILL_ZERO=0, FILL_RANDOM=1, FILL_ONES=2, FILL_STALE=3 };

struct Fiber {
  void* sp; char* stk; size_t stksz; int id; bool finished, started; void (*fn)(Fiber*); 
  u64 lib; u64 step, next;                // op-relative step counter, next event
  jmp_buf jb; bool in_op, in_main; 
  // fault plan for the current main call
  u64 slice0; u64 intr_at; u64 alloc_fail_at; int alloc_persist; u64 allocs; u64 budget; u64 maxlive; bool alloc_failed;
  struct Pre { u64 step; int target; } pre[32]; int npre, ipre;
  std::vector<int>* fresh;       // allocations made since the last lock sweep
  std::string* errtext; 
  Rng* rnd; int rndmode; u64 rndcnt; bool rndarmed;
  int curop; bool track_gst;
  std::vector<u8>* tls;
  struct OutStream* out; FILE* so; // where this thread prints
};
extern Fiber* F;                 // running fiber
extern Fiber mainF;

struct Block { uintptr_t p; size_t n; size_t pre, post; bool live; bool locked; int op; int fib; u32 tag; bool base; };
extern std::vector<Block> blocks;

void core_init();                 // once per process, before fork
void core_begin_run(const EnvCfg& e);
void set_env(const EnvCfg&e);
int  find_block(uintptr_t a);     // index of the live block containing a, or -1
int  find_any(uintptr_t a, bool*freed);
void block_lock(int b, bool on);
void range_lock(uintptr_t a, size_t n, bool on);
bool check_redzones(std::string* what);
void redzone_fix(std::string*);
size_t live_nonbase(std::string* what, bool skip_abandoned);
void mark_abandoned_op(int op);
std::string where_abandoned();   // functions the last abandoned operation was in, innermost first
extern bool memviol_enabled, lockviol_enabled;
extern std::string memviol_first, lockviol_first; // recorded, evaluated by the driver
extern u64 memviol_count, lockviol_count;

void fiber_init(Fiber*f,int id,void(*fn)(Fiber*));
void fiber_switch(Fiber* to);
void violation(u32 mask,const char* cls,const char* fmt,...) __attribute__((format(printf,3,4),noreturn));
void finish_child(int status) __attribute__((noreturn));
extern u32 last_guard; extern u32 n_guards; extern u8* covmap; extern const uintptr_t* guard_pcs;
void sched_preempt(int target);   // provided by driver
void stack_garbage(); void op_arm();
extern "C" { extern int sim_l2, sim_l3, sim_mulblock; }
struct OutFault { int mode; u64 limit; u64 seed; int bufmode; };
void out_begin(const OutFault& of);
void out_recover(); std::string out_end();
void err_capture();
