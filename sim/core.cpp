#include <cstdarg>
#include <algorithm>
#include <stdio_ext.h>
#include <elf.h>
#include "core.h"
extern "C" int acc_cache_size(void);
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <unordered_map>
#include <map>
#include <unordered_set>

#define ARENA 0x200000000000ULL
#define ARENA_SZ (12ULL<<30)
#define SHADOW 0x100000000000ULL
#define STACKS 0x300000000000ULL
#define STACKSZ (16ULL<<20)
#define SH_LOCK 0x40

Result* R; Fiber mainF; Fiber* F=&mainF;
u32 last_guard, n_guards; u8* covmap; const uintptr_t* guard_pcs;
bool memviol_enabled=true, lockviol_enabled=true; std::string memviol_first, lockviol_first; u64 memviol_count, lockviol_count, lockviol_shared;
extern "C" { int sim_l2=262144, sim_l3=4194304, sim_mulblock=2048; }

static inline u8& SH(uintptr_t a){ return *(u8*)(SHADOW + ((a-ARENA)>>3)); }
static bool ready=false, running=false;
static uintptr_t bump; static EnvCfg env; static Rng arng(1), erng(2); static u64 vt_ns, vt_mono; // simulated wall clock and monotonic clock
std::vector<Block> blocks __attribute__((init_priority(200)));
static std::unordered_map<uintptr_t,int>* byptr; static std::map<uintptr_t,int>* byaddr;
static std::map<size_t,std::vector<int>>* freelist;
static std::unordered_set<int>* abandoned;
static u64 global_steps;

static void arena_setup(){
  if(ready) return; ready=true;
  void*p=mmap((void*)ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  void*q=mmap((void*)SHADOW,ARENA_SZ>>3,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  if(p==MAP_FAILED||q==MAP_FAILED){ perror("mmap"); _exit(70); }
  bump=ARENA+4096; env.fill=FILL_ZERO; env.reuse=0; env.seed=1; env.gap=0;
  byptr=new std::unordered_map<uintptr_t,int>; byaddr=new std::map<uintptr_t,int>; freelist=new std::map<size_t,std::vector<int>>; abandoned=new std::unordered_set<int>;
  blocks.reserve(4096);
}
void core_init(){ arena_setup(); for(auto&b:blocks) b.base=true; mainF.fresh=new std::vector<int>; mainF.next=~0ULL; mainF.id=-1; mainF.curop=-1; mainF.errtext=new std::string; mainF.rnd=new Rng(7); }
void set_env(const EnvCfg&e){ env=e; arng=Rng(e.seed); erng=Rng(hcomb(e.seed,4711)); vt_ns=(1000000000ULL+erng.below(1u<<30))*1000000000ULL+erng.below(1000000000); vt_mono=erng.below(1u<<30)*1000ULL; }
void core_begin_run(const EnvCfg&e){ running=true; set_env(e); for(auto&b:blocks) b.base=true; if(bump<ARENA+(2ULL<<30)) bump=ARENA+(2ULL<<30); bump+=(arng.below(256))*4096; }

static const u64 RZ=0xa5c3e1f0b4d29687ULL;
static void rz_fill(uintptr_t a,size_t n){ for(size_t i=0;i<n;i++) ((u8*)a)[i]=(u8)(RZ>>(8*((a+i)&7))); }
static bool rz_ok(uintptr_t a,size_t n,uintptr_t*bad){ for(size_t i=0;i<n;i++) if(((u8*)a)[i]!=(u8)(RZ>>(8*((a+i)&7)))){ *bad=a+i; return false; } return true; }
static void content_fill(uintptr_t p,size_t n,bool fresh_page){
  switch(env.fill){
  case FILL_ZERO: memset((void*)p,0,n); break;
  case FILL_ONES: memset((void*)p,0xff,n); break;
  case FILL_STALE: if(fresh_page){ u64 s=arng.next(); for(size_t i=0;i<n;i+=8){ u64 v=(s+i/8)*0x9e3779b97f4a7c15ULL; if((v>>60)<4) v=0x0101010101010101ULL*(v>>56&3); memcpy((void*)(p+i),&v,n-i<8?n-i:8);} } break;
  default: { u64 s=arng.next(); for(size_t i=0;i<n;i+=8){ s^=s<<13; s^=s>>7; s^=s<<17; memcpy((void*)(p+i),&s,n-i<8?n-i:8); } }
  }
  if(env.fill!=FILL_ZERO && R) R->dirtyfills++;
}
static void shadow_set(uintptr_t p,size_t n,u8 full,bool addressable){
  size_t k=n>>3; memset(&SH(p),full,k); if(n&7) (&SH(p))[k]= addressable? (u8)((full&0xF0)|(n&7)) : full;
}
extern "C" { char djb_compile(...); char djb_apply_mzd(...); }
static bool nofail=false;
// remembers for each place which allocates one of its allocations, picked at random
static void note_site(){
  static u64 at=~0ULL; static u32 ord=0; if(F->step!=at){ at=F->step; ord=0; } else if(ord<7) ord++;
  OpStat&q=R->op[F->curop]; u32 key=last_guard*8+ord; int i=0; while(i<q.nsite&&q.site[i]!=key) i++;
  if(i==q.nsite){ if(i==MAXSITE){ if(mix64(F->allocs*31+key)%4) return; i=mix64(F->allocs+key)%MAXSITE; } else q.nsite++; q.site[i]=key; q.siteseen[i]=1; q.siteat[i]=F->allocs; return; }
  if(mix64(F->allocs^key*0x9E3779B9ULL)%(++q.siteseen[i])==0) q.siteat[i]=F->allocs;
}
static bool want_fail(){
  if(nofail||!running||!F->in_main) return false;
  F->allocs++; if(F->track_gst) note_site();
  if(F->alloc_fail_at && (F->allocs==F->alloc_fail_at || (F->alloc_persist && F->allocs>F->alloc_fail_at))){ if(R && !F->alloc_failed) R->fired_alloc++; F->alloc_failed=true; return true; }
  return false;
}
static void* sim_alloc(size_t n,size_t align,bool zero){
  arena_setup();
  if(n>(2ULL<<30)) { errno=ENOMEM; return nullptr; }   // a simulated machine with 2 GB per request
  if(want_fail()){ errno=ENOMEM; return nullptr; }
  if(R&&running) R->allocs++;
  if(align<16) align=16;
  size_t rn=(n+15)&~15ULL; if(!rn) rn=16;
  int bi=-1;
  if(running&&env.reuse){
    auto it=freelist->find(rn);
    if(it!=freelist->end() && !it->second.empty() && (env.reuse>=2 || arng.chance(0.5))){
      auto&v=it->second; size_t k= env.reuse==3? arng.below(v.size()) : v.size()-1; int c=v[k];
      if(blocks[c].p%align==0){ v.erase(v.begin()+k); bi=c; }
    }
  }
  if(bi>=0){ // recycled
    Block nb=blocks[bi]; nb.n=n; nb.live=true; nb.locked=false; nb.base=!running; nb.op=F->curop; nb.fib=F->id; 
    if(R) R->reuses++;
    int ni=blocks.size(); blocks.push_back(nb);
    if(env.fill!=FILL_STALE) content_fill(nb.p,n,false);
    rz_fill(nb.p+n,nb.post+(rn-n)); blocks[ni].post=nb.post; 
    shadow_set(nb.p,n,8,true);
    (*byptr)[nb.p]=ni; (*byaddr)[nb.p]=ni; if(zero) memset((void*)nb.p,0,n);
    if(F->fresh) F->fresh->push_back(ni); return (void*)nb.p;
  }
  size_t pre=32, post=32; if(!running&&n<2048) post=2048; if(running&&env.gap){ pre+=16*arng.below(env.gap+1); post+=16*arng.below(env.gap+1); }
  uintptr_t p=(bump+pre+align-1)/align*align; 
  if(p+rn+post+8192>ARENA+ARENA_SZ){ errno=ENOMEM; return nullptr; }
  Block b; b.p=p; b.n=n; b.pre=p-bump; b.post=post; b.live=true; b.locked=false; b.op=F?F->curop:-1; b.fib=F?F->id:-1; b.tag=0; b.base=!running;
  if(b.pre>256) b.pre=256;
  bump=p+rn+post;
  rz_fill(p-b.pre,b.pre); 
  if(!zero || (env.fill!=FILL_ZERO)) content_fill(p,n,true);
  if(zero) memset((void*)p,0,n);
  rz_fill(p+n,post+(rn-n));
  shadow_set(p,n,8,true);
  int ni=blocks.size(); blocks.push_back(b); (*byptr)[p]=ni; (*byaddr)[p]=ni;
  if(running&&F->fresh) F->fresh->push_back(ni);
  return (void*)p;
}
static void memviol(const char*fmt,...){ char buf[400]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap); if(!memviol_count++) memviol_first=buf; }
static void note_store();
static void lockviol(const char*fmt,...){ if(F->track_gst) note_store(); char buf[400]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap); if(!lockviol_count++) lockviol_first=buf; }
static bool block_rz_ok(Block&b){ uintptr_t bad; size_t rn=(b.n+15)&~15ULL; if(!rn) rn=16;
  if(!rz_ok(b.p-b.pre,b.pre,&bad)){ memviol("write %ld bytes before a %zu-byte allocation",(long)(b.p-bad),b.n); rz_fill(b.p-b.pre,b.pre); return false; }
  if(!rz_ok(b.p+b.n,b.post+(rn-b.n),&bad)){ memviol("write %ld bytes past the end of a %zu-byte allocation",(long)(bad-b.p-b.n),b.n); rz_fill(b.p+b.n,b.post+(rn-b.n)); return false; }
  return true; }
static void sim_free(void*q){
  if(!q) return; uintptr_t p=(uintptr_t)q;
  if(p<ARENA||p>=ARENA+ARENA_SZ){ memviol("free of a pointer that was never allocated"); return; }
  auto it=byptr->find(p); 
  if(it==byptr->end()){ memviol("free of an address that is not the start of an allocation"); return; }
  Block&b=blocks[it->second];
  if(!b.live){ memviol("double free of a %zu-byte allocation",b.n); return; }
  block_rz_ok(b);
  b.live=false; byaddr->erase(p); size_t rn=(b.n+15)&~15ULL; if(!rn) rn=16;
  shadow_set(p,rn,0x80,false);
  if(running){
    if(env.fill!=FILL_STALE && env.reuse==0){ // poison
      size_t m=b.n<65536?b.n:65536; u64 s=mix64(p^env.seed); for(size_t i=0;i+8<=m;i+=8) *(u64*)(p+i)=s+i; }
    if(b.n>=(1u<<20)) { if(!env.reuse){ uintptr_t a=(p+4095)&~4095ULL, e=(p+b.n)&~4095ULL; if(e>a) madvise((void*)a,e-a,MADV_DONTNEED); } }
    if(env.reuse && !b.base) (*freelist)[rn].push_back(it->second);
  }
}
int find_block(uintptr_t a){ auto it=byaddr->upper_bound(a); if(it==byaddr->begin()) return -1; --it; Block&b=blocks[it->second]; if(a<b.p+(b.n?b.n:1)&&b.live) return it->second; return -1; }
void range_lock(uintptr_t a,size_t n,bool on){ if(a<ARENA||a>=ARENA+ARENA_SZ) return; for(uintptr_t x=a&~7ULL;x<a+n;x+=8){ u8&s=SH(x); if(s&0x80) continue; if(on) s|=SH_LOCK; else s&=~SH_LOCK; } }
void block_lock(int i,bool on){ if(i<0) return; Block&b=blocks[i]; if(!b.live) return; b.locked=on; range_lock(b.p,b.n,on); }
bool check_redzones(std::string*what){ (void)what; bool ok=true; for(auto&kv:*byaddr){ Block&b=blocks[kv.second]; if(!b.base) ok&=block_rz_ok(b);} return ok; }
size_t live_nonbase(std::string*what,bool skip){ size_t n=0; std::map<int,int> byop; for(auto&kv:*byaddr){ Block&b=blocks[kv.second]; if(b.base) continue; if(skip&&(abandoned->count(b.op)||(!abandoned->empty()&&(int)b.n==acc_cache_size()))) continue; n++; if(what&&n<=4){ char t[80]; snprintf(t,80,"%zu bytes from op %d; ",b.n,b.op); *what+=t; } } return n; }
void mark_abandoned_op(int op){ abandoned->insert(op); }

// ---------------------------------------------------------------- violations
void finish_child(int status){ R->status=status; R->hash=hcomb(R->hash,status); _exit(0); }
void violation(u32 mask,const char*cls,const char*fmt,...){
  va_list ap; va_start(ap,fmt); vsnprintf(R->vdetail,sizeof R->vdetail,fmt,ap); va_end(ap);
  snprintf(R->vclass,sizeof R->vclass,"%s",cls); R->vop=F->curop; R->vmask=mask; 
  for(const char*c=cls;*c;c++) R->hash=hcomb(R->hash,*c);
  finish_child(2);
}

// ---------------------------------------------------------------- instrumentation callbacks
static void __attribute__((noinline)) event();
#define STEP() do{ if(__builtin_expect(++F->step>=F->next,0)) event(); }while(0)
extern char __bss_start, _end, __data_start;
static void __attribute__((noinline)) bad_access(uintptr_t a,int sz,bool st){
  if(a-ARENA<ARENA_SZ){
    u8 s=SH(a);
    if(st && (s&SH_LOCK) && (s&0xF)==8){ 
      int b=find_block(a); if(b>=0&&(blocks[b].base||blocks[b].op==-2)) lockviol_shared++; lockviol("store of %d bytes to a live object the operation may not write (allocation of %zu bytes made by op %d, offset %ld)",sz,b>=0?blocks[b].n:0,b>=0?blocks[b].op:-1,b>=0?(long)(a-blocks[b].p):0L); return; }
    // exact check
    for(int k=0;k<sz;k++){ uintptr_t x=a+k; u8 t=SH(x); int v=t&0xF; if((int)(x&7)>=v){ 
        memviol("%s of %d bytes at %s memory",st?"store":"load",sz,(t&0x80)?"freed":"unallocated or out-of-bounds"); return; } 
      if(st&&(t&SH_LOCK)){ lockviol("store of %d bytes to a live object the operation may not write",sz); return; } }
    return;
  }
  if(a<65536){ violation(1u<<31,"null-deref","%s of %d bytes through a null or tiny pointer (%#lx)",st?"store":"load",sz,(unsigned long)a); }
}
// where an operation writes static storage, or memory of an object it may only read: the moments worth an interruption
static void note_store(){ if(F->in_main){ OpStat&q=R->op[F->curop]; u32 n=q.seen_gst++; if(q.ngst<MAXGST) q.gst[q.ngst++]=F->step; else { u64 k=mix64(n+F->step)%(n+1); if(k<MAXGST) q.gst[k]=F->step; } } }
static inline void __attribute__((always_inline)) acc(uintptr_t a,int sz,bool st){
  STEP();
  uintptr_t o=a-ARENA;
  if(__builtin_expect(o<ARENA_SZ,1)){ u8 s=*(u8*)(SHADOW+(o>>3)); if(sz<=8){ if(__builtin_expect(((s&(st?0x4F:0x0F))!=8)||((a&7)+sz>8),0)) bad_access(a,sz,st); }
    else { u8 s2=*(u8*)(SHADOW+(o>>3)+1); if((s&(st?0x4F:0xF))!=8||(s2&(st?0x4F:0xF))!=8||(a&7)) bad_access(a,sz,st); } }
  else if(__builtin_expect(a<65536,0)) bad_access(a,sz,st);
  else if(st && F->track_gst && a>=(uintptr_t)&__data_start && a<(uintptr_t)&_end) note_store();
}
extern "C" {
void __sanitizer_cov_load1(u8*p){ acc((uintptr_t)p,1,false);} void __sanitizer_cov_load2(u16*p){ acc((uintptr_t)p,2,false);}
void __sanitizer_cov_load4(u32*p){ acc((uintptr_t)p,4,false);} void __sanitizer_cov_load8(u64*p){ acc((uintptr_t)p,8,false);}
void __sanitizer_cov_load16(void*p){ acc((uintptr_t)p,16,false);}
void __sanitizer_cov_store1(u8*p){ acc((uintptr_t)p,1,true);} void __sanitizer_cov_store2(u16*p){ acc((uintptr_t)p,2,true);}
void __sanitizer_cov_store4(u32*p){ acc((uintptr_t)p,4,true);} void __sanitizer_cov_store8(u64*p){ acc((uintptr_t)p,8,true);}
void __sanitizer_cov_store16(void*p){ acc((uintptr_t)p,16,true);}
void __sanitizer_cov_trace_pc_guard_init(u32*a,u32*b){ if(a==b||*a) return; for(u32*x=a;x<b;x++) *x=++n_guards; }
void __sanitizer_cov_pcs_init(const uintptr_t*a,const uintptr_t*b){ static const uintptr_t*seen=nullptr; if(a==seen) return; seen=a; guard_pcs=a; }
void __sanitizer_cov_trace_pc_guard(u32*g){ STEP(); last_guard=*g; if(covmap) covmap[*g]=1; }
}
void sim_step1(){ STEP(); }
// libc calls made by the library (renamed in its object files): each is one event, and the bytes it
// touches are checked like the library's own accesses
static void bytes(const void*p,size_t n,bool st){
  uintptr_t a=(uintptr_t)p; if(!n) return; F->lib+=n/8+1;
  if(a-ARENA>=ARENA_SZ){ acc(a,1,st); return; }
  STEP(); uintptr_t e=a+n; for(;a<e&&(a&7);a++) { u8 s=SH(a); int v=s&0xF; if((int)(a&7)>=v||(st&&(s&SH_LOCK))){ bad_access(a,1,st); return; } }
  for(;a+8<=e;a+=8){ u8 s=SH(a); if((s&(st?0x4F:0x0F))!=8){ bad_access(a,8,st); return; } }
  for(;a<e;a++){ u8 s=SH(a); if((int)(a&7)>=(s&0xF)||(st&&(s&SH_LOCK))){ bad_access(a,1,st); return; } } }
extern "C" {
void*sim_memset(void*d,int c,size_t n){ bytes(d,n,true); return memset(d,c,n); }
void*sim_memcpy(void*d,const void*s,size_t n){ bytes(s,n,false); bytes(d,n,true); return memmove(d,s,n); }
void*sim_memmove(void*d,const void*s,size_t n){ bytes(s,n,false); bytes(d,n,true); return memmove(d,s,n); }
int sim_memcmp(const void*a,const void*b,size_t n){ size_t k=0; while(k<n&&((const u8*)a)[k]==((const u8*)b)[k]) k++; if(k<n) k++; bytes(a,k,false); bytes(b,k,false); return memcmp(a,b,k); }
int sim_bcmp(const void*a,const void*b,size_t n){ return sim_memcmp(a,b,n); }
size_t sim_strlen(const char*s){ size_t n=strlen(s); bytes(s,n+1,false); return n; }
char*sim_strcpy(char*d,const char*s){ size_t n=strlen(s)+1; bytes(s,n,false); bytes(d,n,true); return (char*)memmove(d,s,n); }
int sim_vsprintf(char*d,const char*f,va_list v){ va_list w; va_copy(w,v); int n=vsnprintf(nullptr,0,f,w); va_end(w); if(n>=0) bytes(d,n+1,true); n=vsprintf(d,f,v); STEP(); return n; }
int sim_vsnprintf(char*d,size_t k,const char*f,va_list v){ va_list w; va_copy(w,v); int n=vsnprintf(nullptr,0,f,w); va_end(w); if(n>=0&&k) bytes(d,std::min<size_t>(k,n+1),true); n=vsnprintf(d,k,f,v); STEP(); return n; }
int sim_sprintf(char*d,const char*f,...){ va_list v; va_start(v,f); int n=sim_vsprintf(d,f,v); va_end(v); return n; }
int sim_snprintf(char*d,size_t k,const char*f,...){ va_list v; va_start(v,f); int n=sim_vsnprintf(d,k,f,v); va_end(v); return n; }
int sim_printf(const char*f,...){ STEP(); va_list v; va_start(v,f); int n=vfprintf(stdout,f,v); va_end(v); return n; }
int sim_fprintf(FILE*o,const char*f,...){ STEP(); va_list v; va_start(v,f); int n=vfprintf(o,f,v); va_end(v); return n; }
int sim_puts(const char*s){ STEP(); if(fputs(s,stdout)<0) return EOF; return fputc('\n',stdout); }
int sim_putchar(int c){ STEP(); return fputc(c,stdout); }
int sim_fputc(int c,FILE*o){ STEP(); return fputc(c,o); }
int sim_putc(int c,FILE*o){ STEP(); return fputc(c,o); }
int sim_fputs(const char*s,FILE*o){ STEP(); return fputs(s,o); }
size_t sim_fwrite(const void*p,size_t a,size_t b,FILE*o){ bytes(p,a*b,false); return fwrite(p,a,b,o); }
}
void sim_range(uintptr_t a,size_t n,int st,const char*fn){ (void)fn;
  if(a-ARENA>=ARENA_SZ){ if(a<65536&&n) bad_access(a,8,st); return; }
  for(size_t i=0;i<n;i++,a+=8){ u8 s=SH(a); if((s&(st?0x4F:0x0F))!=8) { bad_access(a,8,st); return; } } }
#define SLICE_STEPS 100000000ULL
static void recompute_next(){
  u64 n=F->budget; if(F->in_main&&F->slice0+SLICE_STEPS<n) n=F->slice0+SLICE_STEPS; // nobody runs for ever while others wait
  if(F->intr_at&&F->intr_at<n) n=F->intr_at;
  if(F->ipre<F->npre && F->pre[F->ipre].step<n) n=F->pre[F->ipre].step;
  F->next=n;
}
void op_arm(){ recompute_next(); }
// Where the running operation was abandoned: return addresses, innermost first.
static uintptr_t intr_pc[10]; static int intr_npc;
static void __attribute__((noinline)) note_stack(){
  intr_npc=0; uintptr_t*fp=(uintptr_t*)__builtin_frame_address(0), lo=(uintptr_t)fp, hi=(uintptr_t)F->stk+F->stksz;
  while(intr_npc<10){ if((uintptr_t)fp<lo||(uintptr_t)fp+16>hi||((uintptr_t)fp&7)) break; intr_pc[intr_npc++]=fp[1]; uintptr_t*up=(uintptr_t*)fp[0]; if(up<=fp) break; fp=up; } }
struct Sym { uintptr_t a; size_t n; std::string s; };
static std::string sym_name(uintptr_t pc){
  static std::vector<Sym>*tab=nullptr;
  if(!tab){ tab=new std::vector<Sym>; FILE*f=fopen("/proc/self/exe","rb"); if(f){ Elf64_Ehdr e; if(fread(&e,sizeof e,1,f)==1){ std::vector<Elf64_Shdr> sh(e.e_shnum); fseek(f,e.e_shoff,SEEK_SET); if(fread(sh.data(),sizeof(Elf64_Shdr),e.e_shnum,f)==e.e_shnum) for(auto&s:sh) if(s.sh_type==SHT_SYMTAB){
      std::vector<Elf64_Sym> y(s.sh_size/sizeof(Elf64_Sym)); std::vector<char> st(sh[s.sh_link].sh_size+1); fseek(f,s.sh_offset,SEEK_SET); if(fread(y.data(),1,s.sh_size,f)!=s.sh_size) break; fseek(f,sh[s.sh_link].sh_offset,SEEK_SET); if(fread(st.data(),1,sh[s.sh_link].sh_size,f)!=sh[s.sh_link].sh_size) break;
      for(auto&q:y) if(ELF64_ST_TYPE(q.st_info)==STT_FUNC) tab->push_back({q.st_value,q.st_size,&st[q.st_name]}); } } fclose(f); } }
  for(auto&q:*tab) if(pc-1>=q.a&&pc-1<q.a+q.n) return q.s; return ""; }
std::string where_abandoned(){ std::string r; for(int i=0;i<intr_npc;i++){ std::string s=sym_name(intr_pc[i]); if(s.compare(0,7,"__sanit")==0||s.compare(0,2,"_Z")==0||s.compare(0,4,"sim_")==0){ if(r.empty()) continue; break; } if(s.empty()) break; if(!r.empty()) r+="<"; r+=s; } return r; }
static void event(){
  if(!F->in_op){ F->next=~0ULL; return; }
  if(!F->in_main){ if(F->step>=F->budget) violation(1u<<30,"no-progress","operation set-up exceeded %lu steps",(unsigned long)F->budget); return; }
  while(F->ipre<F->npre && F->pre[F->ipre].step<=F->step){ int t=F->pre[F->ipre].target; F->ipre++; recompute_next(); sched_preempt(t); }
  if(F->intr_at && F->step>=F->intr_at){ F->intr_at=0; R->fired_intr++; note_stack(); recompute_next(); longjmp(F->jb,EXIT_INTR); }
  if(F->step>=F->budget) violation(1u<<30,"no-progress","operation %s still running after %lu steps",R->curname,(unsigned long)F->budget);
  if(F->step-F->slice0>=SLICE_STEPS){ F->slice0=F->step; sched_preempt(F->id+1); }
  recompute_next();
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_ctx_switch(void**save,void*to);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_ctx_switch,.-sim_ctx_switch
)");
static size_t tls_size; static char* tls_base;
static int tls_cb(struct dl_phdr_info*i,size_t,void*){ static bool first=true; if(!first) return 0; first=false; for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_TLS){ size_t al=i->dlpi_phdr[k].p_align; if(al<1) al=1; tls_size=i->dlpi_phdr[k].p_memsz; size_t off=(tls_size+al-1)/al*al; char*tp; asm("mov %%fs:0,%0":"=r"(tp)); tls_base=tp-off; } return 0; }
static void fiber_entry(){ F->fn(F); F->finished=true; for(;;) fiber_switch(&mainF); }
void fiber_init(Fiber*f,int id,void(*fn)(Fiber*)){
  static bool once=false; if(!once){ once=true; dl_iterate_phdr(tls_cb,nullptr); }
  f->id=id; f->stksz=STACKSZ; f->stk=(char*)(STACKS+(u64)id*(STACKSZ+(1<<20)));
  void*p=mmap(f->stk,STACKSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if(p==MAP_FAILED){ perror("stack"); _exit(70); }
  f->fn=fn; f->finished=false; f->started=false; f->fresh=new std::vector<int>; f->errtext=new std::string; f->rnd=new Rng(1); f->next=~0ULL; f->budget=~0ULL; f->tls=new std::vector<u8>;
  if(tls_size){ f->tls->assign(tls_base,tls_base+tls_size); }
  void**sp=(void**)(f->stk+STACKSZ-64); *--sp=nullptr; *--sp=(void*)fiber_entry; for(int i=0;i<6;i++) *--sp=nullptr; f->sp=sp;
}
static FILE* real_stdout;
void fiber_switch(Fiber*to){ if(!real_stdout) real_stdout=stdout; Fiber*from=F; if(from==to) return; 
  if(tls_size){ if(!from->tls) from->tls=new std::vector<u8>(tls_size); from->tls->assign(tls_base,tls_base+tls_size); if(to->tls&&to->tls->size()==tls_size) memcpy(tls_base,to->tls->data(),tls_size); }
  from->so=stdout; F=to; stdout=to->so?to->so:real_stdout; sim_ctx_switch(&from->sp,to->sp); }
void __attribute__((noinline)) stack_garbage(){ volatile u64 buf[8192]; u64 s= env.fill==FILL_ZERO?0:arng.next(); for(int i=0;i<8192;i++){ buf[i]= env.fill==FILL_ONES? ~0ULL : s; s= s? s*6364136223846793005ULL+1442695040888963407ULL:0; } asm volatile(""::"r"(buf):"memory"); }

// ---------------------------------------------------------------- seams (linker --wrap)
static void die_now(const char*what) __attribute__((noreturn));
static void die_now(const char*what){
  fflush(stderr);
  if(F->in_op){ R->dies_seen++; if(what) *F->errtext+=what; longjmp(F->jb,EXIT_DIE); }
  fprintf(stdout,"process stopped outside an operation: %s %s\n",what?what:"",F->errtext?F->errtext->c_str():""); fflush(stdout); _exit(71);
}
extern "C" {
void* __wrap_malloc(size_t n){ return sim_alloc(n,16,false); }
void* __wrap_calloc(size_t a,size_t b){ if(b && a>(size_t)-1/b){ errno=ENOMEM; return nullptr;} return sim_alloc(a*b,16,true); }
int __wrap_posix_memalign(void**p,size_t al,size_t n){ void*q=sim_alloc(n,al,false); if(!q) return ENOMEM; *p=q; return 0; }
void* __wrap_aligned_alloc(size_t al,size_t n){ return sim_alloc(n,al,false); }
void* __wrap_memalign(size_t al,size_t n){ return sim_alloc(n,al,false); }
void __wrap_free(void*p){ sim_free(p); }
// libm4ri's djb_compile does not check its reallocations; that is not m4rie's failure, so they never fail here
void* __wrap_realloc(void*p,size_t n){ uintptr_t ra=(uintptr_t)__builtin_return_address(0); struct NF{ bool o; NF(bool b):o(nofail){ if(b) nofail=true; } ~NF(){ nofail=o; } } nf(ra>=(uintptr_t)&djb_compile&&ra<(uintptr_t)&djb_apply_mzd);
  if(!p) return sim_alloc(n,16,false); auto it=byptr->find((uintptr_t)p); size_t old= it!=byptr->end()&&blocks[it->second].live? blocks[it->second].n:0; if(!old) memviol("realloc of a pointer that is not a live allocation");
  void*q=sim_alloc(n,16,false); if(!q) return nullptr; memcpy(q,p,old<n?old:n); sim_free(p); return q; }
void m4ri_die(const char*,...);
void* __wrap_m4ri_mmc_malloc(size_t n){ void*p=sim_alloc(n,64,false); if(!p&&n) m4ri_die("m4ri_mm_malloc: malloc returned NULL\n"); return p; }
void __wrap_m4ri_mmc_free(void*p,size_t){ sim_free(p); }
void __wrap_abort(){ die_now(nullptr); }
void __wrap_exit(int c){ if(F->in_op){ char t[32]; snprintf(t,32,"[exit %d]",c); die_now(t);} _exit(c); }
void __wrap_raise_abort(){ die_now("[raise]"); }
void __wrap___assert_fail(const char*e,const char*f,unsigned l,const char*){ char t[300]; snprintf(t,300,"assertion failed: %s",e); (void)f;(void)l; die_now(t); }
// randomising operations own their stream; for everything else the generator's state is part of the environment
static long rnd31(){ if(!F->rndarmed){ if(R) R->fired_env++; return (long)(erng.next()>>33); }
  if(R) R->fired_rng++; F->rndcnt++; switch(F->rndmode){ case 1: return 0x7fffffff; case 2: return 0; case 3: return (F->rndcnt&1)?0x55555555&0x7fffffff:0x2aaaaaaa; default: return (long)(F->rnd->next()>>33); } }
long __wrap_random(){ return rnd31(); } int __wrap_rand(){ return (int)rnd31(); } long __wrap_lrand48(){ return rnd31(); }
long __wrap_mrand48(){ return (int)(rnd31()<<1); } double __wrap_drand48(){ return rnd31()/2147483648.0; }
static void reseed(u64 s){ if(R) R->fired_env++; if(F->rndarmed) *F->rnd=Rng(s); else erng=Rng(s); }
void __wrap_srandom(unsigned s){ reseed(s); } void __wrap_srand(unsigned s){ reseed(s); } void __wrap_srand48(long s){ reseed(s); }
// clocks: every query moves them by an amount the environment seed decides; the wall clock sometimes jumps, either way
static void tick(){ R->fired_env++; u64 d=1+erng.below(5000); if(erng.chance(0.1)) d+=erng.below(2000000000); vt_mono+=d; vt_ns+=d; if(erng.chance(0.1)) vt_ns+= erng.below(7200)*1000000000ULL-3600*1000000000ULL; R->vtime_ns+=d; }
#define SIMULATED (running&&F->in_op)
int __real_clock_gettime(clockid_t,struct timespec*); time_t __real_time(time_t*); clock_t __real_clock(); int __real_gettimeofday(struct timeval*,void*);
int __wrap_clock_gettime(clockid_t k,struct timespec*t){ if(!SIMULATED) return __real_clock_gettime(k,t); tick(); u64 v=k==CLOCK_REALTIME?vt_ns:vt_mono; t->tv_sec=v/1000000000; t->tv_nsec=v%1000000000; return 0; }
time_t __wrap_time(time_t*o){ if(!SIMULATED) return __real_time(o); tick(); time_t r=vt_ns/1000000000; if(o) *o=r; return r; }
clock_t __wrap_clock(){ if(!SIMULATED) return __real_clock(); tick(); return vt_mono/1000; }
int __wrap_gettimeofday(struct timeval*t,void*z){ if(!SIMULATED) return __real_gettimeofday(t,z); tick(); t->tv_sec=vt_ns/1000000000; t->tv_usec=vt_ns/1000%1000000; return 0; }
char*__real_getenv(const char*); static char envval[16];
char*__wrap_getenv(const char*n){ if(!SIMULATED) return __real_getenv(n); R->fired_env++; switch(erng.below(4)){ case 0: return nullptr; case 1: snprintf(envval,16,"0"); break; case 2: snprintf(envval,16,"1"); break; default: snprintf(envval,16,"%u",(unsigned)erng.below(10000)); } return envval; }
char*__wrap_secure_getenv(const char*n){ return __wrap_getenv(n); }
long __real_sysconf(int); long __wrap_sysconf(int k){ if(!SIMULATED||k==_SC_PAGESIZE) return __real_sysconf(k); R->fired_env++; return erng.chance(0.1)?-1:(long)1<<erng.below(24); }
pid_t __real_getpid(); pid_t __wrap_getpid(){ if(!SIMULATED) return __real_getpid(); R->fired_env++; return 2+erng.below(30000); }
ssize_t __wrap_getrandom(void*b,size_t n,unsigned){ R->fired_env++; for(size_t i=0;i<n;i++) ((u8*)b)[i]=erng.next()>>56; return n; }
// blocking calls hand over to another simulated thread
static void give_way(){ if(SIMULATED&&F->in_main) sched_preempt(F->id+1); }
int __wrap_sched_yield(){ give_way(); return 0; } int __wrap_usleep(useconds_t u){ vt_ns+=u*1000ULL; vt_mono+=u*1000ULL; if(R) R->vtime_ns+=u*1000ULL; give_way(); return 0; }
unsigned __wrap_sleep(unsigned s){ vt_ns+=s*1000000000ULL; vt_mono+=s*1000000000ULL; if(R) R->vtime_ns+=s*1000000000ULL; give_way(); return 0; }
int __wrap_nanosleep(const struct timespec*t,struct timespec*){ u64 d=t->tv_sec*1000000000ULL+t->tv_nsec; vt_ns+=d; vt_mono+=d; if(R) R->vtime_ns+=d; give_way(); return 0; }
struct SimMx { int owner=-1000,count=0; }; static std::map<void*,SimMx>* mxs;
static int mx_lock(pthread_mutex_t*m,bool wait){ if(!mxs) mxs=new std::map<void*,SimMx>; SimMx&x=(*mxs)[m]; int me=F->id; u64 n=0;
  while(x.count&&x.owner!=me){ if(!wait) return EBUSY; R->fired_lockwait++; F->step++; give_way(); if(x.count&&x.owner!=me&&n++>100000) violation(1u<<30,"no-progress","%s waits for ever for a lock",R->curname); }
  if(x.count&&(m->__data.__kind&3)!=PTHREAD_MUTEX_RECURSIVE_NP){ if(!wait) return EBUSY; violation(1u<<30,"no-progress","%s locks a mutex it already holds",R->curname); }
  x.owner=me; x.count++; return 0; }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*,void(*)());
int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ return running?mx_lock(m,true):__real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ return running?mx_lock(m,false):__real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){ if(!running) return __real_pthread_mutex_unlock(m); SimMx&x=(*mxs)[m]; if(x.count) x.count--; return 0; }
int __wrap_pthread_once(pthread_once_t*o,void(*f)()){ if(!running) return __real_pthread_once(o,f); u64 n=0; while(*o==1){ R->fired_lockwait++; give_way(); if(n++>100000) violation(1u<<30,"no-progress","%s waits for ever for a one-time initialisation",R->curname); } if(*o==0){ *o=1; f(); *o=2; } return 0; }
}
// error stream capture
static ssize_t err_write(void*,const char*b,size_t n){ if(F->errtext && F->errtext->size()<4096) F->errtext->append(b,n); return n; }
// output stream with faults
struct OutStream { OutFault of; std::string buf; Rng rng{1}; FILE*saved,*file; };
static OutStream& OS(){ if(!F->out) F->out=new OutStream; return *F->out; }
// plays the part of libc's write loop over a descriptor: short writes are continued, errors end the attempt
static ssize_t out_write(void*os,const char*b,size_t n){
  OutFault&of=((OutStream*)os)->of; std::string&outbuf=((OutStream*)os)->buf; Rng&orng=((OutStream*)os)->rng;
  size_t done=0;
  if(of.mode==4 && orng.chance(0.3)){ R->fired_stream++; errno=EINTR; return 0; }
  while(done<n){
    size_t k=n-done;
    if(of.mode==1||of.mode==3){ size_t q=1+orng.below(7); if(q<k){ k=q; R->fired_stream++; } }
    if((of.mode==2||of.mode==3)&&outbuf.size()+k>of.limit){ k=of.limit>outbuf.size()?of.limit-outbuf.size():0; R->fired_stream++; if(!k){ errno=ENOSPC; return done; } }
    outbuf.append(b+done,k); done+=k;
  }
  return done;
}
void out_begin(const OutFault&o){ OutStream&s=OS(); s.of=o; s.buf.clear(); s.rng=Rng(o.seed); cookie_io_functions_t c={nullptr,out_write,nullptr,nullptr}; s.file=fopencookie(&s,"w",c); 
  if(o.bufmode==0) setvbuf(s.file,nullptr,_IONBF,0); else if(o.bufmode==1) setvbuf(s.file,nullptr,_IOLBF,64); 
  s.saved=stdout; stdout=s.file; }
std::string out_end(){ OutStream&s=OS(); fflush(s.file); stdout=s.saved; if(s.of.mode==0) fclose(s.file); return s.buf; }
// the same stream works again; what it still held is dropped, its error flag stays set
void out_recover(){ OutStream&s=OS(); s.saved=stdout; __fpurge(s.file); s.buf.clear(); s.of.mode=0; stdout=s.file; }
void err_capture(){ cookie_io_functions_t c={nullptr,err_write,nullptr,nullptr}; FILE*f=fopencookie(nullptr,"w",c); setvbuf(f,nullptr,_IONBF,0); stderr=f; }

