#include "config.h"
#include <m4ri/m4ri.h>
#include <m4rie/m4rie.h>
#include <m4rie/blm.h>
#include <m4rie/mzd_ptr.h>
#include "acc.h"
void acc_mzd(const void*m_, XV*o){ const mzd_t*m=(const mzd_t*)m_; o->rows=(uint64_t**)m->rows; o->nrows=m->nrows; o->ncols=m->ncols; o->width=m->width; o->high_bitmask=m->high_bitmask; o->rowstride=m->rowstride; o->hdr=(void*)m; }
void acc_mzed(const void*m_, MV*o){ const mzed_t*m=(const mzed_t*)m_; o->kind=0; o->nrows=m->nrows; o->ncols=m->ncols; o->w=m->w; o->depth=0; o->ff=(void*)m->finite_field; o->nx=1; acc_mzd(m->x,&o->x[0]); }
void acc_slice(const void*m_, MV*o){ const mzd_slice_t*m=(const mzd_slice_t*)m_; o->kind=1; o->nrows=m->nrows; o->ncols=m->ncols; o->w=1; o->depth=m->depth; o->ff=(void*)m->finite_field; o->nx=m->depth>16?16:m->depth; for(int i=0;i<o->nx;i++) acc_mzd(m->x[i],&o->x[i]); }
void acc_poly(const void*m_, MV*o){ const mzd_poly_t*m=(const mzd_poly_t*)m_; o->kind=2; o->nrows=m->nrows; o->ncols=m->ncols; o->w=1; o->depth=m->depth; o->ff=0; o->nx=m->depth>140?140:m->depth; for(int i=0;i<o->nx;i++) acc_mzd(m->x[i],&o->x[i]); }
int acc_perm(const void*p_, int**v){ const mzp_t*p=(const mzp_t*)p_; *v=(int*)p->values; return p->length; }
int acc_ff_degree(const void*f){ return ((const gf2e*)f)->degree; }
uint64_t acc_ff_minpoly(const void*f){ return ((const gf2e*)f)->minpoly; }
void* acc_ff_red(const void*f){ return ((const gf2e*)f)->red; }
static uint64_t hc(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); return h*0xbf58476d1ce4e5b9ULL; }
uint64_t acc_ff_hash(const void*f_){ const gf2e*f=(const gf2e*)f_; uint64_t h=hc(f->degree,f->minpoly);
  for(int i=0;i<f->degree*2;i++) if(f->pow_gen && i<2*f->degree-1) h=hc(h,f->pow_gen[i]);
  if(f->_mul) for(int i=0;i<(1<<f->degree);i++) for(int j=0;j<(1<<f->degree);j++) h=hc(h,f->_mul[i][j]); return h; }
void*acc_njt_Lp(const void*t){ return ((const njt_mzed_t*)t)->L; }
void*acc_poly_x(const void*p){ return ((const mzd_poly_t*)p)->x; }
int acc_njt_L(const void*t,int a){ return ((const njt_mzed_t*)t)->L[a]; }
void*acc_njt_M(const void*t){ return ((const njt_mzed_t*)t)->M; }
void*acc_njt_T(const void*t){ return ((const njt_mzed_t*)t)->T; }
void*acc_blm_part(const void*b_,int k){ const blm_t*b=(const blm_t*)b_; return k==0?b->F:k==1?b->G:b->H; }
int acc_blm_compiled(const void*b_){ const blm_t*b=(const blm_t*)b_; return b->f!=0&&b->g!=0&&b->h!=0; }
uint64_t acc_blm_hash(const void*b_){ const blm_t*b=(const blm_t*)b_; uint64_t h=1; const mzd_t*M[3]={b->F,b->G,b->H};
  for(int k=0;k<3;k++) if(M[k]){ h=hc(h,M[k]->nrows); h=hc(h,M[k]->ncols); for(int i=0;i<M[k]->nrows;i++) for(int j=0;j<M[k]->width;j++) h=hc(h,M[k]->rows[i][j]); }
  const djb_t*D[3]={b->f,b->g,b->h}; for(int k=0;k<3;k++) if(D[k]){ h=hc(h,D[k]->length); for(int i=0;i<D[k]->length;i++){ h=hc(h,D[k]->target[i]); h=hc(h,D[k]->source[i]); h=hc(h,D[k]->srctyp[i]); } }
  return h; }
typedef struct { mzd_t mzd[64]; void*prev; void*next; uint64_t used; unsigned char padding[sizeof(mzd_t)-2*sizeof(void*)-sizeof(uint64_t)]; } cache_like;
int acc_cache_size(void){ return (int)sizeof(cache_like); }
void acc_poly_setdepth(void*p,int d){ ((mzd_poly_t*)p)->depth=d; }
int acc_strassen_cutoff(const void*C,const void*A,const void*B){ return _mzed_strassen_cutoff((const mzed_t*)C,(const mzed_t*)A,(const mzed_t*)B); }
uint64_t acc_irreducible(int d,int i){ return irreducible_polynomials[d][i]; }

/* ---- seams at the boundary to libm4ri: each call is one atomic simulator event (a yield,
 * interrupt and budget point) whose destination rows must be live and writable and whose source
 * rows must be live. */
void sim_lib_event(void);
void sim_lib_range(uintptr_t a,size_t nwords,int store,const char*fn);
static void dst(const mzd_t*m,const char*fn){ if(!m) return; for(int i=0;i<m->nrows;i++) sim_lib_range((uintptr_t)m->rows[i],m->width,1,fn); }
static void dstrows(const mzd_t*m,int a,int b,const char*fn){ for(int i=a;i<b&&i<m->nrows;i++) if(i>=0) sim_lib_range((uintptr_t)m->rows[i],m->width,1,fn); }
static void src(const mzd_t*m,const char*fn){ if(!m) return; for(int i=0;i<m->nrows;i++) sim_lib_range((uintptr_t)m->rows[i],m->width,0,fn); }
void sim_lib_work(unsigned long long);
/* work done inside libm4ri, in words */
static void prod(const mzd_t*A,const mzd_t*B){ if(A&&B) sim_lib_work((unsigned long long)A->nrows*A->ncols/8*B->width); }
static void cube(const mzd_t*A){ if(A) sim_lib_work((unsigned long long)A->nrows*A->ncols/8*A->width); }
static void col(const mzd_t*m,int c,const char*fn){ if(m&&c>=0&&c<m->ncols) for(int i=0;i<m->nrows;i++) sim_lib_range((uintptr_t)(m->rows[i]+c/64),1,1,fn); }
#define E sim_lib_event()
#define W3(fn) mzd_t*__real_##fn(mzd_t*,mzd_t const*,mzd_t const*); mzd_t*__wrap_##fn(mzd_t*C,mzd_t const*A,mzd_t const*B){ E; dst(C,#fn); src(A,#fn); src(B,#fn); return __real_##fn(C,A,B); }
W3(mzd_add) W3(_mzd_add) W3(mzd_concat) W3(mzd_stack)
#define W4(fn) mzd_t*__real_##fn(mzd_t*,mzd_t const*,mzd_t const*,int); mzd_t*__wrap_##fn(mzd_t*C,mzd_t const*A,mzd_t const*B,int k){ E; dst(C,#fn); src(A,#fn); src(B,#fn); prod(A,B); return __real_##fn(C,A,B,k); }
W4(mzd_mul) W4(mzd_addmul)
#define W2(fn) mzd_t*__real_##fn(mzd_t*,mzd_t const*); mzd_t*__wrap_##fn(mzd_t*C,mzd_t const*A){ E; dst(C,#fn); src(A,#fn); return __real_##fn(C,A); }
W2(mzd_copy) W2(mzd_transpose)
#define WP(fn) void __real_##fn(mzd_t*,mzp_t const*); void __wrap_##fn(mzd_t*A,mzp_t const*P){ E; dst(A,#fn); __real_##fn(A,P); }
WP(mzd_apply_p_left) WP(mzd_apply_p_left_trans) WP(mzd_apply_p_right) WP(mzd_apply_p_right_trans) WP(mzd_apply_p_right_trans_tri)
/* these stop at the first row that decides */
static void rd(const mzd_t*m,int i,const char*fn){ sim_lib_range((uintptr_t)m->rows[i],m->width,0,fn); }
static int same(const mzd_t*A,const mzd_t*B,int i){ word d=0; int w=A->width; for(int j=0;j<w;j++) d|=(A->rows[i][j]^B->rows[i][j])&(j==w-1?A->high_bitmask:~(word)0); return !d; }
static void scan2(const mzd_t*A,const mzd_t*B,const char*fn){ if(!A||!B||A==B||A->nrows!=B->nrows||A->ncols!=B->ncols||!A->width) return; for(int i=0;i<A->nrows;i++){ rd(A,i,fn); rd(B,i,fn); if(!same(A,B,i)) break; } }
int __real_mzd_cmp(mzd_t const*,mzd_t const*); int __wrap_mzd_cmp(mzd_t const*A,mzd_t const*B){ E; scan2(A,B,"mzd_cmp"); return __real_mzd_cmp(A,B); }
int __real_mzd_equal(mzd_t const*,mzd_t const*); int __wrap_mzd_equal(mzd_t const*A,mzd_t const*B){ E; scan2(A,B,"mzd_equal"); return __real_mzd_equal(A,B); }
int __real_mzd_is_zero(mzd_t const*); int __wrap_mzd_is_zero(mzd_t const*A){ E; if(A&&A->width) for(int i=0;i<A->nrows;i++){ rd(A,i,"mzd_is_zero"); word d=0; for(int j=0;j<A->width;j++) d|=A->rows[i][j]&(j==A->width-1?A->high_bitmask:~(word)0); if(d) break; } return __real_mzd_is_zero(A); }
void __real_mzd_col_swap(mzd_t*,rci_t,rci_t); void __wrap_mzd_col_swap(mzd_t*M,rci_t a,rci_t b){ E; col(M,a,"mzd_col_swap"); if(b/64!=a/64) col(M,b,"mzd_col_swap"); __real_mzd_col_swap(M,a,b); }
void __real_mzd_copy_row(mzd_t*,rci_t,mzd_t const*,rci_t); void __wrap_mzd_copy_row(mzd_t*B,rci_t i,mzd_t const*A,rci_t j){ E; dstrows(B,i,i+1,"mzd_copy_row"); __real_mzd_copy_row(B,i,A,j); }
void __real_mzd_row_add(mzd_t*,rci_t,rci_t); void __wrap_mzd_row_add(mzd_t*M,rci_t s,rci_t d){ E; dstrows(M,d,d+1,"mzd_row_add"); __real_mzd_row_add(M,s,d); }
void __real_mzd_randomize(mzd_t*); void __wrap_mzd_randomize(mzd_t*M){ E; dst(M,"mzd_randomize"); __real_mzd_randomize(M); }
void __real_mzd_set_ui(mzd_t*,unsigned); void __wrap_mzd_set_ui(mzd_t*M,unsigned v){ E; dst(M,"mzd_set_ui"); __real_mzd_set_ui(M,v); }
mzd_t*__real_mzd_submatrix(mzd_t*,mzd_t const*,rci_t,rci_t,rci_t,rci_t); mzd_t*__wrap_mzd_submatrix(mzd_t*S,mzd_t const*M,rci_t a,rci_t b,rci_t c,rci_t d){ E; dst(S,"mzd_submatrix"); src(M,"mzd_submatrix"); return __real_mzd_submatrix(S,M,a,b,c,d); }
void __real__mzd_compress_l(mzd_t*,rci_t,rci_t,rci_t); void __wrap__mzd_compress_l(mzd_t*A,rci_t r1,rci_t n1,rci_t r2){ E; dst(A,"_mzd_compress_l"); __real__mzd_compress_l(A,r1,n1,r2); }
rci_t __real_mzd_ple(mzd_t*,mzp_t*,mzp_t*,int); rci_t __wrap_mzd_ple(mzd_t*A,mzp_t*P,mzp_t*Q,int c){ E; dst(A,"mzd_ple"); cube(A); return __real_mzd_ple(A,P,Q,c); }
mzd_t*__real_mzd_inv_m4ri(mzd_t*,mzd_t const*,int); mzd_t*__wrap_mzd_inv_m4ri(mzd_t*D,mzd_t const*S,int k){ E; dst(D,"mzd_inv_m4ri"); src(S,"mzd_inv_m4ri"); cube(S); return __real_mzd_inv_m4ri(D,S,k); }
mzd_t*__real_mzd_init_window(mzd_t*,rci_t,rci_t,rci_t,rci_t); mzd_t*__wrap_mzd_init_window(mzd_t*M,rci_t a,rci_t b,rci_t c,rci_t d){ E; return __real_mzd_init_window(M,a,b,c,d); }
mzd_t*__real_mzd_init(rci_t,rci_t); mzd_t*__wrap_mzd_init(rci_t a,rci_t b){ E; sim_lib_work((unsigned long long)a*(b/64+1)); return __real_mzd_init(a,b); }
void __real_mzd_free(mzd_t*); void __wrap_mzd_free(mzd_t*M){ E; __real_mzd_free(M); }
void __real_mzd_process_rows(mzd_t*,rci_t,rci_t,rci_t,int,mzd_t const*,rci_t const*);
void __wrap_mzd_process_rows(mzd_t*M,rci_t a,rci_t b,rci_t c,int k,mzd_t const*T,rci_t const*L){ E; dstrows(M,a,b,"mzd_process_rows"); __real_mzd_process_rows(M,a,b,c,k,T,L); }
#define TL mzd_t const*,rci_t const*
void __real_mzd_process_rows2(mzd_t*,rci_t,rci_t,rci_t,int,TL,TL);
void __wrap_mzd_process_rows2(mzd_t*M,rci_t a,rci_t b,rci_t c,int k,mzd_t const*T0,rci_t const*L0,mzd_t const*T1,rci_t const*L1){ E; dstrows(M,a,b,"mzd_process_rows2"); __real_mzd_process_rows2(M,a,b,c,k,T0,L0,T1,L1); }
void __real_mzd_process_rows3(mzd_t*,rci_t,rci_t,rci_t,int,TL,TL,TL);
void __wrap_mzd_process_rows3(mzd_t*M,rci_t a,rci_t b,rci_t c,int k,mzd_t const*T0,rci_t const*L0,mzd_t const*T1,rci_t const*L1,mzd_t const*T2,rci_t const*L2){ E; dstrows(M,a,b,"mzd_process_rows3"); __real_mzd_process_rows3(M,a,b,c,k,T0,L0,T1,L1,T2,L2); }
void __real_mzd_process_rows4(mzd_t*,rci_t,rci_t,rci_t,int,TL,TL,TL,TL);
void __wrap_mzd_process_rows4(mzd_t*M,rci_t a,rci_t b,rci_t c,int k,mzd_t const*T0,rci_t const*L0,mzd_t const*T1,rci_t const*L1,mzd_t const*T2,rci_t const*L2,mzd_t const*T3,rci_t const*L3){ E; dstrows(M,a,b,"mzd_process_rows4"); __real_mzd_process_rows4(M,a,b,c,k,T0,L0,T1,L1,T2,L2,T3,L3); }
void __real_mzd_process_rows5(mzd_t*,rci_t,rci_t,rci_t,int,TL,TL,TL,TL,TL);
void __wrap_mzd_process_rows5(mzd_t*M,rci_t a,rci_t b,rci_t c,int k,mzd_t const*T0,rci_t const*L0,mzd_t const*T1,rci_t const*L1,mzd_t const*T2,rci_t const*L2,mzd_t const*T3,rci_t const*L3,mzd_t const*T4,rci_t const*L4){ E; dstrows(M,a,b,"mzd_process_rows5"); __real_mzd_process_rows5(M,a,b,c,k,T0,L0,T1,L1,T2,L2,T3,L3,T4,L4); }
void __real_mzd_process_rows6(mzd_t*,rci_t,rci_t,rci_t,int,TL,TL,TL,TL,TL,TL);
void __wrap_mzd_process_rows6(mzd_t*M,rci_t a,rci_t b,rci_t c,int k,mzd_t const*T0,rci_t const*L0,mzd_t const*T1,rci_t const*L1,mzd_t const*T2,rci_t const*L2,mzd_t const*T3,rci_t const*L3,mzd_t const*T4,rci_t const*L4,mzd_t const*T5,rci_t const*L5){ E; dstrows(M,a,b,"mzd_process_rows6"); __real_mzd_process_rows6(M,a,b,c,k,T0,L0,T1,L1,T2,L2,T3,L3,T4,L4,T5,L5); }
void __real_djb_apply_mzd_ptr(djb_t*,mzd_t**,const mzd_t**); void __wrap_djb_apply_mzd_ptr(djb_t*d,mzd_t**X,const mzd_t**Y){ E; for(int i=0;i<d->length;i++) dst(X[d->target[i]],"djb_apply_mzd_ptr"); __real_djb_apply_mzd_ptr(d,X,Y); }
