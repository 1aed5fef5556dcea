/* Uninstrumented accessors to library structures for the harness. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { uint64_t**rows; int nrows,ncols,width; uint64_t high_bitmask; int rowstride; void*hdr; } XV;  /* one mzd_t */
typedef struct { int kind; int nrows,ncols,w; int depth; void*ff; int nx; XV x[140]; } MV;
void acc_mzd(const void*m, XV*o);
void acc_mzed(const void*m, MV*o);
void acc_slice(const void*m, MV*o);
void acc_poly(const void*m, MV*o);
int  acc_perm(const void*p, int**values);
int  acc_ff_degree(const void*f);
uint64_t acc_ff_minpoly(const void*f);
uint64_t acc_ff_hash(const void*f);
void* acc_ff_red(const void*f);
int  acc_njt_L(const void*t,int a);
void*acc_njt_Lp(const void*t);
void*acc_poly_x(const void*p);
void*acc_njt_M(const void*t);
void*acc_njt_T(const void*t);
uint64_t acc_blm_hash(const void*b);
void*acc_blm_part(const void*b,int which); /* 0 F, 1 G, 2 H */
int  acc_blm_compiled(const void*b);
int  acc_cache_size(void);                 /* bytes of libm4ri's header-cache node */
void acc_poly_setdepth(void*p,int d);
int  acc_strassen_cutoff(const void*C,const void*A,const void*B);
uint64_t acc_irreducible(int d,int i);
#ifdef __cplusplus
}
#endif
