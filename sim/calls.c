/* Thin, instrumented wrappers: header-inline library code is compiled here with the same
 * instrumentation as the library itself. */
#include <m4rie/m4rie.h>
#include <m4rie/mzd_poly.h>
#include <m4rie/blm.h>
#include "calls.h"
static void c_gf2e_init(CallArgs*a){ a->ret=(void*)gf2e_init((word)a->i[0]); }
static void c_gf2e_free(CallArgs*a){ gf2e_free((gf2e*)a->p[0]); }
static void c_gf2e_mulp(CallArgs*a){ a->iret=(long)(((gf2e*)a->p[0])->mul((gf2e*)a->p[0],(word)a->i[0],(word)a->i[1])); }
static void c_gf2e_invp(CallArgs*a){ a->iret=(long)(((gf2e*)a->p[0])->inv((gf2e*)a->p[0],(word)a->i[0])); }
static void c_gf2e_inv(CallArgs*a){ a->iret=(long)gf2e_inv((gf2e*)a->p[0],(word)a->i[0]); }
static void c_gf2e_mul(CallArgs*a){ a->iret=(long)gf2e_mul((gf2e*)a->p[0],(word)a->i[0],(word)a->i[1]); }
static void c_gf2e_mul_arith(CallArgs*a){ a->iret=(long)_gf2e_mul_arith((gf2e*)a->p[0],(word)a->i[0],(word)a->i[1]); }
static void c_gf2x_mul(CallArgs*a){ a->iret=(long)gf2x_mul((word)a->i[0],(word)a->i[1],(deg_t)a->i[2]); }
static void c_gf2x_deg(CallArgs*a){ a->iret=gf2x_deg((word)a->i[0]); }
static void c_gf2x_div(CallArgs*a){ a->iret=(long)gf2x_div((word)a->i[0],(word)a->i[1]); }
static void c_gf2x_mod(CallArgs*a){ a->iret=(long)gf2x_mod((word)a->i[0],(word)a->i[1]); }
static void c_gf2x_divmod(CallArgs*a){ word r=0; a->iret=(long)gf2x_divmod((word)a->i[0],(word)a->i[1],&r); a->i[9]=(long)r; }
static void c_gf2e_t16_init(CallArgs*a){ a->ret=(void*)gf2e_t16_init((gf2e*)a->p[0],(word)a->i[0]); }
static void c_gf2e_t16_free(CallArgs*a){ gf2e_t16_free((word*)a->p[0]); }
static void c_gf2e_degree_to_w(CallArgs*a){ a->iret=(long)gf2e_degree_to_w((gf2e*)a->p[0]); }
static void c_mzed_init(CallArgs*a){ a->ret=(void*)mzed_init((gf2e*)a->p[0],a->i[0],a->i[1]); }
static void c_mzed_free(CallArgs*a){ mzed_free((mzed_t*)a->p[0]); }
static void c_mzed_init_window(CallArgs*a){ a->ret=(void*)mzed_init_window((mzed_t*)a->p[0],a->i[0],a->i[1],a->i[2],a->i[3]); }
static void c_mzed_free_window(CallArgs*a){ mzed_free_window((mzed_t*)a->p[0]); }
static void c_mzed_concat(CallArgs*a){ a->ret=(void*)mzed_concat((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_stack(CallArgs*a){ a->ret=(void*)mzed_stack((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_submatrix(CallArgs*a){ a->ret=(void*)mzed_submatrix((mzed_t*)a->p[0],(mzed_t*)a->p[1],a->i[0],a->i[1],a->i[2],a->i[3]); }
static void c_mzed_add(CallArgs*a){ a->ret=(void*)mzed_add((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c__mzed_add(CallArgs*a){ a->ret=(void*)_mzed_add((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_mul(CallArgs*a){ a->ret=(void*)mzed_mul((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_addmul(CallArgs*a){ a->ret=(void*)mzed_addmul((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c__mzed_mul(CallArgs*a){ a->ret=(void*)_mzed_mul((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c__mzed_addmul(CallArgs*a){ a->ret=(void*)_mzed_addmul((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_mul_naive(CallArgs*a){ a->ret=(void*)mzed_mul_naive((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_addmul_naive(CallArgs*a){ a->ret=(void*)mzed_addmul_naive((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c__mzed_mul_naive(CallArgs*a){ a->ret=(void*)_mzed_mul_naive((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_mul_newton_john(CallArgs*a){ a->ret=(void*)mzed_mul_newton_john((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_addmul_newton_john(CallArgs*a){ a->ret=(void*)mzed_addmul_newton_john((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c__mzed_mul_newton_john0(CallArgs*a){ a->ret=(void*)_mzed_mul_newton_john0((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c__mzed_mul_newton_john(CallArgs*a){ a->ret=(void*)_mzed_mul_newton_john((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_mul_karatsuba(CallArgs*a){ a->ret=(void*)mzed_mul_karatsuba((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_addmul_karatsuba(CallArgs*a){ a->ret=(void*)mzed_addmul_karatsuba((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c__mzed_addmul_karatsuba(CallArgs*a){ a->ret=(void*)_mzed_addmul_karatsuba((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_mul_blm(CallArgs*a){ a->ret=(void*)mzed_mul_blm((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_addmul_blm(CallArgs*a){ a->ret=(void*)mzed_addmul_blm((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c__mzed_addmul_blm(CallArgs*a){ a->ret=(void*)_mzed_addmul_blm((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2]); }
static void c_mzed_mul_strassen(CallArgs*a){ a->ret=(void*)mzed_mul_strassen((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2],a->i[0]); }
static void c_mzed_addmul_strassen(CallArgs*a){ a->ret=(void*)mzed_addmul_strassen((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2],a->i[0]); }
static void c__mzed_mul_strassen(CallArgs*a){ a->ret=(void*)_mzed_mul_strassen((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2],a->i[0]); }
static void c__mzed_addmul_strassen(CallArgs*a){ a->ret=(void*)_mzed_addmul_strassen((mzed_t*)a->p[0],(mzed_t*)a->p[1],(mzed_t*)a->p[2],a->i[0]); }
static void c_mzed_mul_scalar(CallArgs*a){ a->ret=(void*)mzed_mul_scalar((mzed_t*)a->p[0],(word)a->i[0],(mzed_t*)a->p[1]); }
static void c_mzed_randomize(CallArgs*a){ mzed_randomize((mzed_t*)a->p[0]); }
static void c_mzed_copy(CallArgs*a){ a->ret=(void*)mzed_copy((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_set_ui(CallArgs*a){ mzed_set_ui((mzed_t*)a->p[0],(word)a->i[0]); }
static void c_mzed_read_elem(CallArgs*a){ a->iret=(long)mzed_read_elem((mzed_t*)a->p[0],a->i[0],a->i[1]); }
static void c_mzed_add_elem(CallArgs*a){ mzed_add_elem((mzed_t*)a->p[0],a->i[0],a->i[1],(word)a->i[2]); }
static void c_mzed_write_elem(CallArgs*a){ mzed_write_elem((mzed_t*)a->p[0],a->i[0],a->i[1],(word)a->i[2]); }
static void c_mzed_cmp(CallArgs*a){ a->iret=(long)mzed_cmp((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_is_zero(CallArgs*a){ a->iret=(long)mzed_is_zero((mzed_t*)a->p[0]); }
static void c_mzed_add_multiple_of_row(CallArgs*a){ mzed_add_multiple_of_row((mzed_t*)a->p[0],a->i[0],(mzed_t*)a->p[1],a->i[1],(word)a->i[2],a->i[3]); }
static void c_mzed_add_row(CallArgs*a){ mzed_add_row((mzed_t*)a->p[0],a->i[0],(mzed_t*)a->p[1],a->i[1],a->i[2]); }
static void c_mzed_rescale_row(CallArgs*a){ mzed_rescale_row((mzed_t*)a->p[0],a->i[0],a->i[1],(word)a->i[2]); }
static void c_mzed_row_swap(CallArgs*a){ mzed_row_swap((mzed_t*)a->p[0],a->i[0],a->i[1]); }
static void c_mzed_copy_row(CallArgs*a){ mzed_copy_row((mzed_t*)a->p[0],a->i[0],(mzed_t*)a->p[1],a->i[1]); }
static void c_mzed_col_swap(CallArgs*a){ mzed_col_swap((mzed_t*)a->p[0],a->i[0],a->i[1]); }
static void c_mzed_col_swap_in_rows(CallArgs*a){ mzed_col_swap_in_rows((mzed_t*)a->p[0],a->i[0],a->i[1],a->i[2],a->i[3]); }
static void c_mzed_row_add(CallArgs*a){ mzed_row_add((mzed_t*)a->p[0],a->i[0],a->i[1]); }
static void c_mzed_first_zero_row(CallArgs*a){ a->iret=(long)mzed_first_zero_row((mzed_t*)a->p[0]); }
static void c_mzed_echelonize_naive(CallArgs*a){ a->iret=(long)mzed_echelonize_naive((mzed_t*)a->p[0],a->i[0]); }
static void c_mzed_echelonize_newton_john(CallArgs*a){ a->iret=(long)mzed_echelonize_newton_john((mzed_t*)a->p[0],a->i[0]); }
static void c_mzed_echelonize_ple(CallArgs*a){ a->iret=(long)mzed_echelonize_ple((mzed_t*)a->p[0],a->i[0]); }
static void c_mzed_echelonize(CallArgs*a){ a->iret=(long)mzed_echelonize((mzed_t*)a->p[0],a->i[0]); }
static void c_mzed_invert_newton_john(CallArgs*a){ a->ret=(void*)mzed_invert_newton_john((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_print(CallArgs*a){ mzed_print((mzed_t*)a->p[0]); }
static void c_mzed_ple_naive(CallArgs*a){ a->iret=(long)mzed_ple_naive((mzed_t*)a->p[0],(mzp_t*)a->p[1],(mzp_t*)a->p[2]); }
static void c_mzed_ple_newton_john(CallArgs*a){ a->iret=(long)mzed_ple_newton_john((mzed_t*)a->p[0],(mzp_t*)a->p[1],(mzp_t*)a->p[2]); }
static void c_mzed_ple(CallArgs*a){ a->iret=(long)mzed_ple((mzed_t*)a->p[0],(mzp_t*)a->p[1],(mzp_t*)a->p[2]); }
static void c__mzed_ple(CallArgs*a){ a->iret=(long)_mzed_ple((mzed_t*)a->p[0],(mzp_t*)a->p[1],(mzp_t*)a->p[2],a->i[0]); }
static void c__mzed_trsm_lower_left(CallArgs*a){ _mzed_trsm_lower_left((mzed_t*)a->p[0],(mzed_t*)a->p[1],a->i[0]); }
static void c_mzed_trsm_lower_left(CallArgs*a){ mzed_trsm_lower_left((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_trsm_lower_left_naive(CallArgs*a){ mzed_trsm_lower_left_naive((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_trsm_lower_left_newton_john(CallArgs*a){ mzed_trsm_lower_left_newton_john((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c__mzed_trsm_upper_left(CallArgs*a){ _mzed_trsm_upper_left((mzed_t*)a->p[0],(mzed_t*)a->p[1],a->i[0]); }
static void c_mzed_trsm_upper_left(CallArgs*a){ mzed_trsm_upper_left((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_trsm_upper_left_naive(CallArgs*a){ mzed_trsm_upper_left_naive((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_trsm_upper_left_newton_john(CallArgs*a){ mzed_trsm_upper_left_newton_john((mzed_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_apply_p_left(CallArgs*a){ mzed_apply_p_left((mzed_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c_mzed_apply_p_left_trans(CallArgs*a){ mzed_apply_p_left_trans((mzed_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c_mzed_apply_p_right(CallArgs*a){ mzed_apply_p_right((mzed_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c_mzed_apply_p_right_trans(CallArgs*a){ mzed_apply_p_right_trans((mzed_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c__mzd_slice_trsm_lower_left(CallArgs*a){ _mzd_slice_trsm_lower_left((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],a->i[0]); }
static void c_mzd_slice_trsm_lower_left(CallArgs*a){ mzd_slice_trsm_lower_left((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_trsm_lower_left_naive(CallArgs*a){ mzd_slice_trsm_lower_left_naive((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_trsm_lower_left_newton_john(CallArgs*a){ mzd_slice_trsm_lower_left_newton_john((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c__mzd_slice_trsm_upper_left(CallArgs*a){ _mzd_slice_trsm_upper_left((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],a->i[0]); }
static void c_mzd_slice_trsm_upper_left(CallArgs*a){ mzd_slice_trsm_upper_left((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_trsm_upper_left_naive(CallArgs*a){ mzd_slice_trsm_upper_left_naive((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_trsm_upper_left_newton_john(CallArgs*a){ mzd_slice_trsm_upper_left_newton_john((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_apply_p_left(CallArgs*a){ mzd_slice_apply_p_left((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c_mzd_slice_apply_p_left_trans(CallArgs*a){ mzd_slice_apply_p_left_trans((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c_mzd_slice_apply_p_right(CallArgs*a){ mzd_slice_apply_p_right((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c_mzd_slice_apply_p_right_trans(CallArgs*a){ mzd_slice_apply_p_right_trans((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c_mzp_init(CallArgs*a){ a->ret=(void*)mzp_init(a->i[0]); }
static void c_mzp_free(CallArgs*a){ mzp_free((mzp_t*)a->p[0]); }
static void c_mzd_slice_init(CallArgs*a){ a->ret=(void*)mzd_slice_init((gf2e*)a->p[0],a->i[0],a->i[1]); }
static void c_mzd_slice_free(CallArgs*a){ mzd_slice_free((mzd_slice_t*)a->p[0]); }
static void c_mzd_slice_init_window(CallArgs*a){ a->ret=(void*)mzd_slice_init_window((mzd_slice_t*)a->p[0],a->i[0],a->i[1],a->i[2],a->i[3]); }
static void c_mzd_slice_free_window(CallArgs*a){ mzd_slice_free_window((mzd_slice_t*)a->p[0]); }
static void c_mzd_slice_concat(CallArgs*a){ a->ret=(void*)mzd_slice_concat((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c_mzd_slice_stack(CallArgs*a){ a->ret=(void*)mzd_slice_stack((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c_mzd_slice_submatrix(CallArgs*a){ a->ret=(void*)mzd_slice_submatrix((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],a->i[0],a->i[1],a->i[2],a->i[3]); }
static void c_mzd_slice_add(CallArgs*a){ a->ret=(void*)mzd_slice_add((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c__mzd_slice_add(CallArgs*a){ a->ret=(void*)_mzd_slice_add((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c_mzd_slice_mul(CallArgs*a){ a->ret=(void*)mzd_slice_mul((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c_mzd_slice_addmul(CallArgs*a){ a->ret=(void*)mzd_slice_addmul((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c_mzd_slice_mul_karatsuba(CallArgs*a){ a->ret=(void*)mzd_slice_mul_karatsuba((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c_mzd_slice_addmul_karatsuba(CallArgs*a){ a->ret=(void*)mzd_slice_addmul_karatsuba((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c__mzd_slice_addmul_karatsuba(CallArgs*a){ a->ret=(void*)_mzd_slice_addmul_karatsuba((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c__mzd_slice_addmul_naive(CallArgs*a){ a->ret=(void*)_mzd_slice_addmul_naive((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2]); }
static void c_mzd_slice_mul_blm(CallArgs*a){ a->ret=(void*)mzd_slice_mul_blm((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2],(blm_t*)a->p[3]); }
static void c_mzd_slice_addmul_blm(CallArgs*a){ a->ret=(void*)mzd_slice_addmul_blm((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2],(blm_t*)a->p[3]); }
static void c__mzd_slice_mul_blm(CallArgs*a){ a->ret=(void*)_mzd_slice_mul_blm((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1],(mzd_slice_t*)a->p[2],(blm_t*)a->p[3]); }
static void c_mzd_slice_mul_scalar(CallArgs*a){ a->ret=(void*)mzd_slice_mul_scalar((mzd_slice_t*)a->p[0],(word)a->i[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_addmul_scalar(CallArgs*a){ a->ret=(void*)mzd_slice_addmul_scalar((mzd_slice_t*)a->p[0],(word)a->i[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_randomize(CallArgs*a){ mzd_slice_randomize((mzd_slice_t*)a->p[0]); }
static void c_mzd_slice_copy(CallArgs*a){ a->ret=(void*)mzd_slice_copy((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_set_ui(CallArgs*a){ mzd_slice_set_ui((mzd_slice_t*)a->p[0],(word)a->i[0]); }
static void c_mzd_slice_read_elem(CallArgs*a){ a->iret=(long)mzd_slice_read_elem((mzd_slice_t*)a->p[0],a->i[0],a->i[1]); }
static void c_mzd_slice_add_elem(CallArgs*a){ mzd_slice_add_elem((mzd_slice_t*)a->p[0],a->i[0],a->i[1],(word)a->i[2]); }
static void c_mzd_slice_write_elem(CallArgs*a){ mzd_slice_write_elem((mzd_slice_t*)a->p[0],a->i[0],a->i[1],(word)a->i[2]); }
static void c_mzd_slice_cmp(CallArgs*a){ a->iret=(long)mzd_slice_cmp((mzd_slice_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_slice_is_zero(CallArgs*a){ a->iret=(long)mzd_slice_is_zero((mzd_slice_t*)a->p[0]); }
static void c_mzd_slice_row_swap(CallArgs*a){ mzd_slice_row_swap((mzd_slice_t*)a->p[0],a->i[0],a->i[1]); }
static void c_mzd_slice_copy_row(CallArgs*a){ mzd_slice_copy_row((mzd_slice_t*)a->p[0],a->i[0],(mzd_slice_t*)a->p[1],a->i[1]); }
static void c_mzd_slice_col_swap(CallArgs*a){ mzd_slice_col_swap((mzd_slice_t*)a->p[0],a->i[0],a->i[1]); }
static void c_mzd_slice_col_swap_in_rows(CallArgs*a){ mzd_slice_col_swap_in_rows((mzd_slice_t*)a->p[0],a->i[0],a->i[1],a->i[2],a->i[3]); }
static void c_mzd_slice_row_add(CallArgs*a){ mzd_slice_row_add((mzd_slice_t*)a->p[0],a->i[0],a->i[1]); }
static void c_mzd_slice_rescale_row(CallArgs*a){ mzd_slice_rescale_row((mzd_slice_t*)a->p[0],a->i[0],a->i[1],(word)a->i[2]); }
static void c_mzd_slice_print(CallArgs*a){ mzd_slice_print((mzd_slice_t*)a->p[0]); }
static void c_mzd_slice_adapt_depth(CallArgs*a){ a->ret=(void*)_mzd_slice_adapt_depth((mzd_slice_t*)a->p[0],a->i[0]); }
static void c_mzd_slice_echelonize_ple(CallArgs*a){ a->iret=(long)mzd_slice_echelonize_ple((mzd_slice_t*)a->p[0],a->i[0]); }
static void c_mzd_slice_echelonize(CallArgs*a){ a->iret=(long)mzd_slice_echelonize((mzd_slice_t*)a->p[0],a->i[0]); }
static void c__mzd_slice_ple(CallArgs*a){ a->iret=(long)_mzd_slice_ple((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1],(mzp_t*)a->p[2],a->i[0]); }
static void c__mzd_slice_pluq(CallArgs*a){ a->iret=(long)_mzd_slice_pluq((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1],(mzp_t*)a->p[2],a->i[0]); }
static void c_mzd_slice_ple(CallArgs*a){ a->iret=(long)mzd_slice_ple((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1],(mzp_t*)a->p[2]); }
static void c_mzd_slice_pluq(CallArgs*a){ a->iret=(long)mzd_slice_pluq((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1],(mzp_t*)a->p[2]); }
static void c_mzed_slice(CallArgs*a){ a->ret=(void*)mzed_slice((mzd_slice_t*)a->p[0],(mzed_t*)a->p[1]); }
static void c_mzed_cling(CallArgs*a){ a->ret=(void*)mzed_cling((mzed_t*)a->p[0],(mzd_slice_t*)a->p[1]); }
static void c_mzd_poly_init(CallArgs*a){ a->ret=(void*)mzd_poly_init(a->i[0],a->i[1],a->i[2]); }
static void c_mzd_poly_free(CallArgs*a){ mzd_poly_free((mzd_poly_t*)a->p[0]); }
static void c_mzd_poly_add(CallArgs*a){ a->ret=(void*)mzd_poly_add((mzd_poly_t*)a->p[0],(mzd_poly_t*)a->p[1],(mzd_poly_t*)a->p[2]); }
static void c_mzd_poly_cmp(CallArgs*a){ a->iret=(long)mzd_poly_cmp((mzd_poly_t*)a->p[0],(mzd_poly_t*)a->p[1]); }
static void c_mzd_poly_randomize(CallArgs*a){ mzd_poly_randomize((mzd_poly_t*)a->p[0]); }
static void c_mzd_poly_adapt_depth(CallArgs*a){ a->ret=(void*)_mzd_poly_adapt_depth((mzd_poly_t*)a->p[0],a->i[0]); }
static void c__mzd_poly_addmul_naive(CallArgs*a){ a->ret=(void*)_mzd_poly_addmul_naive((mzd_poly_t*)a->p[0],(mzd_poly_t*)a->p[1],(mzd_poly_t*)a->p[2]); }
static void c__mzd_poly_addmul_karatsubs_balanced(CallArgs*a){ a->ret=(void*)_mzd_poly_addmul_karatsubs_balanced((mzd_poly_t*)a->p[0],(mzd_poly_t*)a->p[1],(mzd_poly_t*)a->p[2]); }
static void c__mzd_poly_addmul_crt(CallArgs*a){ a->ret=(void*)_mzd_poly_addmul_crt((mzd_poly_t*)a->p[0],(mzd_poly_t*)a->p[1],(mzd_poly_t*)a->p[2]); }
static void c__mzd_poly_addmul_ext1(CallArgs*a){ a->ret=(void*)_mzd_poly_addmul_ext1((mzd_poly_t*)a->p[0],(mzd_poly_t*)a->p[1],(mzd_poly_t*)a->p[2]); }
static void c__mzd_poly_addmul_blm(CallArgs*a){ a->ret=(void*)_mzd_poly_addmul_blm((mzd_poly_t*)a->p[0],(mzd_poly_t*)a->p[1],(mzd_poly_t*)a->p[2],(blm_t*)a->p[3]); }
static void c_crt_init(CallArgs*a){ a->ret=(void*)crt_init(a->i[0],a->i[1]); }
static void c_mm_free(CallArgs*a){ m4ri_mm_free(a->p[0]); }
static void c_blm_init_crt(CallArgs*a){ a->ret=(void*)blm_init_crt((gf2e*)a->p[0],a->i[0],a->i[1],(int*)a->p[1],a->i[2]); }
static void c_blm_djb_compile(CallArgs*a){ a->ret=(void*)_blm_djb_compile((blm_t*)a->p[0]); }
static void c_blm_free(CallArgs*a){ blm_free((blm_t*)a->p[0]); }
static void c_mzd_ptr_apply_blm(CallArgs*a){ _mzd_ptr_apply_blm((mzd_t**)a->p[0],(const mzd_t**)a->p[1],(const mzd_t**)a->p[2],(blm_t*)a->p[3]); }
static void c_njt_init(CallArgs*a){ a->ret=(void*)njt_mzed_init((gf2e*)a->p[0],a->i[0]); }
static void c_njt_free(CallArgs*a){ njt_mzed_free((njt_mzed_t*)a->p[0]); }
static void c_mzed_process_rows(CallArgs*a){ mzed_process_rows((mzed_t*)a->p[0],a->i[0],a->i[1],a->i[2],(njt_mzed_t*)a->p[1]); }
static void c_mzed_process_rows2(CallArgs*a){ mzed_process_rows2((mzed_t*)a->p[0],a->i[0],a->i[1],a->i[2],(njt_mzed_t*)a->p[1],(njt_mzed_t*)a->p[2]); }
static void c_mzed_process_rows3(CallArgs*a){ mzed_process_rows3((mzed_t*)a->p[0],a->i[0],a->i[1],a->i[2],(njt_mzed_t*)a->p[1],(njt_mzed_t*)a->p[2],(njt_mzed_t*)a->p[3]); }
static void c_mzed_process_rows4(CallArgs*a){ mzed_process_rows4((mzed_t*)a->p[0],a->i[0],a->i[1],a->i[2],(njt_mzed_t*)a->p[1],(njt_mzed_t*)a->p[2],(njt_mzed_t*)a->p[3],(njt_mzed_t*)a->p[4]); }
static void c_mzed_process_rows5(CallArgs*a){ mzed_process_rows5((mzed_t*)a->p[0],a->i[0],a->i[1],a->i[2],(njt_mzed_t*)a->p[1],(njt_mzed_t*)a->p[2],(njt_mzed_t*)a->p[3],(njt_mzed_t*)a->p[4],(njt_mzed_t*)a->p[5]); }
static void c_mzed_process_rows6(CallArgs*a){ mzed_process_rows6((mzed_t*)a->p[0],a->i[0],a->i[1],a->i[2],(njt_mzed_t*)a->p[1],(njt_mzed_t*)a->p[2],(njt_mzed_t*)a->p[3],(njt_mzed_t*)a->p[4],(njt_mzed_t*)a->p[5],(njt_mzed_t*)a->p[6]); }
static void c_mzd_slice_apply_p_right_trans_tri(CallArgs*a){ mzd_slice_apply_p_right_trans_tri((mzd_slice_t*)a->p[0],(mzp_t*)a->p[1]); }
static void c_mzed_make_table(CallArgs*a){ a->ret=(void*)mzed_make_table((njt_mzed_t*)a->p[0],(mzed_t*)a->p[1],a->i[0],a->i[1]); }
const CallEnt call_table[]={
  {"gf2e_init",c_gf2e_init},
  {"gf2e_free",c_gf2e_free},
  {"gf2e_mulp",c_gf2e_mulp},
  {"gf2e_invp",c_gf2e_invp},
  {"gf2e_inv",c_gf2e_inv},
  {"gf2e_mul",c_gf2e_mul},
  {"gf2e_mul_arith",c_gf2e_mul_arith},
  {"gf2e_t16_init",c_gf2e_t16_init},
  {"gf2e_t16_free",c_gf2e_t16_free},
  {"gf2e_degree_to_w",c_gf2e_degree_to_w},
  {"mzed_init",c_mzed_init},
  {"mzed_free",c_mzed_free},
  {"mzed_init_window",c_mzed_init_window},
  {"mzed_free_window",c_mzed_free_window},
  {"mzed_concat",c_mzed_concat},
  {"mzed_stack",c_mzed_stack},
  {"mzed_submatrix",c_mzed_submatrix},
  {"mzed_add",c_mzed_add},
  {"_mzed_add",c__mzed_add},
  {"mzed_mul",c_mzed_mul},
  {"mzed_addmul",c_mzed_addmul},
  {"_mzed_mul",c__mzed_mul},
  {"_mzed_addmul",c__mzed_addmul},
  {"mzed_mul_naive",c_mzed_mul_naive},
  {"mzed_addmul_naive",c_mzed_addmul_naive},
  {"_mzed_mul_naive",c__mzed_mul_naive},
  {"mzed_mul_newton_john",c_mzed_mul_newton_john},
  {"mzed_addmul_newton_john",c_mzed_addmul_newton_john},
  {"_mzed_mul_newton_john0",c__mzed_mul_newton_john0},
  {"_mzed_mul_newton_john",c__mzed_mul_newton_john},
  {"mzed_mul_karatsuba",c_mzed_mul_karatsuba},
  {"mzed_addmul_karatsuba",c_mzed_addmul_karatsuba},
  {"_mzed_addmul_karatsuba",c__mzed_addmul_karatsuba},
  {"mzed_mul_blm",c_mzed_mul_blm},
  {"mzed_addmul_blm",c_mzed_addmul_blm},
  {"_mzed_addmul_blm",c__mzed_addmul_blm},
  {"mzed_mul_strassen",c_mzed_mul_strassen},
  {"mzed_addmul_strassen",c_mzed_addmul_strassen},
  {"_mzed_mul_strassen",c__mzed_mul_strassen},
  {"_mzed_addmul_strassen",c__mzed_addmul_strassen},
  {"mzed_mul_scalar",c_mzed_mul_scalar},
  {"mzed_randomize",c_mzed_randomize},
  {"mzed_copy",c_mzed_copy},
  {"mzed_set_ui",c_mzed_set_ui},
  {"mzed_read_elem",c_mzed_read_elem},
  {"mzed_add_elem",c_mzed_add_elem},
  {"mzed_write_elem",c_mzed_write_elem},
  {"mzed_cmp",c_mzed_cmp},
  {"mzed_is_zero",c_mzed_is_zero},
  {"mzed_add_multiple_of_row",c_mzed_add_multiple_of_row},
  {"mzed_add_row",c_mzed_add_row},
  {"mzed_rescale_row",c_mzed_rescale_row},
  {"mzed_row_swap",c_mzed_row_swap},
  {"mzed_copy_row",c_mzed_copy_row},
  {"mzed_col_swap",c_mzed_col_swap},
  {"mzed_col_swap_in_rows",c_mzed_col_swap_in_rows},
  {"mzed_row_add",c_mzed_row_add},
  {"mzed_first_zero_row",c_mzed_first_zero_row},
  {"mzed_echelonize_naive",c_mzed_echelonize_naive},
  {"mzed_echelonize_newton_john",c_mzed_echelonize_newton_john},
  {"mzed_echelonize_ple",c_mzed_echelonize_ple},
  {"mzed_echelonize",c_mzed_echelonize},
  {"mzed_invert_newton_john",c_mzed_invert_newton_john},
  {"mzed_print",c_mzed_print},
  {"mzed_ple_naive",c_mzed_ple_naive},
  {"mzed_ple_newton_john",c_mzed_ple_newton_john},
  {"mzed_ple",c_mzed_ple},
  {"_mzed_ple",c__mzed_ple},
  {"_mzed_trsm_lower_left",c__mzed_trsm_lower_left},
  {"mzed_trsm_lower_left",c_mzed_trsm_lower_left},
  {"mzed_trsm_lower_left_naive",c_mzed_trsm_lower_left_naive},
  {"mzed_trsm_lower_left_newton_john",c_mzed_trsm_lower_left_newton_john},
  {"_mzed_trsm_upper_left",c__mzed_trsm_upper_left},
  {"mzed_trsm_upper_left",c_mzed_trsm_upper_left},
  {"mzed_trsm_upper_left_naive",c_mzed_trsm_upper_left_naive},
  {"mzed_trsm_upper_left_newton_john",c_mzed_trsm_upper_left_newton_john},
  {"mzed_apply_p_left",c_mzed_apply_p_left},
  {"mzed_apply_p_left_trans",c_mzed_apply_p_left_trans},
  {"mzed_apply_p_right",c_mzed_apply_p_right},
  {"mzed_apply_p_right_trans",c_mzed_apply_p_right_trans},
  {"_mzd_slice_trsm_lower_left",c__mzd_slice_trsm_lower_left},
  {"mzd_slice_trsm_lower_left",c_mzd_slice_trsm_lower_left},
  {"mzd_slice_trsm_lower_left_naive",c_mzd_slice_trsm_lower_left_naive},
  {"mzd_slice_trsm_lower_left_newton_john",c_mzd_slice_trsm_lower_left_newton_john},
  {"_mzd_slice_trsm_upper_left",c__mzd_slice_trsm_upper_left},
  {"mzd_slice_trsm_upper_left",c_mzd_slice_trsm_upper_left},
  {"mzd_slice_trsm_upper_left_naive",c_mzd_slice_trsm_upper_left_naive},
  {"mzd_slice_trsm_upper_left_newton_john",c_mzd_slice_trsm_upper_left_newton_john},
  {"mzd_slice_apply_p_left",c_mzd_slice_apply_p_left},
  {"mzd_slice_apply_p_left_trans",c_mzd_slice_apply_p_left_trans},
  {"mzd_slice_apply_p_right",c_mzd_slice_apply_p_right},
  {"mzd_slice_apply_p_right_trans",c_mzd_slice_apply_p_right_trans},
  {"mzp_init",c_mzp_init},
  {"mzp_free",c_mzp_free},
  {"mzd_slice_init",c_mzd_slice_init},
  {"mzd_slice_free",c_mzd_slice_free},
  {"mzd_slice_init_window",c_mzd_slice_init_window},
  {"mzd_slice_free_window",c_mzd_slice_free_window},
  {"mzd_slice_concat",c_mzd_slice_concat},
  {"mzd_slice_stack",c_mzd_slice_stack},
  {"mzd_slice_submatrix",c_mzd_slice_submatrix},
  {"mzd_slice_add",c_mzd_slice_add},
  {"_mzd_slice_add",c__mzd_slice_add},
  {"mzd_slice_mul",c_mzd_slice_mul},
  {"mzd_slice_addmul",c_mzd_slice_addmul},
  {"mzd_slice_mul_karatsuba",c_mzd_slice_mul_karatsuba},
  {"mzd_slice_addmul_karatsuba",c_mzd_slice_addmul_karatsuba},
  {"_mzd_slice_addmul_karatsuba",c__mzd_slice_addmul_karatsuba},
  {"_mzd_slice_addmul_naive",c__mzd_slice_addmul_naive},
  {"mzd_slice_mul_blm",c_mzd_slice_mul_blm},
  {"mzd_slice_addmul_blm",c_mzd_slice_addmul_blm},
  {"_mzd_slice_mul_blm",c__mzd_slice_mul_blm},
  {"mzd_slice_mul_scalar",c_mzd_slice_mul_scalar},
  {"mzd_slice_addmul_scalar",c_mzd_slice_addmul_scalar},
  {"mzd_slice_randomize",c_mzd_slice_randomize},
  {"mzd_slice_copy",c_mzd_slice_copy},
  {"mzd_slice_set_ui",c_mzd_slice_set_ui},
  {"mzd_slice_read_elem",c_mzd_slice_read_elem},
  {"mzd_slice_add_elem",c_mzd_slice_add_elem},
  {"mzd_slice_write_elem",c_mzd_slice_write_elem},
  {"mzd_slice_cmp",c_mzd_slice_cmp},
  {"mzd_slice_is_zero",c_mzd_slice_is_zero},
  {"mzd_slice_row_swap",c_mzd_slice_row_swap},
  {"mzd_slice_copy_row",c_mzd_slice_copy_row},
  {"mzd_slice_col_swap",c_mzd_slice_col_swap},
  {"mzd_slice_col_swap_in_rows",c_mzd_slice_col_swap_in_rows},
  {"mzd_slice_row_add",c_mzd_slice_row_add},
  {"mzd_slice_rescale_row",c_mzd_slice_rescale_row},
  {"mzd_slice_print",c_mzd_slice_print},
  {"mzd_slice_adapt_depth",c_mzd_slice_adapt_depth},
  {"mzd_slice_echelonize_ple",c_mzd_slice_echelonize_ple},
  {"mzd_slice_echelonize",c_mzd_slice_echelonize},
  {"_mzd_slice_ple",c__mzd_slice_ple},
  {"_mzd_slice_pluq",c__mzd_slice_pluq},
  {"mzd_slice_ple",c_mzd_slice_ple},
  {"mzd_slice_pluq",c_mzd_slice_pluq},
  {"mzed_slice",c_mzed_slice},
  {"mzed_cling",c_mzed_cling},
  {"mzd_poly_init",c_mzd_poly_init},
  {"mzd_poly_free",c_mzd_poly_free},
  {"mzd_poly_add",c_mzd_poly_add},
  {"mzd_poly_cmp",c_mzd_poly_cmp},
  {"mzd_poly_randomize",c_mzd_poly_randomize},
  {"mzd_poly_adapt_depth",c_mzd_poly_adapt_depth},
  {"_mzd_poly_addmul_naive",c__mzd_poly_addmul_naive},
  {"_mzd_poly_addmul_karatsubs_balanced",c__mzd_poly_addmul_karatsubs_balanced},
  {"_mzd_poly_addmul_crt",c__mzd_poly_addmul_crt},
  {"_mzd_poly_addmul_ext1",c__mzd_poly_addmul_ext1},
  {"_mzd_poly_addmul_blm",c__mzd_poly_addmul_blm},
  {"crt_init",c_crt_init},
  {"mm_free",c_mm_free},
  {"blm_init_crt",c_blm_init_crt},
  {"blm_djb_compile",c_blm_djb_compile},
  {"blm_free",c_blm_free},
  {"mzd_ptr_apply_blm",c_mzd_ptr_apply_blm},
  {"njt_init",c_njt_init},
  {"njt_free",c_njt_free},
  {"mzed_make_table",c_mzed_make_table},
  {"mzed_process_rows",c_mzed_process_rows},
  {"mzed_process_rows2",c_mzed_process_rows2},
  {"mzed_process_rows3",c_mzed_process_rows3},
  {"mzed_process_rows4",c_mzed_process_rows4},
  {"mzed_process_rows5",c_mzed_process_rows5},
  {"mzed_process_rows6",c_mzed_process_rows6},
  {"mzd_slice_apply_p_right_trans_tri",c_mzd_slice_apply_p_right_trans_tri},
  {"gf2x_mul",c_gf2x_mul},
  {"gf2x_deg",c_gf2x_deg},
  {"gf2x_div",c_gf2x_div},
  {"gf2x_mod",c_gf2x_mod},
  {"gf2x_divmod",c_gf2x_divmod},
};
