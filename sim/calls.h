/* Generated list of library entry points the simulator calls. */
#pragma once
typedef struct { void*p[8]; long i[10]; void*ret; long iret; } CallArgs;
typedef void (*CallFn)(CallArgs*);
typedef struct { const char*name; CallFn fn; } CallEnt;
extern
#ifdef __cplusplus
"C"
#endif
const CallEnt call_table[];
enum {
  C_gf2e_init,
  C_gf2e_free,
  C_gf2e_mulp,
  C_gf2e_invp,
  C_gf2e_inv,
  C_gf2e_mul,
  C_gf2e_mul_arith,
  C_gf2e_t16_init,
  C_gf2e_t16_free,
  C_gf2e_degree_to_w,
  C_mzed_init,
  C_mzed_free,
  C_mzed_init_window,
  C_mzed_free_window,
  C_mzed_concat,
  C_mzed_stack,
  C_mzed_submatrix,
  C_mzed_add,
  C__mzed_add,
  C_mzed_mul,
  C_mzed_addmul,
  C__mzed_mul,
  C__mzed_addmul,
  C_mzed_mul_naive,
  C_mzed_addmul_naive,
  C__mzed_mul_naive,
  C_mzed_mul_newton_john,
  C_mzed_addmul_newton_john,
  C__mzed_mul_newton_john0,
  C__mzed_mul_newton_john,
  C_mzed_mul_karatsuba,
  C_mzed_addmul_karatsuba,
  C__mzed_addmul_karatsuba,
  C_mzed_mul_blm,
  C_mzed_addmul_blm,
  C__mzed_addmul_blm,
  C_mzed_mul_strassen,
  C_mzed_addmul_strassen,
  C__mzed_mul_strassen,
  C__mzed_addmul_strassen,
  C_mzed_mul_scalar,
  C_mzed_randomize,
  C_mzed_copy,
  C_mzed_set_ui,
  C_mzed_read_elem,
  C_mzed_add_elem,
  C_mzed_write_elem,
  C_mzed_cmp,
  C_mzed_is_zero,
  C_mzed_add_multiple_of_row,
  C_mzed_add_row,
  C_mzed_rescale_row,
  C_mzed_row_swap,
  C_mzed_copy_row,
  C_mzed_col_swap,
  C_mzed_col_swap_in_rows,
  C_mzed_row_add,
  C_mzed_first_zero_row,
  C_mzed_echelonize_naive,
  C_mzed_echelonize_newton_john,
  C_mzed_echelonize_ple,
  C_mzed_echelonize,
  C_mzed_invert_newton_john,
  C_mzed_print,
  C_mzed_ple_naive,
  C_mzed_ple_newton_john,
  C_mzed_ple,
  C__mzed_ple,
  C__mzed_trsm_lower_left,
  C_mzed_trsm_lower_left,
  C_mzed_trsm_lower_left_naive,
  C_mzed_trsm_lower_left_newton_john,
  C__mzed_trsm_upper_left,
  C_mzed_trsm_upper_left,
  C_mzed_trsm_upper_left_naive,
  C_mzed_trsm_upper_left_newton_john,
  C_mzed_apply_p_left,
  C_mzed_apply_p_left_trans,
  C_mzed_apply_p_right,
  C_mzed_apply_p_right_trans,
  C__mzd_slice_trsm_lower_left,
  C_mzd_slice_trsm_lower_left,
  C_mzd_slice_trsm_lower_left_naive,
  C_mzd_slice_trsm_lower_left_newton_john,
  C__mzd_slice_trsm_upper_left,
  C_mzd_slice_trsm_upper_left,
  C_mzd_slice_trsm_upper_left_naive,
  C_mzd_slice_trsm_upper_left_newton_john,
  C_mzd_slice_apply_p_left,
  C_mzd_slice_apply_p_left_trans,
  C_mzd_slice_apply_p_right,
  C_mzd_slice_apply_p_right_trans,
  C_mzp_init,
  C_mzp_free,
  C_mzd_slice_init,
  C_mzd_slice_free,
  C_mzd_slice_init_window,
  C_mzd_slice_free_window,
  C_mzd_slice_concat,
  C_mzd_slice_stack,
  C_mzd_slice_submatrix,
  C_mzd_slice_add,
  C__mzd_slice_add,
  C_mzd_slice_mul,
  C_mzd_slice_addmul,
  C_mzd_slice_mul_karatsuba,
  C_mzd_slice_addmul_karatsuba,
  C__mzd_slice_addmul_karatsuba,
  C__mzd_slice_addmul_naive,
  C_mzd_slice_mul_blm,
  C_mzd_slice_addmul_blm,
  C__mzd_slice_mul_blm,
  C_mzd_slice_mul_scalar,
  C_mzd_slice_addmul_scalar,
  C_mzd_slice_randomize,
  C_mzd_slice_copy,
  C_mzd_slice_set_ui,
  C_mzd_slice_read_elem,
  C_mzd_slice_add_elem,
  C_mzd_slice_write_elem,
  C_mzd_slice_cmp,
  C_mzd_slice_is_zero,
  C_mzd_slice_row_swap,
  C_mzd_slice_copy_row,
  C_mzd_slice_col_swap,
  C_mzd_slice_col_swap_in_rows,
  C_mzd_slice_row_add,
  C_mzd_slice_rescale_row,
  C_mzd_slice_print,
  C_mzd_slice_adapt_depth,
  C_mzd_slice_echelonize_ple,
  C_mzd_slice_echelonize,
  C__mzd_slice_ple,
  C__mzd_slice_pluq,
  C_mzd_slice_ple,
  C_mzd_slice_pluq,
  C_mzed_slice,
  C_mzed_cling,
  C_mzd_poly_init,
  C_mzd_poly_free,
  C_mzd_poly_add,
  C_mzd_poly_cmp,
  C_mzd_poly_randomize,
  C_mzd_poly_adapt_depth,
  C__mzd_poly_addmul_naive,
  C__mzd_poly_addmul_karatsubs_balanced,
  C__mzd_poly_addmul_crt,
  C__mzd_poly_addmul_ext1,
  C__mzd_poly_addmul_blm,
  C_crt_init,
  C_mm_free,
  C_blm_init_crt,
  C_blm_djb_compile,
  C_blm_free,
  C_mzd_ptr_apply_blm,
  C_njt_init,
  C_njt_free,
  C_mzed_make_table,
  C_mzed_process_rows,
  C_mzed_process_rows2,
  C_mzed_process_rows3,
  C_mzed_process_rows4,
  C_mzed_process_rows5,
  C_mzed_process_rows6,
  C_mzd_slice_apply_p_right_trans_tri,
  C_gf2x_mul,
  C_gf2x_deg,
  C_gf2x_div,
  C_gf2x_mod,
  C_gf2x_divmod,
  C__COUNT
};
