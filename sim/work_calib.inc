{"_mzd_poly_addmul_blm",1.5332},
{"_mzd_poly_addmul_crt",1.4796},
{"_mzd_poly_addmul_ext1",9.2822},
{"_mzd_poly_addmul_karatsubs_balanced",2.3261},
{"_mzd_poly_addmul_naive",0.3351},
{"_mzd_slice_add",0.5039},
{"_mzd_slice_addmul_karatsuba",2.1943},
{"_mzd_slice_addmul_naive",1.3342},
{"_mzd_slice_mul_blm",2.2035},
{"_mzd_slice_ple",2.7141},
{"_mzd_slice_pluq",2.7340},
{"_mzd_slice_trsm_lower_left",0.4619},
{"_mzd_slice_trsm_upper_left",0.4970},
{"_mzed_add",0.1353},
{"_mzed_addmul",3.5531},
{"_mzed_addmul_blm",2.4342},
{"_mzed_addmul_karatsuba",2.5722},
{"_mzed_addmul_strassen",6.0221},
{"_mzed_mul",3.6274},
{"_mzed_mul_naive",3.8879},
{"_mzed_mul_newton_john",3.3041},
{"_mzed_mul_newton_john0",3.0477},
{"_mzed_mul_strassen",5.9655},
{"_mzed_ple",2.7824},
{"_mzed_trsm_lower_left",0.5595},
{"_mzed_trsm_upper_left",0.4461},
{"blm_free",0.0010},
{"blm_init_crt",0.0609},
{"crt_init",0.0010},
{"gf2e_init",1.3114},
{"gf2e_inv",0.0010},
{"gf2e_mul",0.0010},
{"gf2e_mulp",0.0010},
{"gf2e_t16_init",2.3593},
{"gf2x_deg",0.0010},
{"gf2x_div",0.0010},
{"gf2x_divmod",0.0010},
{"gf2x_mod",0.0010},
{"gf2x_mul",0.0010},
{"mm_free",0.0010},
{"mzd_poly_adapt_depth",0.1681},
{"mzd_poly_add",0.1195},
{"mzd_poly_cmp",0.0456},
{"mzd_poly_randomize",0.1229},
{"mzd_slice_adapt_depth",0.1598},
{"mzd_slice_add",0.5083},
{"mzd_slice_add_elem",0.0452},
{"mzd_slice_addmul",2.4902},
{"mzd_slice_addmul_blm",2.3120},
{"mzd_slice_addmul_karatsuba",2.4878},
{"mzd_slice_addmul_scalar",6.3029},
{"mzd_slice_apply_p_left",0.1951},
{"mzd_slice_apply_p_left_trans",0.1799},
{"mzd_slice_apply_p_right",0.2345},
{"mzd_slice_apply_p_right_trans",0.2584},
{"mzd_slice_apply_p_right_trans_tri",0.1660},
{"mzd_slice_cmp",0.3494},
{"mzd_slice_col_swap",0.1825},
{"mzd_slice_col_swap_in_rows",0.1842},
{"mzd_slice_concat",1.2559},
{"mzd_slice_copy",0.4386},
{"mzd_slice_copy_row",0.0594},
{"mzd_slice_echelonize",2.7324},
{"mzd_slice_echelonize_ple",2.7567},
{"mzd_slice_init",0.0662},
{"mzd_slice_is_zero",0.1352},
{"mzd_slice_mul",3.0008},
{"mzd_slice_mul_blm",2.3039},
{"mzd_slice_mul_karatsuba",2.4843},
{"mzd_slice_mul_scalar",5.1144},
{"mzd_slice_ple",2.7606},
{"mzd_slice_pluq",2.7249},
{"mzd_slice_print",2.8857},
{"mzd_slice_randomize",0.1912},
{"mzd_slice_rescale_row",0.4332},
{"mzd_slice_row_add",0.0469},
{"mzd_slice_row_swap",0.0822},
{"mzd_slice_set_ui",0.1938},
{"mzd_slice_stack",1.3485},
{"mzd_slice_submatrix",0.6131},
{"mzd_slice_trsm_lower_left",0.4510},
{"mzd_slice_trsm_lower_left_naive",0.4727},
{"mzd_slice_trsm_lower_left_newton_john",0.4602},
{"mzd_slice_trsm_upper_left",0.4583},
{"mzd_slice_trsm_upper_left_naive",0.4642},
{"mzd_slice_trsm_upper_left_newton_john",0.4661},
{"mzd_slice_write_elem",0.0452},
{"mzed_add",0.1545},
{"mzed_add_elem",0.0163},
{"mzed_add_multiple_of_row",0.2568},
{"mzed_add_row",0.0327},
{"mzed_addmul",3.6654},
{"mzed_addmul_blm",2.4355},
{"mzed_addmul_karatsuba",2.4035},
{"mzed_addmul_naive",3.9207},
{"mzed_addmul_newton_john",3.4117},
{"mzed_addmul_strassen",6.2590},
{"mzed_apply_p_left",0.0437},
{"mzed_apply_p_left_trans",0.0479},
{"mzed_apply_p_right",3.8375},
{"mzed_apply_p_right_trans",3.5448},
{"mzed_cling",0.4040},
{"mzed_cmp",0.0640},
{"mzed_col_swap",0.3332},
{"mzed_col_swap_in_rows",0.1893},
{"mzed_concat",0.3165},
{"mzed_copy",0.1047},
{"mzed_copy_row",0.0156},
{"mzed_echelonize",3.0918},
{"mzed_echelonize_naive",0.5265},
{"mzed_echelonize_newton_john",3.3406},
{"mzed_echelonize_ple",2.7350},
{"mzed_first_zero_row",0.0676},
{"mzed_init",0.0267},
{"mzed_invert_newton_john",4.8338},
{"mzed_is_zero",0.0301},
{"mzed_make_table",1.2947},
{"mzed_mul",3.6844},
{"mzed_mul_blm",2.3109},
{"mzed_mul_karatsuba",2.5586},
{"mzed_mul_naive",3.9002},
{"mzed_mul_newton_john",3.5133},
{"mzed_mul_scalar",2.3245},
{"mzed_mul_strassen",6.2771},
{"mzed_ple",2.7244},
{"mzed_ple_naive",0.3493},
{"mzed_ple_newton_john",2.7824},
{"mzed_print",0.9172},
{"mzed_process_rows",0.0538},
{"mzed_process_rows2",0.2272},
{"mzed_process_rows3",0.2002},
{"mzed_process_rows4",0.4378},
{"mzed_process_rows5",0.2903},
{"mzed_process_rows6",0.6164},
{"mzed_randomize",0.7234},
{"mzed_rescale_row",0.2670},
{"mzed_row_add",0.0124},
{"mzed_row_swap",0.0220},
{"mzed_set_ui",0.0549},
{"mzed_slice",0.6549},
{"mzed_stack",0.3075},
{"mzed_submatrix",0.1353},
{"mzed_trsm_lower_left",0.4805},
{"mzed_trsm_lower_left_naive",0.4705},
{"mzed_trsm_lower_left_newton_john",0.4654},
{"mzed_trsm_upper_left",0.4779},
{"mzed_trsm_upper_left_naive",0.4601},
{"mzed_trsm_upper_left_newton_john",0.4601},
{"mzed_write_elem",0.0163},
