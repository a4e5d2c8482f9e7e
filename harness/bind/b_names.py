# names of the enumerators of the documented interface
OPTIONS = [(1, 'calc_derivs'), (2, 'reverse_derivs'), (4, 'delta_m'), (8, 'n_t_tms'), (16, 'four_conv_old'), (32, 'four_conv_new'), (64, 'no_azimuthal'), (128, 'output_at_levels'), (256, 'output_at_taus'), (512, 'part_sol_classical'), (1024, 'part_sol_greens'), (2048, 'phase_scalar'), (4096, 'phase_matrix_gc'), (8192, 'phase_matrix_lc'), (16384, 'psa'), (32768, 'quad_norm_gaus_leg'), (65536, 'quad_doub_gaus_leg'), (131072, 'quad_lobatto'), (262144, 'save_leg_polys'), (524288, 'save_phase_mats'), (1048576, 'save_local_r_t'), (2097152, 'save_layer_r_t_s'), (4194304, 'save_total_r_t_s'), (8388608, 'sfi'), (16777216, 'source_solar'), (33554432, 'source_thermal'), (67108864, 'stack_reuse_adding'), (134217728, 'top_down_adding'), (268435456, 'bottom_up_adding'), (536870912, 'upwelling_output'), (1073741824, 'downwelling_output'), (2147483648, 'vector')]
SOLVERS = [(1, 'doub_add'), (2, 'eig_add'), (4, 'eig_bvp'), (8, 'four_stream'), (16, 'mem_bvp'), (32, 'pade_add'), (64, 'single'), (128, 'six_stream'), (256, 'sos'), (512, 'two_os'), (1024, 'two_stream')]
KERNELS = ['lambertian', 'direct_and_diffuse', 'roujean', 'li_sparse', 'li_dense', 'ross_thin', 'ross_thick', 'hapke', 'rahman', 'cox_munk', 'user_defined']
