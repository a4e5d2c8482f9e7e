# generated by lib/bindgen.py
TABLE = [["get_options", "int", True, []], ["get_solvers", "int", True, []], ["get_max_coef", "int", True, []], ["get_n_quad", "int", True, []], ["get_n_stokes", "int", True, []], ["get_n_derivs", "int", True, []], ["get_n_layers", "int", True, []], ["get_n_kernels", "int", True, []], ["get_n_kernel_quad", "int", True, []], ["get_kernel", "int", True, [["int", 0, "in", ""]]], ["get_n_out_levels", "int", True, []], ["get_n_out_thetas", "int", True, []], ["get_n_out_thetas_2", "int", True, []], ["set_doub_d_tau", "int", False, [["double", 0, "in", ""]]], ["get_doub_d_tau", "double", True, []], ["set_pade_params", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""]]], ["get_pade_params", "int", False, [["int", 0, "out", ""], ["int", 0, "out", ""]]], ["set_sos_params", "int", False, [["int", 0, "in", ""], ["double", 0, "in", ""], ["double", 0, "in", ""]]], ["get_sos_params", "int", False, [["int", 0, "out", ""], ["double", 0, "out", ""], ["double", 0, "out", ""]]], ["set_fourier_tol", "int", False, [["double", 0, "in", ""]]], ["get_fourier_tol", "double", True, []], ["set_lambda", "int", False, [["double", 0, "in", ""]]], ["get_lambda", "double", True, []], ["set_planet_r", "int", False, [["double", 0, "in", ""]]], ["get_planet_r", "double", True, []], ["set_levels_z", "int", False, [["double", 1, "in", ""]]], ["get_levels_z", "int", False, [["double", 1, "out", ""]]], ["set_out_levels", "int", False, [["int", 1, "in", ""]]], ["get_out_levels", "int", False, [["int", 1, "out", ""]]], ["set_out_taus", "int", False, [["double", 1, "in", ""]]], ["get_out_taus", "int", False, [["double", 1, "out", ""]]], ["set_out_thetas", "int", False, [["double", 1, "in", ""]]], ["get_out_thetas", "int", False, [["double", 1, "out", ""]]], ["set_F_iso_top", "int", False, [["double", 0, "in", ""]]], ["get_F_iso_top", "double", True, []], ["set_F_iso_top_l_1", "int", False, [["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_F_iso_top_l_n", "int", False, [["double", 1, "in", ""]]], ["get_F_iso_top_l", "double", True, [["int", 0, "in", ""]]], ["set_F_iso_bot", "int", False, [["double", 0, "in", ""]]], ["get_F_iso_bot", "double", True, []], ["set_F_iso_bot_l_1", "int", False, [["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_F_iso_bot_l_n", "int", False, [["double", 1, "in", ""]]], ["get_F_iso_bot_l", "double", True, [["int", 0, "in", ""]]], ["set_F_0", "int", False, [["double", 0, "in", ""]]], ["get_F_0", "double", True, []], ["set_theta_0", "int", False, [["double", 0, "in", ""]]], ["get_theta_0", "double", True, []], ["set_phi_0", "int", False, [["double", 0, "in", ""]]], ["get_phi_0", "double", True, []], ["set_levels_b", "int", False, [["double", 1, "in", ""]]], ["get_levels_b", "int", False, [["double", 1, "out", ""]]], ["set_levels_b_l_1", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_levels_b_l_n", "int", False, [["double", 2, "in", ""]]], ["get_levels_b_l", "int", False, [["int", 0, "in", ""], ["double", 1, "out", ""]]], ["set_surface_b", "int", False, [["double", 0, "in", ""]]], ["get_surface_b", "double", True, []], ["set_surface_b_l_1", "int", False, [["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_surface_b_l_n", "int", False, [["double", 1, "in", ""]]], ["get_surface_b_l", "double", True, [["int", 0, "in", ""]]], ["set_g_1", "int", False, [["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_g_n", "int", False, [["double", 1, "in", ""]]], ["get_g", "double", True, [["int", 0, "in", ""]]], ["set_g_l_11", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_g_l_n1", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_g_l_1n", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_g_l_nn", "int", False, [["double", 2, "in", ""]]], ["get_g_l", "double", True, [["int", 0, "in", ""], ["int", 0, "in", ""]]], ["set_coef_1", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 2, "in", ""]]], ["set_coef_n", "int", False, [["int", 1, "in", ""], ["double", 3, "in", ""]]], ["get_n_coef", "int", True, [["int", 0, "in", ""]]], ["get_coef", "double", True, [["int", 0, "in", ""], ["int", 0, "in", ""], ["int", 0, "in", ""]]], ["set_coef_l_11", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 2, "in", ""]]], ["set_coef_l_n1", "int", False, [["int", 0, "in", ""], ["double", 3, "in", ""]]], ["set_coef_l_1n", "int", False, [["int", 0, "in", ""], ["double", 3, "in", ""]]], ["set_coef_l_nn", "int", False, [["double", 4, "in", ""]]], ["get_coef_l", "double", True, [["int", 0, "in", ""], ["int", 0, "in", ""], ["int", 0, "in", ""], ["int", 0, "in", ""]]], ["set_omega_1", "int", False, [["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_omega_n", "int", False, [["double", 1, "in", ""]]], ["get_omega", "double", True, [["int", 0, "in", ""]]], ["set_omega_l_11", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_omega_l_n1", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_omega_l_1n", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_omega_l_nn", "int", False, [["double", 2, "in", ""]]], ["get_omega_l", "double", True, [["int", 0, "in", ""], ["int", 0, "in", ""]]], ["set_ltau_1", "int", False, [["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_ltau_n", "int", False, [["double", 1, "in", ""]]], ["get_ltau", "double", True, [["int", 0, "in", ""]]], ["set_ltau_l_11", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_ltau_l_n1", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_ltau_l_1n", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_ltau_l_nn", "int", False, [["double", 2, "in", ""]]], ["get_ltau_l", "double", True, [["int", 0, "in", ""], ["int", 0, "in", ""]]], ["set_kernel_ampfac", "int", False, [["int", 0, "in", ""], ["double", 0, "in", ""]]], ["get_kernel_ampfac", "double", True, [["int", 0, "in", ""]]], ["set_kernel_params_1", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_kernel_params_n", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["get_kernel_params", "double", True, [["int", 0, "in", ""], ["int", 0, "in", ""]]], ["set_kernel_ampfac_l_1", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_kernel_ampfac_l_n", "int", False, [["int", 0, "in", ""], ["double", 1, "in", ""]]], ["get_kernel_ampfac_l", "double", True, [["int", 0, "in", ""], ["int", 0, "in", ""]]], ["set_kernel_params_l_11", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 0, "in", ""]]], ["set_kernel_params_l_1n", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_kernel_params_l_n1", "int", False, [["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 1, "in", ""]]], ["set_kernel_params_l_nn", "int", False, [["int", 0, "in", ""], ["double", 2, "in", ""]]], ["get_kernel_params_l", "double", True, [["int", 0, "in", ""], ["int", 0, "in", ""], ["int", 0, "in", ""]]], ["update_varied_layers", "int", False, []], ["qx", "int", False, [["double", 1, "out", ""]]], ["qw", "int", False, [["double", 1, "out", ""]]], ["kernel_qx", "int", False, [["double", 1, "out", ""]]], ["kernel_qw", "int", False, [["double", 1, "out", ""]]], ["solution", "int", False, [["int", 0, "in", "solver_mask"], ["int", 0, "in", ""], ["int", 0, "in", ""], ["double", 2, "in", ""], ["double", 4, "out", ""], ["double", 4, "out", ""], ["double", 5, "out", ""], ["double", 5, "out", ""], ["double", 1, "out", ""], ["double", 1, "out", ""], ["double", 2, "out", ""], ["double", 2, "out", ""], ["double", 1, "out", ""], ["double", 1, "out", ""], ["double", 2, "out", ""], ["double", 2, "out", ""], ["double", 1, "out", ""], ["double", 2, "out", ""]]], ["radiance", "int", False, [["int", 0, "in", "solver_mask"], ["int", 0, "in", ""], ["double", 2, "in", ""], ["double", 4, "out", ""], ["double", 4, "out", ""], ["double", 5, "out", ""], ["double", 5, "out", ""]]], ["mean_radiance", "int", False, [["int", 0, "in", "solver_mask"], ["double", 1, "out", ""], ["double", 1, "out", ""], ["double", 2, "out", ""], ["double", 2, "out", ""]]], ["flux", "int", False, [["int", 0, "in", "solver_mask"], ["double", 1, "out", ""], ["double", 1, "out", ""], ["double", 2, "out", ""], ["double", 2, "out", ""]]], ["flux_divergence", "int", False, [["int", 0, "in", "solver_mask"], ["double", 1, "out", ""], ["double", 2, "out", ""]]]]
