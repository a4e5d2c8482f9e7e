c     generated by lib/bindgen.py
      subroutine drv_f77(ci, co)
      implicit none
      include 'xrtm_int_f77.inc'
      character*(*) ci, co
      character*64 nm
      byte d(65536)
      byte fd(1024)
      integer error, i, ri, q(13), s(5), ios, n
      real*8 rd
      integer kk(100)
      integer xk(4096,0:19)
      real*8 xd(65536,0:19)
      integer ii(0:19)
      real*8 dd(0:19)
      integer nn(0:19)
      save d, fd, xk, xd
      integer xrtm_get_options_f77
      external xrtm_get_options_f77
      integer xrtm_get_solvers_f77
      external xrtm_get_solvers_f77
      integer xrtm_get_max_coef_f77
      external xrtm_get_max_coef_f77
      integer xrtm_get_n_quad_f77
      external xrtm_get_n_quad_f77
      integer xrtm_get_n_stokes_f77
      external xrtm_get_n_stokes_f77
      integer xrtm_get_n_derivs_f77
      external xrtm_get_n_derivs_f77
      integer xrtm_get_n_layers_f77
      external xrtm_get_n_layers_f77
      integer xrtm_get_n_kernels_f77
      external xrtm_get_n_kernels_f77
      integer xrtm_get_n_kernel_quad_f77
      external xrtm_get_n_kernel_quad_f77
      integer xrtm_get_kernel_f77
      external xrtm_get_kernel_f77
      integer xrtm_get_n_out_levels_f77
      external xrtm_get_n_out_levels_f77
      integer xrtm_get_n_out_thetas_f77
      external xrtm_get_n_out_thetas_f77
      integer xrtm_get_n_out_thetas_2_f77
      external xrtm_get_n_out_thetas_2_f77
      real*8 xrtm_get_doub_d_tau_f77
      external xrtm_get_doub_d_tau_f77
      real*8 xrtm_get_fourier_tol_f77
      external xrtm_get_fourier_tol_f77
      real*8 xrtm_get_lambda_f77
      external xrtm_get_lambda_f77
      real*8 xrtm_get_planet_r_f77
      external xrtm_get_planet_r_f77
      real*8 xrtm_get_F_iso_top_f77
      external xrtm_get_F_iso_top_f77
      real*8 xrtm_get_F_iso_top_l_f77
      external xrtm_get_F_iso_top_l_f77
      real*8 xrtm_get_F_iso_bot_f77
      external xrtm_get_F_iso_bot_f77
      real*8 xrtm_get_F_iso_bot_l_f77
      external xrtm_get_F_iso_bot_l_f77
      real*8 xrtm_get_F_0_f77
      external xrtm_get_F_0_f77
      real*8 xrtm_get_theta_0_f77
      external xrtm_get_theta_0_f77
      real*8 xrtm_get_phi_0_f77
      external xrtm_get_phi_0_f77
      real*8 xrtm_get_surface_b_f77
      external xrtm_get_surface_b_f77
      real*8 xrtm_get_surface_b_l_f77
      external xrtm_get_surface_b_l_f77
      real*8 xrtm_get_g_f77
      external xrtm_get_g_f77
      real*8 xrtm_get_g_l_f77
      external xrtm_get_g_l_f77
      integer xrtm_get_n_coef_f77
      external xrtm_get_n_coef_f77
      real*8 xrtm_get_coef_f77
      external xrtm_get_coef_f77
      real*8 xrtm_get_coef_l_f77
      external xrtm_get_coef_l_f77
      real*8 xrtm_get_omega_f77
      external xrtm_get_omega_f77
      real*8 xrtm_get_omega_l_f77
      external xrtm_get_omega_l_f77
      real*8 xrtm_get_ltau_f77
      external xrtm_get_ltau_f77
      real*8 xrtm_get_ltau_l_f77
      external xrtm_get_ltau_l_f77
      real*8 xrtm_get_kernel_ampfac_f77
      external xrtm_get_kernel_ampfac_f77
      real*8 xrtm_get_kernel_params_f77
      external xrtm_get_kernel_params_f77
      real*8 xrtm_get_kernel_ampfac_l_f77
      external xrtm_get_kernel_ampfac_l_f77
      real*8 xrtm_get_kernel_params_l_f77
      external xrtm_get_kernel_params_l_f77
      integer xrtm_fd_get_n_derivs_f77
      external xrtm_fd_get_n_derivs_f77
      real*8 xrtm_fd_get_F_iso_top_p_f77
      external xrtm_fd_get_F_iso_top_p_f77
      real*8 xrtm_fd_get_F_iso_bot_p_f77
      external xrtm_fd_get_F_iso_bot_p_f77
      real*8 xrtm_fd_get_levels_b_p_f77
      external xrtm_fd_get_levels_b_p_f77
      real*8 xrtm_fd_get_surface_b_p_f77
      external xrtm_fd_get_surface_b_p_f77
      real*8 xrtm_fd_get_g_p_f77
      external xrtm_fd_get_g_p_f77
      real*8 xrtm_fd_get_coef_p_f77
      external xrtm_fd_get_coef_p_f77
      real*8 xrtm_fd_get_omega_p_f77
      external xrtm_fd_get_omega_p_f77
      real*8 xrtm_fd_get_ltau_p_f77
      external xrtm_fd_get_ltau_p_f77
      real*8 xrtm_fd_get_kernel_ampfac_p_f77
      external xrtm_fd_get_kernel_ampfac_p_f77
      real*8 xrtm_fd_get_kernel_params_p_f77
      external xrtm_fd_get_kernel_params_p_f77
      open(unit=83, file=ci, status='old')
      open(unit=84, file=co, status='unknown')
10    continue
      read(83, '(a)', iostat=ios) nm
      if (ios .ne. 0) goto 20
      write(84, '(a)') nm(1:index(nm, ' ') - 1)
      if (nm .eq. 'create') then
      do i = 1, 10
      read(83, *) q(i)
      end do
      read(83, *) n
      if (n .gt. 0) read(83, *) (kk(i), i = 1, n)
      read(83, *) q(11)
      read(83, *) q(12)
      call xrtm_create_f77(d, q(1), q(2), q(3), q(4), q(5), q(6),
     &q(7), q(8), q(9), q(10), kk, q(11), q(12), error)
      call f77st(error)
      else if (nm .eq. 'destroy') then
      call xrtm_destroy_f77(d, error)
      call f77st(error)
      else if (nm .eq. 'fd_create') then
      read(83, *) i
      call xrtm_fd_create_f77(fd, d, i, error)
      call f77st(error)
      else if (nm .eq. 'fd_destroy') then
      call xrtm_fd_destroy_f77(fd, error)
      call f77st(error)
      else if (nm .eq. 'get_options') then
      ri = xrtm_get_options_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_solvers') then
      ri = xrtm_get_solvers_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_max_coef') then
      ri = xrtm_get_max_coef_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_quad') then
      ri = xrtm_get_n_quad_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_stokes') then
      ri = xrtm_get_n_stokes_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_derivs') then
      ri = xrtm_get_n_derivs_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_layers') then
      ri = xrtm_get_n_layers_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_kernels') then
      ri = xrtm_get_n_kernels_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_kernel_quad') then
      ri = xrtm_get_n_kernel_quad_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_kernel') then
      read(83, *) ii(0)
      ri = xrtm_get_kernel_f77(d, ii(0))
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_out_levels') then
      ri = xrtm_get_n_out_levels_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_out_thetas') then
      ri = xrtm_get_n_out_thetas_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_n_out_thetas_2') then
      ri = xrtm_get_n_out_thetas_2_f77(d)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'set_doub_d_tau') then
      read(83, *) dd(0)
      call xrtm_set_doub_d_tau_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_doub_d_tau') then
      rd = xrtm_get_doub_d_tau_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_pade_params') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      call xrtm_set_pade_params_f77(d, ii(0), ii(1), error)
      call f77st(error)
      else if (nm .eq. 'get_pade_params') then
      call xrtm_get_pade_params_f77(d, ii(0), ii(1), error)
      call f77st(error)
      if (error .eq. 0) then
      write(84, '(i0)') ii(0)
      write(84, '(i0)') ii(1)
      end if
      else if (nm .eq. 'set_sos_params') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      read(83, *) dd(2)
      call xrtm_set_sos_params_f77(d, ii(0), dd(1), dd(2), error)
      call f77st(error)
      else if (nm .eq. 'get_sos_params') then
      call xrtm_get_sos_params_f77(d, ii(0), dd(1), dd(2), error)
      call f77st(error)
      if (error .eq. 0) then
      write(84, '(i0)') ii(0)
      write(84, '(es25.16e3)') dd(1)
      write(84, '(es25.16e3)') dd(2)
      end if
      else if (nm .eq. 'set_fourier_tol') then
      read(83, *) dd(0)
      call xrtm_set_fourier_tol_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_fourier_tol') then
      rd = xrtm_get_fourier_tol_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_lambda') then
      read(83, *) dd(0)
      call xrtm_set_lambda_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_lambda') then
      rd = xrtm_get_lambda_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_planet_r') then
      read(83, *) dd(0)
      call xrtm_set_planet_r_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_planet_r') then
      rd = xrtm_get_planet_r_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_levels_z') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_levels_z_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_levels_z') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_get_levels_z_f77(d, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'set_out_levels') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xk(i,0), i = 1, n)
      call xrtm_set_out_levels_f77(d, xk(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_out_levels') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xk(i,0) = 0
      end do
      nn(0) = n
      call xrtm_get_out_levels_f77(d, xk(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(i0)') (xk(i,0), i = 1, n)
      end if
      else if (nm .eq. 'set_out_taus') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_out_taus_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_out_taus') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_get_out_taus_f77(d, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'set_out_thetas') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_out_thetas_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_out_thetas') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_get_out_thetas_f77(d, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'set_F_iso_top') then
      read(83, *) dd(0)
      call xrtm_set_F_iso_top_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_F_iso_top') then
      rd = xrtm_get_F_iso_top_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_F_iso_top_l_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_set_F_iso_top_l_1_f77(d, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'set_F_iso_top_l_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_F_iso_top_l_n_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_F_iso_top_l') then
      read(83, *) ii(0)
      rd = xrtm_get_F_iso_top_l_f77(d, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_F_iso_bot') then
      read(83, *) dd(0)
      call xrtm_set_F_iso_bot_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_F_iso_bot') then
      rd = xrtm_get_F_iso_bot_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_F_iso_bot_l_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_set_F_iso_bot_l_1_f77(d, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'set_F_iso_bot_l_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_F_iso_bot_l_n_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_F_iso_bot_l') then
      read(83, *) ii(0)
      rd = xrtm_get_F_iso_bot_l_f77(d, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_F_0') then
      read(83, *) dd(0)
      call xrtm_set_F_0_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_F_0') then
      rd = xrtm_get_F_0_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_theta_0') then
      read(83, *) dd(0)
      call xrtm_set_theta_0_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_theta_0') then
      rd = xrtm_get_theta_0_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_phi_0') then
      read(83, *) dd(0)
      call xrtm_set_phi_0_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_phi_0') then
      rd = xrtm_get_phi_0_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_levels_b') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_levels_b_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_levels_b') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_get_levels_b_f77(d, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'set_levels_b_l_1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_levels_b_l_1_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_levels_b_l_n') then
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_levels_b_l_n_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_levels_b_l') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,1) = 0
      end do
      nn(1) = n
      call xrtm_get_levels_b_l_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(1)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,1), i = 1, n)
      end if
      else if (nm .eq. 'set_surface_b') then
      read(83, *) dd(0)
      call xrtm_set_surface_b_f77(d, dd(0), error)
      call f77st(error)
      else if (nm .eq. 'get_surface_b') then
      rd = xrtm_get_surface_b_f77(d)
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_surface_b_l_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_set_surface_b_l_1_f77(d, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'set_surface_b_l_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_surface_b_l_n_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_surface_b_l') then
      read(83, *) ii(0)
      rd = xrtm_get_surface_b_l_f77(d, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_g_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_set_g_1_f77(d, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'set_g_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_g_n_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_g') then
      read(83, *) ii(0)
      rd = xrtm_get_g_f77(d, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_g_l_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_set_g_l_11_f77(d, ii(0), ii(1), dd(2), error)
      call f77st(error)
      else if (nm .eq. 'set_g_l_n1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_g_l_n1_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_g_l_1n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_g_l_1n_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_g_l_nn') then
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_g_l_nn_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_g_l') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_get_g_l_f77(d, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_coef_1') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,2), i = 1, n)
      call xrtm_set_coef_1_f77(d, ii(0), ii(1), xd(1,2), error)
      call f77st(error)
      else if (nm .eq. 'set_coef_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xk(i,0), i = 1, n)
      read(83, *) (s(i), i = 1, 3)
      n = s(1) * s(2) * s(3)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_coef_n_f77(d, xk(1,0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'get_n_coef') then
      read(83, *) ii(0)
      ri = xrtm_get_n_coef_f77(d, ii(0))
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'get_coef') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      rd = xrtm_get_coef_f77(d, ii(0), ii(1), ii(2))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_coef_l_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,2), i = 1, n)
      call xrtm_set_coef_l_11_f77(d, ii(0), ii(1), xd(1,2), error)
      call f77st(error)
      else if (nm .eq. 'set_coef_l_n1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 3)
      n = s(1) * s(2) * s(3)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_coef_l_n1_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_coef_l_1n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 3)
      n = s(1) * s(2) * s(3)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_coef_l_1n_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_coef_l_nn') then
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_coef_l_nn_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_coef_l') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      read(83, *) ii(3)
      rd = xrtm_get_coef_l_f77(d, ii(0), ii(1), ii(2), ii(3))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_omega_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_set_omega_1_f77(d, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'set_omega_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_omega_n_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_omega') then
      read(83, *) ii(0)
      rd = xrtm_get_omega_f77(d, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_omega_l_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_set_omega_l_11_f77(d, ii(0), ii(1), dd(2), error)
      call f77st(error)
      else if (nm .eq. 'set_omega_l_n1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_omega_l_n1_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_omega_l_1n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_omega_l_1n_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_omega_l_nn') then
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_omega_l_nn_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_omega_l') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_get_omega_l_f77(d, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_ltau_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_set_ltau_1_f77(d, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'set_ltau_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_ltau_n_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_ltau') then
      read(83, *) ii(0)
      rd = xrtm_get_ltau_f77(d, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_ltau_l_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_set_ltau_l_11_f77(d, ii(0), ii(1), dd(2), error)
      call f77st(error)
      else if (nm .eq. 'set_ltau_l_n1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_ltau_l_n1_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_ltau_l_1n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_ltau_l_1n_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'set_ltau_l_nn') then
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_set_ltau_l_nn_f77(d, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'get_ltau_l') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_get_ltau_l_f77(d, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_kernel_ampfac') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_set_kernel_ampfac_f77(d, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'get_kernel_ampfac') then
      read(83, *) ii(0)
      rd = xrtm_get_kernel_ampfac_f77(d, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_kernel_params_1') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_set_kernel_params_1_f77(d, ii(0), ii(1), dd(2), error)
      call f77st(error)
      else if (nm .eq. 'set_kernel_params_n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_kernel_params_n_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'get_kernel_params') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_get_kernel_params_f77(d, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_kernel_ampfac_l_1') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_set_kernel_ampfac_l_1_f77(d, ii(0), ii(1), dd(2),
     &error)
      call f77st(error)
      else if (nm .eq. 'set_kernel_ampfac_l_n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_kernel_ampfac_l_n_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'get_kernel_ampfac_l') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_get_kernel_ampfac_l_f77(d, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'set_kernel_params_l_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      read(83, *) dd(3)
      call xrtm_set_kernel_params_l_11_f77(d, ii(0), ii(1), ii(2),
     &dd(3), error)
      call f77st(error)
      else if (nm .eq. 'set_kernel_params_l_1n') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,2), i = 1, n)
      call xrtm_set_kernel_params_l_1n_f77(d, ii(0), ii(1), xd(1,2),
     &error)
      call f77st(error)
      else if (nm .eq. 'set_kernel_params_l_n1') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,2), i = 1, n)
      call xrtm_set_kernel_params_l_n1_f77(d, ii(0), ii(1), xd(1,2),
     &error)
      call f77st(error)
      else if (nm .eq. 'set_kernel_params_l_nn') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_set_kernel_params_l_nn_f77(d, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'get_kernel_params_l') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      rd = xrtm_get_kernel_params_l_f77(d, ii(0), ii(1), ii(2))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'update_varied_layers') then
      call xrtm_update_varied_layers_f77(d, error)
      call f77st(error)
      else if (nm .eq. 'qx') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_qx_f77(d, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'qw') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_qw_f77(d, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'kernel_qx') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_kernel_qx_f77(d, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'kernel_qw') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_kernel_qw_f77(d, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'solution') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,3), i = 1, n)
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      do i = 1, n
      xd(i,4) = 0
      end do
      nn(4) = n
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      do i = 1, n
      xd(i,5) = 0
      end do
      nn(5) = n
      read(83, *) (s(i), i = 1, 5)
      n = s(1) * s(2) * s(3) * s(4) * s(5)
      do i = 1, n
      xd(i,6) = 0
      end do
      nn(6) = n
      read(83, *) (s(i), i = 1, 5)
      n = s(1) * s(2) * s(3) * s(4) * s(5)
      do i = 1, n
      xd(i,7) = 0
      end do
      nn(7) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,8) = 0
      end do
      nn(8) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,9) = 0
      end do
      nn(9) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,10) = 0
      end do
      nn(10) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,11) = 0
      end do
      nn(11) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,12) = 0
      end do
      nn(12) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,13) = 0
      end do
      nn(13) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,14) = 0
      end do
      nn(14) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,15) = 0
      end do
      nn(15) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,16) = 0
      end do
      nn(16) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,17) = 0
      end do
      nn(17) = n
      call xrtm_solution_f77(d, ii(0), ii(1), ii(2), xd(1,3), xd(1,4),
     &xd(1,5), xd(1,6), xd(1,7), xd(1,8), xd(1,9), xd(1,10), xd(1,11),
     &xd(1,12), xd(1,13), xd(1,14), xd(1,15), xd(1,16), xd(1,17),
     &error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(4)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,4), i = 1, n)
      n = nn(5)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,5), i = 1, n)
      n = nn(6)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,6), i = 1, n)
      n = nn(7)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,7), i = 1, n)
      n = nn(8)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,8), i = 1, n)
      n = nn(9)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,9), i = 1, n)
      n = nn(10)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,10), i = 1, n)
      n = nn(11)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,11), i = 1, n)
      n = nn(12)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,12), i = 1, n)
      n = nn(13)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,13), i = 1, n)
      n = nn(14)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,14), i = 1, n)
      n = nn(15)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,15), i = 1, n)
      n = nn(16)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,16), i = 1, n)
      n = nn(17)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,17), i = 1, n)
      end if
      else if (nm .eq. 'radiance') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,2), i = 1, n)
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      do i = 1, n
      xd(i,3) = 0
      end do
      nn(3) = n
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      do i = 1, n
      xd(i,4) = 0
      end do
      nn(4) = n
      read(83, *) (s(i), i = 1, 5)
      n = s(1) * s(2) * s(3) * s(4) * s(5)
      do i = 1, n
      xd(i,5) = 0
      end do
      nn(5) = n
      read(83, *) (s(i), i = 1, 5)
      n = s(1) * s(2) * s(3) * s(4) * s(5)
      do i = 1, n
      xd(i,6) = 0
      end do
      nn(6) = n
      call xrtm_radiance_f77(d, ii(0), ii(1), xd(1,2), xd(1,3),
     &xd(1,4), xd(1,5), xd(1,6), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(3)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,3), i = 1, n)
      n = nn(4)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,4), i = 1, n)
      n = nn(5)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,5), i = 1, n)
      n = nn(6)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,6), i = 1, n)
      end if
      else if (nm .eq. 'mean_radiance') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,1) = 0
      end do
      nn(1) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,2) = 0
      end do
      nn(2) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,3) = 0
      end do
      nn(3) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,4) = 0
      end do
      nn(4) = n
      call xrtm_mean_radiance_f77(d, ii(0), xd(1,1), xd(1,2), xd(1,3),
     &xd(1,4), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(1)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,1), i = 1, n)
      n = nn(2)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,2), i = 1, n)
      n = nn(3)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,3), i = 1, n)
      n = nn(4)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,4), i = 1, n)
      end if
      else if (nm .eq. 'flux') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,1) = 0
      end do
      nn(1) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,2) = 0
      end do
      nn(2) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,3) = 0
      end do
      nn(3) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,4) = 0
      end do
      nn(4) = n
      call xrtm_flux_f77(d, ii(0), xd(1,1), xd(1,2), xd(1,3), xd(1,4),
     &error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(1)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,1), i = 1, n)
      n = nn(2)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,2), i = 1, n)
      n = nn(3)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,3), i = 1, n)
      n = nn(4)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,4), i = 1, n)
      end if
      else if (nm .eq. 'flux_divergence') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,1) = 0
      end do
      nn(1) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,2) = 0
      end do
      nn(2) = n
      call xrtm_flux_divergence_f77(d, ii(0), xd(1,1), xd(1,2), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(1)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,1), i = 1, n)
      n = nn(2)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,2), i = 1, n)
      end if
      else if (nm .eq. 'fd_get_n_derivs') then
      ri = xrtm_fd_get_n_derivs_f77(fd)
      if (ri .eq. -huge(0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(i0)') ri
      end if
      else if (nm .eq. 'fd_set_delta') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_delta_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_delta') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,0) = 0
      end do
      nn(0) = n
      call xrtm_fd_get_delta_f77(fd, xd(1,0), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(0)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,0), i = 1, n)
      end if
      else if (nm .eq. 'fd_set_F_iso_top_p_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_fd_set_F_iso_top_p_1_f77(fd, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_F_iso_top_p_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_F_iso_top_p_n_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_F_iso_top_p') then
      read(83, *) ii(0)
      rd = xrtm_fd_get_F_iso_top_p_f77(fd, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_F_iso_bot_p_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_fd_set_F_iso_bot_p_1_f77(fd, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_F_iso_bot_p_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_F_iso_bot_p_n_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_F_iso_bot_p') then
      read(83, *) ii(0)
      rd = xrtm_fd_get_F_iso_bot_p_f77(fd, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_levels_b_p_1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_levels_b_p_1_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_levels_b_p_n') then
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_levels_b_p_n_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_levels_b_p') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,1) = 0
      end do
      nn(1) = n
      rd = xrtm_fd_get_levels_b_p_f77(fd, ii(0), xd(1,1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_surface_b_p_1') then
      read(83, *) ii(0)
      read(83, *) dd(1)
      call xrtm_fd_set_surface_b_p_1_f77(fd, ii(0), dd(1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_surface_b_p_n') then
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_surface_b_p_n_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_surface_b_p') then
      read(83, *) ii(0)
      rd = xrtm_fd_get_surface_b_p_f77(fd, ii(0))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_g_p_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_fd_set_g_p_11_f77(fd, ii(0), ii(1), dd(2), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_g_p_n1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_g_p_n1_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_g_p_1n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_g_p_1n_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_g_p_nn') then
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_g_p_nn_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_g_p') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_fd_get_g_p_f77(fd, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_coef_p_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,2), i = 1, n)
      call xrtm_fd_set_coef_p_11_f77(fd, ii(0), ii(1), xd(1,2), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_coef_p_n1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 3)
      n = s(1) * s(2) * s(3)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_coef_p_n1_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_coef_p_1n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 3)
      n = s(1) * s(2) * s(3)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_coef_p_1n_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_coef_p_nn') then
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_coef_p_nn_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_coef_p') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      read(83, *) ii(3)
      rd = xrtm_fd_get_coef_p_f77(fd, ii(0), ii(1), ii(2), ii(3))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_omega_p_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_fd_set_omega_p_11_f77(fd, ii(0), ii(1), dd(2), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_omega_p_n1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_omega_p_n1_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_omega_p_1n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_omega_p_1n_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_omega_p_nn') then
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_omega_p_nn_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_omega_p') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_fd_get_omega_p_f77(fd, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_ltau_p_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_fd_set_ltau_p_11_f77(fd, ii(0), ii(1), dd(2), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_ltau_p_n1') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_ltau_p_n1_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_ltau_p_1n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_ltau_p_1n_f77(fd, ii(0), xd(1,1), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_ltau_p_nn') then
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,0), i = 1, n)
      call xrtm_fd_set_ltau_p_nn_f77(fd, xd(1,0), error)
      call f77st(error)
      else if (nm .eq. 'fd_get_ltau_p') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_fd_get_ltau_p_f77(fd, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_kernel_ampfac_p_1') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) dd(2)
      call xrtm_fd_set_kernel_ampfac_p_1_f77(fd, ii(0), ii(1), dd(2),
     &error)
      call f77st(error)
      else if (nm .eq. 'fd_set_kernel_ampfac_p_n') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_kernel_ampfac_p_n_f77(fd, ii(0), xd(1,1),
     &error)
      call f77st(error)
      else if (nm .eq. 'fd_get_kernel_ampfac_p') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      rd = xrtm_fd_get_kernel_ampfac_p_f77(fd, ii(0), ii(1))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_set_kernel_params_p_11') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      read(83, *) dd(3)
      call xrtm_fd_set_kernel_params_p_11_f77(fd, ii(0), ii(1), ii(2),
     &dd(3), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_kernel_params_p_1n') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,2), i = 1, n)
      call xrtm_fd_set_kernel_params_p_1n_f77(fd, ii(0), ii(1),
     &xd(1,2), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_kernel_params_p_n1') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      if (n .gt. 0) read(83, *) (xd(i,2), i = 1, n)
      call xrtm_fd_set_kernel_params_p_n1_f77(fd, ii(0), ii(1),
     &xd(1,2), error)
      call f77st(error)
      else if (nm .eq. 'fd_set_kernel_params_p_nn') then
      read(83, *) ii(0)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,1), i = 1, n)
      call xrtm_fd_set_kernel_params_p_nn_f77(fd, ii(0), xd(1,1),
     &error)
      call f77st(error)
      else if (nm .eq. 'fd_get_kernel_params_p') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      rd = xrtm_fd_get_kernel_params_p_f77(fd, ii(0), ii(1), ii(2))
      if (rd .eq. -huge(1d0)) then
      call f77st(1)
      else
      call f77st(0)
      write(84, '(es25.16e3)') rd
      end if
      else if (nm .eq. 'fd_solution') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      read(83, *) ii(3)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,4), i = 1, n)
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      do i = 1, n
      xd(i,5) = 0
      end do
      nn(5) = n
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      do i = 1, n
      xd(i,6) = 0
      end do
      nn(6) = n
      read(83, *) (s(i), i = 1, 5)
      n = s(1) * s(2) * s(3) * s(4) * s(5)
      do i = 1, n
      xd(i,7) = 0
      end do
      nn(7) = n
      read(83, *) (s(i), i = 1, 5)
      n = s(1) * s(2) * s(3) * s(4) * s(5)
      do i = 1, n
      xd(i,8) = 0
      end do
      nn(8) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,9) = 0
      end do
      nn(9) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,10) = 0
      end do
      nn(10) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,11) = 0
      end do
      nn(11) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,12) = 0
      end do
      nn(12) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,13) = 0
      end do
      nn(13) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,14) = 0
      end do
      nn(14) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,15) = 0
      end do
      nn(15) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,16) = 0
      end do
      nn(16) = n
      read(83, *) (s(i), i = 1, 1)
      n = s(1)
      do i = 1, n
      xd(i,17) = 0
      end do
      nn(17) = n
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      do i = 1, n
      xd(i,18) = 0
      end do
      nn(18) = n
      call xrtm_fd_solution_f77(fd, ii(0), ii(1), ii(2), ii(3),
     &xd(1,4), xd(1,5), xd(1,6), xd(1,7), xd(1,8), xd(1,9), xd(1,10),
     &xd(1,11), xd(1,12), xd(1,13), xd(1,14), xd(1,15), xd(1,16),
     &xd(1,17), xd(1,18), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(5)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,5), i = 1, n)
      n = nn(6)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,6), i = 1, n)
      n = nn(7)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,7), i = 1, n)
      n = nn(8)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,8), i = 1, n)
      n = nn(9)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,9), i = 1, n)
      n = nn(10)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,10), i = 1, n)
      n = nn(11)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,11), i = 1, n)
      n = nn(12)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,12), i = 1, n)
      n = nn(13)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,13), i = 1, n)
      n = nn(14)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,14), i = 1, n)
      n = nn(15)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,15), i = 1, n)
      n = nn(16)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,16), i = 1, n)
      n = nn(17)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,17), i = 1, n)
      n = nn(18)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,18), i = 1, n)
      end if
      else if (nm .eq. 'fd_radiance') then
      read(83, *) ii(0)
      read(83, *) ii(1)
      read(83, *) ii(2)
      read(83, *) (s(i), i = 1, 2)
      n = s(1) * s(2)
      if (n .gt. 0) read(83, *) (xd(i,3), i = 1, n)
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      do i = 1, n
      xd(i,4) = 0
      end do
      nn(4) = n
      read(83, *) (s(i), i = 1, 4)
      n = s(1) * s(2) * s(3) * s(4)
      do i = 1, n
      xd(i,5) = 0
      end do
      nn(5) = n
      read(83, *) (s(i), i = 1, 5)
      n = s(1) * s(2) * s(3) * s(4) * s(5)
      do i = 1, n
      xd(i,6) = 0
      end do
      nn(6) = n
      read(83, *) (s(i), i = 1, 5)
      n = s(1) * s(2) * s(3) * s(4) * s(5)
      do i = 1, n
      xd(i,7) = 0
      end do
      nn(7) = n
      call xrtm_fd_radiance_f77(fd, ii(0), ii(1), ii(2), xd(1,3),
     &xd(1,4), xd(1,5), xd(1,6), xd(1,7), error)
      call f77st(error)
      if (error .eq. 0) then
      n = nn(4)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,4), i = 1, n)
      n = nn(5)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,5), i = 1, n)
      n = nn(6)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,6), i = 1, n)
      n = nn(7)
      if (n .gt. 0) write(84, '(es25.16e3)') (xd(i,7), i = 1, n)
      end if
      end if
      goto 10
20    close(83)
      close(84)
      end

      subroutine f77st(e)
      integer e
      if (e .eq. 0) then
      write(84, '(a)') 'ok'
      else
      write(84, '(a)') 'error'
      end if
      end
