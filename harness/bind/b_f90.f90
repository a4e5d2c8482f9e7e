! generated by lib/bindgen.py
subroutine drv_f90(fin, fout) bind(c)
  use iso_c_binding
  use xrtm_int_f90
  use xrtm_fd_int_f90
  implicit none
  character(kind=c_char), intent(in) :: fin(*), fout(*)
  character(256) :: ci, co
  character(64) :: nm
  type(xrtm_type) :: d
  type(xrtm_fd_type) :: fd
  integer :: error, i, ri, q(13), ios
  real(8) :: rd
  integer, allocatable :: kk(:)
  integer :: i0,i1,i2,i3,i4,i5,i6,i7,i8,i9,i10,i11,i12,i13,i14,i15,i16,i17,i18,i19
  real(8) :: d0,d1,d2,d3,d4,d5,d6,d7,d8,d9,d10
  real(8), allocatable :: x1_0(:)
  real(8), allocatable :: x1_1(:)
  real(8), allocatable :: x1_2(:)
  real(8), allocatable :: x1_8(:)
  real(8), allocatable :: x1_9(:)
  real(8), allocatable :: x1_10(:)
  real(8), allocatable :: x1_12(:)
  real(8), allocatable :: x1_13(:)
  real(8), allocatable :: x1_14(:)
  real(8), allocatable :: x1_16(:)
  real(8), allocatable :: x1_17(:)
  real(8), allocatable :: x2_0(:,:)
  real(8), allocatable :: x2_1(:,:)
  real(8), allocatable :: x2_2(:,:)
  real(8), allocatable :: x2_3(:,:)
  real(8), allocatable :: x2_4(:,:)
  real(8), allocatable :: x2_10(:,:)
  real(8), allocatable :: x2_11(:,:)
  real(8), allocatable :: x2_12(:,:)
  real(8), allocatable :: x2_14(:,:)
  real(8), allocatable :: x2_15(:,:)
  real(8), allocatable :: x2_16(:,:)
  real(8), allocatable :: x2_17(:,:)
  real(8), allocatable :: x2_18(:,:)
  real(8), allocatable :: x3_1(:,:,:)
  real(8), allocatable :: x4_0(:,:,:,:)
  real(8), allocatable :: x4_3(:,:,:,:)
  real(8), allocatable :: x4_4(:,:,:,:)
  real(8), allocatable :: x4_5(:,:,:,:)
  real(8), allocatable :: x4_6(:,:,:,:)
  real(8), allocatable :: x5_5(:,:,:,:,:)
  real(8), allocatable :: x5_6(:,:,:,:,:)
  real(8), allocatable :: x5_7(:,:,:,:,:)
  real(8), allocatable :: x5_8(:,:,:,:,:)
  integer, allocatable :: k1_0(:)
  integer :: s(5)
  ci = ' '; co = ' '
  do i = 1, 255
    if (fin(i) == c_null_char) exit
    ci(i:i) = fin(i)
  end do
  do i = 1, 255
    if (fout(i) == c_null_char) exit
    co(i:i) = fout(i)
  end do
  open(unit=81, file=trim(ci), status='old', action='read')
  open(unit=82, file=trim(co), status='replace', action='write', recl=400)
  do
    read(81, '(a)', iostat=ios) nm
    if (ios /= 0) exit
    write(82, '(a)') trim(nm)
    select case (trim(nm))
    case ('create')
      do i = 1, 9
        read(81, *) q(i)
      end do
      read(81, *) q(10)
      if (allocated(kk)) deallocate(kk)
      read(81, *) s(1)
      allocate(kk(s(1)))
      if (s(1) > 0) read(81, *) kk
      read(81, *) q(11)
      read(81, *) q(12)
      call xrtm_create_f90(d, q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8), q(9), q(10), kk, q(11), q(12), error)
      call st(error)
    case ('destroy')
      call xrtm_destroy_f90(d, error)
      call st(error)
    case ('fd_create')
      read(81, *) i0
      call xrtm_fd_create_f90(fd, d, i0, error)
      call st(error)
    case ('fd_destroy')
      call xrtm_fd_destroy_f90(fd, error)
      call st(error)
    case ('get_options')
      ri = xrtm_get_options_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_solvers')
      ri = xrtm_get_solvers_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_max_coef')
      ri = xrtm_get_max_coef_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_quad')
      ri = xrtm_get_n_quad_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_stokes')
      ri = xrtm_get_n_stokes_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_derivs')
      ri = xrtm_get_n_derivs_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_layers')
      ri = xrtm_get_n_layers_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_kernels')
      ri = xrtm_get_n_kernels_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_kernel_quad')
      ri = xrtm_get_n_kernel_quad_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_kernel')
      read(81, *) i0
      ri = xrtm_get_kernel_f90(d, i0)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_out_levels')
      ri = xrtm_get_n_out_levels_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_out_thetas')
      ri = xrtm_get_n_out_thetas_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_n_out_thetas_2')
      ri = xrtm_get_n_out_thetas_2_f90(d)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('set_doub_d_tau')
      read(81, *) d0
      call xrtm_set_doub_d_tau_f90(d, d0, error)
      call st(error)
    case ('get_doub_d_tau')
      rd = xrtm_get_doub_d_tau_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_pade_params')
      read(81, *) i0
      read(81, *) i1
      call xrtm_set_pade_params_f90(d, i0, i1, error)
      call st(error)
    case ('get_pade_params')
      call xrtm_get_pade_params_f90(d, i0, i1, error)
      call st(error)
      if (error == 0) then
        write(82, '(i0)') i0
        write(82, '(i0)') i1
      end if
    case ('set_sos_params')
      read(81, *) i0
      read(81, *) d1
      read(81, *) d2
      call xrtm_set_sos_params_f90(d, i0, d1, d2, error)
      call st(error)
    case ('get_sos_params')
      call xrtm_get_sos_params_f90(d, i0, d1, d2, error)
      call st(error)
      if (error == 0) then
        write(82, '(i0)') i0
        write(82, '(es25.16e3)') d1
        write(82, '(es25.16e3)') d2
      end if
    case ('set_fourier_tol')
      read(81, *) d0
      call xrtm_set_fourier_tol_f90(d, d0, error)
      call st(error)
    case ('get_fourier_tol')
      rd = xrtm_get_fourier_tol_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_lambda')
      read(81, *) d0
      call xrtm_set_lambda_f90(d, d0, error)
      call st(error)
    case ('get_lambda')
      rd = xrtm_get_lambda_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_planet_r')
      read(81, *) d0
      call xrtm_set_planet_r_f90(d, d0, error)
      call st(error)
    case ('get_planet_r')
      rd = xrtm_get_planet_r_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_levels_z')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_levels_z_f90(d, x1_0, error)
      call st(error)
    case ('get_levels_z')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_get_levels_z_f90(d, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('set_out_levels')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(k1_0)) deallocate(k1_0)
      allocate(k1_0(s(1)))
      if (size(k1_0) > 0) read(81, *) k1_0
      call xrtm_set_out_levels_f90(d, k1_0, error)
      call st(error)
    case ('get_out_levels')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(k1_0)) deallocate(k1_0)
      allocate(k1_0(s(1)))
      k1_0 = 0
      call xrtm_get_out_levels_f90(d, k1_0, error)
      call st(error)
      if (error == 0) then
        if (size(k1_0) > 0) write(82, '(i0)') k1_0
      end if
    case ('set_out_taus')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_out_taus_f90(d, x1_0, error)
      call st(error)
    case ('get_out_taus')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_get_out_taus_f90(d, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('set_out_thetas')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_out_thetas_f90(d, x1_0, error)
      call st(error)
    case ('get_out_thetas')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_get_out_thetas_f90(d, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('set_F_iso_top')
      read(81, *) d0
      call xrtm_set_F_iso_top_f90(d, d0, error)
      call st(error)
    case ('get_F_iso_top')
      rd = xrtm_get_F_iso_top_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_F_iso_top_l_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_set_F_iso_top_l_1_f90(d, i0, d1, error)
      call st(error)
    case ('set_F_iso_top_l_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_F_iso_top_l_n_f90(d, x1_0, error)
      call st(error)
    case ('get_F_iso_top_l')
      read(81, *) i0
      rd = xrtm_get_F_iso_top_l_f90(d, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_F_iso_bot')
      read(81, *) d0
      call xrtm_set_F_iso_bot_f90(d, d0, error)
      call st(error)
    case ('get_F_iso_bot')
      rd = xrtm_get_F_iso_bot_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_F_iso_bot_l_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_set_F_iso_bot_l_1_f90(d, i0, d1, error)
      call st(error)
    case ('set_F_iso_bot_l_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_F_iso_bot_l_n_f90(d, x1_0, error)
      call st(error)
    case ('get_F_iso_bot_l')
      read(81, *) i0
      rd = xrtm_get_F_iso_bot_l_f90(d, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_F_0')
      read(81, *) d0
      call xrtm_set_F_0_f90(d, d0, error)
      call st(error)
    case ('get_F_0')
      rd = xrtm_get_F_0_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_theta_0')
      read(81, *) d0
      call xrtm_set_theta_0_f90(d, d0, error)
      call st(error)
    case ('get_theta_0')
      rd = xrtm_get_theta_0_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_phi_0')
      read(81, *) d0
      call xrtm_set_phi_0_f90(d, d0, error)
      call st(error)
    case ('get_phi_0')
      rd = xrtm_get_phi_0_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_levels_b')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_levels_b_f90(d, x1_0, error)
      call st(error)
    case ('get_levels_b')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_get_levels_b_f90(d, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('set_levels_b_l_1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_levels_b_l_1_f90(d, i0, x1_1, error)
      call st(error)
    case ('set_levels_b_l_n')
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_0)) deallocate(x2_0)
      allocate(x2_0(s(2), s(1)))
      if (size(x2_0) > 0) read(81, *) x2_0
      call xrtm_set_levels_b_l_n_f90(d, x2_0, error)
      call st(error)
    case ('get_levels_b_l')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      x1_1 = 0
      call xrtm_get_levels_b_l_f90(d, i0, x1_1, error)
      call st(error)
      if (error == 0) then
        if (size(x1_1) > 0) write(82, '(es25.16e3)') x1_1
      end if
    case ('set_surface_b')
      read(81, *) d0
      call xrtm_set_surface_b_f90(d, d0, error)
      call st(error)
    case ('get_surface_b')
      rd = xrtm_get_surface_b_f90(d)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_surface_b_l_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_set_surface_b_l_1_f90(d, i0, d1, error)
      call st(error)
    case ('set_surface_b_l_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_surface_b_l_n_f90(d, x1_0, error)
      call st(error)
    case ('get_surface_b_l')
      read(81, *) i0
      rd = xrtm_get_surface_b_l_f90(d, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_g_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_set_g_1_f90(d, i0, d1, error)
      call st(error)
    case ('set_g_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_g_n_f90(d, x1_0, error)
      call st(error)
    case ('get_g')
      read(81, *) i0
      rd = xrtm_get_g_f90(d, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_g_l_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_set_g_l_11_f90(d, i0, i1, d2, error)
      call st(error)
    case ('set_g_l_n1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_g_l_n1_f90(d, i0, x1_1, error)
      call st(error)
    case ('set_g_l_1n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_g_l_1n_f90(d, i0, x1_1, error)
      call st(error)
    case ('set_g_l_nn')
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_0)) deallocate(x2_0)
      allocate(x2_0(s(2), s(1)))
      if (size(x2_0) > 0) read(81, *) x2_0
      call xrtm_set_g_l_nn_f90(d, x2_0, error)
      call st(error)
    case ('get_g_l')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_get_g_l_f90(d, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_coef_1')
      read(81, *) i0
      read(81, *) i1
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_2)) deallocate(x2_2)
      allocate(x2_2(s(2), s(1)))
      if (size(x2_2) > 0) read(81, *) x2_2
      call xrtm_set_coef_1_f90(d, i0, i1, x2_2, error)
      call st(error)
    case ('set_coef_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(k1_0)) deallocate(k1_0)
      allocate(k1_0(s(1)))
      if (size(k1_0) > 0) read(81, *) k1_0
      read(81, *) (s(i), i = 1, 3)
      if (allocated(x3_1)) deallocate(x3_1)
      allocate(x3_1(s(3), s(2), s(1)))
      if (size(x3_1) > 0) read(81, *) x3_1
      call xrtm_set_coef_n_f90(d, k1_0, x3_1, error)
      call st(error)
    case ('get_n_coef')
      read(81, *) i0
      ri = xrtm_get_n_coef_f90(d, i0)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('get_coef')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      rd = xrtm_get_coef_f90(d, i0, i1, i2)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_coef_l_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_2)) deallocate(x2_2)
      allocate(x2_2(s(2), s(1)))
      if (size(x2_2) > 0) read(81, *) x2_2
      call xrtm_set_coef_l_11_f90(d, i0, i1, x2_2, error)
      call st(error)
    case ('set_coef_l_n1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 3)
      if (allocated(x3_1)) deallocate(x3_1)
      allocate(x3_1(s(3), s(2), s(1)))
      if (size(x3_1) > 0) read(81, *) x3_1
      call xrtm_set_coef_l_n1_f90(d, i0, x3_1, error)
      call st(error)
    case ('set_coef_l_1n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 3)
      if (allocated(x3_1)) deallocate(x3_1)
      allocate(x3_1(s(3), s(2), s(1)))
      if (size(x3_1) > 0) read(81, *) x3_1
      call xrtm_set_coef_l_1n_f90(d, i0, x3_1, error)
      call st(error)
    case ('set_coef_l_nn')
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_0)) deallocate(x4_0)
      allocate(x4_0(s(4), s(3), s(2), s(1)))
      if (size(x4_0) > 0) read(81, *) x4_0
      call xrtm_set_coef_l_nn_f90(d, x4_0, error)
      call st(error)
    case ('get_coef_l')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      read(81, *) i3
      rd = xrtm_get_coef_l_f90(d, i0, i1, i2, i3)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_omega_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_set_omega_1_f90(d, i0, d1, error)
      call st(error)
    case ('set_omega_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_omega_n_f90(d, x1_0, error)
      call st(error)
    case ('get_omega')
      read(81, *) i0
      rd = xrtm_get_omega_f90(d, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_omega_l_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_set_omega_l_11_f90(d, i0, i1, d2, error)
      call st(error)
    case ('set_omega_l_n1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_omega_l_n1_f90(d, i0, x1_1, error)
      call st(error)
    case ('set_omega_l_1n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_omega_l_1n_f90(d, i0, x1_1, error)
      call st(error)
    case ('set_omega_l_nn')
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_0)) deallocate(x2_0)
      allocate(x2_0(s(2), s(1)))
      if (size(x2_0) > 0) read(81, *) x2_0
      call xrtm_set_omega_l_nn_f90(d, x2_0, error)
      call st(error)
    case ('get_omega_l')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_get_omega_l_f90(d, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_ltau_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_set_ltau_1_f90(d, i0, d1, error)
      call st(error)
    case ('set_ltau_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_set_ltau_n_f90(d, x1_0, error)
      call st(error)
    case ('get_ltau')
      read(81, *) i0
      rd = xrtm_get_ltau_f90(d, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_ltau_l_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_set_ltau_l_11_f90(d, i0, i1, d2, error)
      call st(error)
    case ('set_ltau_l_n1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_ltau_l_n1_f90(d, i0, x1_1, error)
      call st(error)
    case ('set_ltau_l_1n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_ltau_l_1n_f90(d, i0, x1_1, error)
      call st(error)
    case ('set_ltau_l_nn')
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_0)) deallocate(x2_0)
      allocate(x2_0(s(2), s(1)))
      if (size(x2_0) > 0) read(81, *) x2_0
      call xrtm_set_ltau_l_nn_f90(d, x2_0, error)
      call st(error)
    case ('get_ltau_l')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_get_ltau_l_f90(d, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_kernel_ampfac')
      read(81, *) i0
      read(81, *) d1
      call xrtm_set_kernel_ampfac_f90(d, i0, d1, error)
      call st(error)
    case ('get_kernel_ampfac')
      read(81, *) i0
      rd = xrtm_get_kernel_ampfac_f90(d, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_kernel_params_1')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_set_kernel_params_1_f90(d, i0, i1, d2, error)
      call st(error)
    case ('set_kernel_params_n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_kernel_params_n_f90(d, i0, x1_1, error)
      call st(error)
    case ('get_kernel_params')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_get_kernel_params_f90(d, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_kernel_ampfac_l_1')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_set_kernel_ampfac_l_1_f90(d, i0, i1, d2, error)
      call st(error)
    case ('set_kernel_ampfac_l_n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_set_kernel_ampfac_l_n_f90(d, i0, x1_1, error)
      call st(error)
    case ('get_kernel_ampfac_l')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_get_kernel_ampfac_l_f90(d, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('set_kernel_params_l_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      read(81, *) d3
      call xrtm_set_kernel_params_l_11_f90(d, i0, i1, i2, d3, error)
      call st(error)
    case ('set_kernel_params_l_1n')
      read(81, *) i0
      read(81, *) i1
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_2)) deallocate(x1_2)
      allocate(x1_2(s(1)))
      if (size(x1_2) > 0) read(81, *) x1_2
      call xrtm_set_kernel_params_l_1n_f90(d, i0, i1, x1_2, error)
      call st(error)
    case ('set_kernel_params_l_n1')
      read(81, *) i0
      read(81, *) i1
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_2)) deallocate(x1_2)
      allocate(x1_2(s(1)))
      if (size(x1_2) > 0) read(81, *) x1_2
      call xrtm_set_kernel_params_l_n1_f90(d, i0, i1, x1_2, error)
      call st(error)
    case ('set_kernel_params_l_nn')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_1)) deallocate(x2_1)
      allocate(x2_1(s(2), s(1)))
      if (size(x2_1) > 0) read(81, *) x2_1
      call xrtm_set_kernel_params_l_nn_f90(d, i0, x2_1, error)
      call st(error)
    case ('get_kernel_params_l')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      rd = xrtm_get_kernel_params_l_f90(d, i0, i1, i2)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('update_varied_layers')
      call xrtm_update_varied_layers_f90(d, error)
      call st(error)
    case ('qx')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_qx_f90(d, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('qw')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_qw_f90(d, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('kernel_qx')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_kernel_qx_f90(d, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('kernel_qw')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_kernel_qw_f90(d, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('solution')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_3)) deallocate(x2_3)
      allocate(x2_3(s(2), s(1)))
      if (size(x2_3) > 0) read(81, *) x2_3
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_4)) deallocate(x4_4)
      allocate(x4_4(s(4), s(3), s(2), s(1)))
      x4_4 = 0
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_5)) deallocate(x4_5)
      allocate(x4_5(s(4), s(3), s(2), s(1)))
      x4_5 = 0
      read(81, *) (s(i), i = 1, 5)
      if (allocated(x5_6)) deallocate(x5_6)
      allocate(x5_6(s(5), s(4), s(3), s(2), s(1)))
      x5_6 = 0
      read(81, *) (s(i), i = 1, 5)
      if (allocated(x5_7)) deallocate(x5_7)
      allocate(x5_7(s(5), s(4), s(3), s(2), s(1)))
      x5_7 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_8)) deallocate(x1_8)
      allocate(x1_8(s(1)))
      x1_8 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_9)) deallocate(x1_9)
      allocate(x1_9(s(1)))
      x1_9 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_10)) deallocate(x2_10)
      allocate(x2_10(s(2), s(1)))
      x2_10 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_11)) deallocate(x2_11)
      allocate(x2_11(s(2), s(1)))
      x2_11 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_12)) deallocate(x1_12)
      allocate(x1_12(s(1)))
      x1_12 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_13)) deallocate(x1_13)
      allocate(x1_13(s(1)))
      x1_13 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_14)) deallocate(x2_14)
      allocate(x2_14(s(2), s(1)))
      x2_14 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_15)) deallocate(x2_15)
      allocate(x2_15(s(2), s(1)))
      x2_15 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_16)) deallocate(x1_16)
      allocate(x1_16(s(1)))
      x1_16 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_17)) deallocate(x2_17)
      allocate(x2_17(s(2), s(1)))
      x2_17 = 0
      call xrtm_solution_f90(d, i0, i1, i2, x2_3, x4_4, x4_5, x5_6, x5_7, x1_8, x1_9, x2_10, x2_11, x1_12, x1_13, x2_14, x2_15, x1_16, x2_17, error)
      call st(error)
      if (error == 0) then
        if (size(x4_4) > 0) write(82, '(es25.16e3)') x4_4
        if (size(x4_5) > 0) write(82, '(es25.16e3)') x4_5
        if (size(x5_6) > 0) write(82, '(es25.16e3)') x5_6
        if (size(x5_7) > 0) write(82, '(es25.16e3)') x5_7
        if (size(x1_8) > 0) write(82, '(es25.16e3)') x1_8
        if (size(x1_9) > 0) write(82, '(es25.16e3)') x1_9
        if (size(x2_10) > 0) write(82, '(es25.16e3)') x2_10
        if (size(x2_11) > 0) write(82, '(es25.16e3)') x2_11
        if (size(x1_12) > 0) write(82, '(es25.16e3)') x1_12
        if (size(x1_13) > 0) write(82, '(es25.16e3)') x1_13
        if (size(x2_14) > 0) write(82, '(es25.16e3)') x2_14
        if (size(x2_15) > 0) write(82, '(es25.16e3)') x2_15
        if (size(x1_16) > 0) write(82, '(es25.16e3)') x1_16
        if (size(x2_17) > 0) write(82, '(es25.16e3)') x2_17
      end if
    case ('radiance')
      read(81, *) i0
      read(81, *) i1
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_2)) deallocate(x2_2)
      allocate(x2_2(s(2), s(1)))
      if (size(x2_2) > 0) read(81, *) x2_2
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_3)) deallocate(x4_3)
      allocate(x4_3(s(4), s(3), s(2), s(1)))
      x4_3 = 0
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_4)) deallocate(x4_4)
      allocate(x4_4(s(4), s(3), s(2), s(1)))
      x4_4 = 0
      read(81, *) (s(i), i = 1, 5)
      if (allocated(x5_5)) deallocate(x5_5)
      allocate(x5_5(s(5), s(4), s(3), s(2), s(1)))
      x5_5 = 0
      read(81, *) (s(i), i = 1, 5)
      if (allocated(x5_6)) deallocate(x5_6)
      allocate(x5_6(s(5), s(4), s(3), s(2), s(1)))
      x5_6 = 0
      call xrtm_radiance_f90(d, i0, i1, x2_2, x4_3, x4_4, x5_5, x5_6, error)
      call st(error)
      if (error == 0) then
        if (size(x4_3) > 0) write(82, '(es25.16e3)') x4_3
        if (size(x4_4) > 0) write(82, '(es25.16e3)') x4_4
        if (size(x5_5) > 0) write(82, '(es25.16e3)') x5_5
        if (size(x5_6) > 0) write(82, '(es25.16e3)') x5_6
      end if
    case ('mean_radiance')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      x1_1 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_2)) deallocate(x1_2)
      allocate(x1_2(s(1)))
      x1_2 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_3)) deallocate(x2_3)
      allocate(x2_3(s(2), s(1)))
      x2_3 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_4)) deallocate(x2_4)
      allocate(x2_4(s(2), s(1)))
      x2_4 = 0
      call xrtm_mean_radiance_f90(d, i0, x1_1, x1_2, x2_3, x2_4, error)
      call st(error)
      if (error == 0) then
        if (size(x1_1) > 0) write(82, '(es25.16e3)') x1_1
        if (size(x1_2) > 0) write(82, '(es25.16e3)') x1_2
        if (size(x2_3) > 0) write(82, '(es25.16e3)') x2_3
        if (size(x2_4) > 0) write(82, '(es25.16e3)') x2_4
      end if
    case ('flux')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      x1_1 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_2)) deallocate(x1_2)
      allocate(x1_2(s(1)))
      x1_2 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_3)) deallocate(x2_3)
      allocate(x2_3(s(2), s(1)))
      x2_3 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_4)) deallocate(x2_4)
      allocate(x2_4(s(2), s(1)))
      x2_4 = 0
      call xrtm_flux_f90(d, i0, x1_1, x1_2, x2_3, x2_4, error)
      call st(error)
      if (error == 0) then
        if (size(x1_1) > 0) write(82, '(es25.16e3)') x1_1
        if (size(x1_2) > 0) write(82, '(es25.16e3)') x1_2
        if (size(x2_3) > 0) write(82, '(es25.16e3)') x2_3
        if (size(x2_4) > 0) write(82, '(es25.16e3)') x2_4
      end if
    case ('flux_divergence')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      x1_1 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_2)) deallocate(x2_2)
      allocate(x2_2(s(2), s(1)))
      x2_2 = 0
      call xrtm_flux_divergence_f90(d, i0, x1_1, x2_2, error)
      call st(error)
      if (error == 0) then
        if (size(x1_1) > 0) write(82, '(es25.16e3)') x1_1
        if (size(x2_2) > 0) write(82, '(es25.16e3)') x2_2
      end if
    case ('fd_get_n_derivs')
      ri = xrtm_fd_get_n_derivs_f90(fd)
      if (ri == -huge(0)) then
        call st(1)
      else
        call st(0)
        write(82, '(i0)') ri
      end if
    case ('fd_set_delta')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_fd_set_delta_f90(fd, x1_0, error)
      call st(error)
    case ('fd_get_delta')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      x1_0 = 0
      call xrtm_fd_get_delta_f90(fd, x1_0, error)
      call st(error)
      if (error == 0) then
        if (size(x1_0) > 0) write(82, '(es25.16e3)') x1_0
      end if
    case ('fd_set_F_iso_top_p_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_fd_set_F_iso_top_p_1_f90(fd, i0, d1, error)
      call st(error)
    case ('fd_set_F_iso_top_p_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_fd_set_F_iso_top_p_n_f90(fd, x1_0, error)
      call st(error)
    case ('fd_get_F_iso_top_p')
      read(81, *) i0
      rd = xrtm_fd_get_F_iso_top_p_f90(fd, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_F_iso_bot_p_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_fd_set_F_iso_bot_p_1_f90(fd, i0, d1, error)
      call st(error)
    case ('fd_set_F_iso_bot_p_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_fd_set_F_iso_bot_p_n_f90(fd, x1_0, error)
      call st(error)
    case ('fd_get_F_iso_bot_p')
      read(81, *) i0
      rd = xrtm_fd_get_F_iso_bot_p_f90(fd, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_levels_b_p_1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_fd_set_levels_b_p_1_f90(fd, i0, x1_1, error)
      call st(error)
    case ('fd_set_levels_b_p_n')
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_0)) deallocate(x2_0)
      allocate(x2_0(s(2), s(1)))
      if (size(x2_0) > 0) read(81, *) x2_0
      call xrtm_fd_set_levels_b_p_n_f90(fd, x2_0, error)
      call st(error)
    case ('fd_get_levels_b_p')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      x1_1 = 0
      rd = xrtm_fd_get_levels_b_p_f90(fd, i0, x1_1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_surface_b_p_1')
      read(81, *) i0
      read(81, *) d1
      call xrtm_fd_set_surface_b_p_1_f90(fd, i0, d1, error)
      call st(error)
    case ('fd_set_surface_b_p_n')
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_0)) deallocate(x1_0)
      allocate(x1_0(s(1)))
      if (size(x1_0) > 0) read(81, *) x1_0
      call xrtm_fd_set_surface_b_p_n_f90(fd, x1_0, error)
      call st(error)
    case ('fd_get_surface_b_p')
      read(81, *) i0
      rd = xrtm_fd_get_surface_b_p_f90(fd, i0)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_g_p_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_fd_set_g_p_11_f90(fd, i0, i1, d2, error)
      call st(error)
    case ('fd_set_g_p_n1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_fd_set_g_p_n1_f90(fd, i0, x1_1, error)
      call st(error)
    case ('fd_set_g_p_1n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_fd_set_g_p_1n_f90(fd, i0, x1_1, error)
      call st(error)
    case ('fd_set_g_p_nn')
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_0)) deallocate(x2_0)
      allocate(x2_0(s(2), s(1)))
      if (size(x2_0) > 0) read(81, *) x2_0
      call xrtm_fd_set_g_p_nn_f90(fd, x2_0, error)
      call st(error)
    case ('fd_get_g_p')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_fd_get_g_p_f90(fd, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_coef_p_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_2)) deallocate(x2_2)
      allocate(x2_2(s(2), s(1)))
      if (size(x2_2) > 0) read(81, *) x2_2
      call xrtm_fd_set_coef_p_11_f90(fd, i0, i1, x2_2, error)
      call st(error)
    case ('fd_set_coef_p_n1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 3)
      if (allocated(x3_1)) deallocate(x3_1)
      allocate(x3_1(s(3), s(2), s(1)))
      if (size(x3_1) > 0) read(81, *) x3_1
      call xrtm_fd_set_coef_p_n1_f90(fd, i0, x3_1, error)
      call st(error)
    case ('fd_set_coef_p_1n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 3)
      if (allocated(x3_1)) deallocate(x3_1)
      allocate(x3_1(s(3), s(2), s(1)))
      if (size(x3_1) > 0) read(81, *) x3_1
      call xrtm_fd_set_coef_p_1n_f90(fd, i0, x3_1, error)
      call st(error)
    case ('fd_set_coef_p_nn')
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_0)) deallocate(x4_0)
      allocate(x4_0(s(4), s(3), s(2), s(1)))
      if (size(x4_0) > 0) read(81, *) x4_0
      call xrtm_fd_set_coef_p_nn_f90(fd, x4_0, error)
      call st(error)
    case ('fd_get_coef_p')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      read(81, *) i3
      rd = xrtm_fd_get_coef_p_f90(fd, i0, i1, i2, i3)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_omega_p_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_fd_set_omega_p_11_f90(fd, i0, i1, d2, error)
      call st(error)
    case ('fd_set_omega_p_n1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_fd_set_omega_p_n1_f90(fd, i0, x1_1, error)
      call st(error)
    case ('fd_set_omega_p_1n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_fd_set_omega_p_1n_f90(fd, i0, x1_1, error)
      call st(error)
    case ('fd_set_omega_p_nn')
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_0)) deallocate(x2_0)
      allocate(x2_0(s(2), s(1)))
      if (size(x2_0) > 0) read(81, *) x2_0
      call xrtm_fd_set_omega_p_nn_f90(fd, x2_0, error)
      call st(error)
    case ('fd_get_omega_p')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_fd_get_omega_p_f90(fd, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_ltau_p_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_fd_set_ltau_p_11_f90(fd, i0, i1, d2, error)
      call st(error)
    case ('fd_set_ltau_p_n1')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_fd_set_ltau_p_n1_f90(fd, i0, x1_1, error)
      call st(error)
    case ('fd_set_ltau_p_1n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_fd_set_ltau_p_1n_f90(fd, i0, x1_1, error)
      call st(error)
    case ('fd_set_ltau_p_nn')
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_0)) deallocate(x2_0)
      allocate(x2_0(s(2), s(1)))
      if (size(x2_0) > 0) read(81, *) x2_0
      call xrtm_fd_set_ltau_p_nn_f90(fd, x2_0, error)
      call st(error)
    case ('fd_get_ltau_p')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_fd_get_ltau_p_f90(fd, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_kernel_ampfac_p_1')
      read(81, *) i0
      read(81, *) i1
      read(81, *) d2
      call xrtm_fd_set_kernel_ampfac_p_1_f90(fd, i0, i1, d2, error)
      call st(error)
    case ('fd_set_kernel_ampfac_p_n')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_1)) deallocate(x1_1)
      allocate(x1_1(s(1)))
      if (size(x1_1) > 0) read(81, *) x1_1
      call xrtm_fd_set_kernel_ampfac_p_n_f90(fd, i0, x1_1, error)
      call st(error)
    case ('fd_get_kernel_ampfac_p')
      read(81, *) i0
      read(81, *) i1
      rd = xrtm_fd_get_kernel_ampfac_p_f90(fd, i0, i1)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_set_kernel_params_p_11')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      read(81, *) d3
      call xrtm_fd_set_kernel_params_p_11_f90(fd, i0, i1, i2, d3, error)
      call st(error)
    case ('fd_set_kernel_params_p_1n')
      read(81, *) i0
      read(81, *) i1
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_2)) deallocate(x1_2)
      allocate(x1_2(s(1)))
      if (size(x1_2) > 0) read(81, *) x1_2
      call xrtm_fd_set_kernel_params_p_1n_f90(fd, i0, i1, x1_2, error)
      call st(error)
    case ('fd_set_kernel_params_p_n1')
      read(81, *) i0
      read(81, *) i1
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_2)) deallocate(x1_2)
      allocate(x1_2(s(1)))
      if (size(x1_2) > 0) read(81, *) x1_2
      call xrtm_fd_set_kernel_params_p_n1_f90(fd, i0, i1, x1_2, error)
      call st(error)
    case ('fd_set_kernel_params_p_nn')
      read(81, *) i0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_1)) deallocate(x2_1)
      allocate(x2_1(s(2), s(1)))
      if (size(x2_1) > 0) read(81, *) x2_1
      call xrtm_fd_set_kernel_params_p_nn_f90(fd, i0, x2_1, error)
      call st(error)
    case ('fd_get_kernel_params_p')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      rd = xrtm_fd_get_kernel_params_p_f90(fd, i0, i1, i2)
      if (rd == -huge(1d0)) then
        call st(1)
      else
        call st(0)
        write(82, '(es25.16e3)') rd
      end if
    case ('fd_solution')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      read(81, *) i3
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_4)) deallocate(x2_4)
      allocate(x2_4(s(2), s(1)))
      if (size(x2_4) > 0) read(81, *) x2_4
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_5)) deallocate(x4_5)
      allocate(x4_5(s(4), s(3), s(2), s(1)))
      x4_5 = 0
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_6)) deallocate(x4_6)
      allocate(x4_6(s(4), s(3), s(2), s(1)))
      x4_6 = 0
      read(81, *) (s(i), i = 1, 5)
      if (allocated(x5_7)) deallocate(x5_7)
      allocate(x5_7(s(5), s(4), s(3), s(2), s(1)))
      x5_7 = 0
      read(81, *) (s(i), i = 1, 5)
      if (allocated(x5_8)) deallocate(x5_8)
      allocate(x5_8(s(5), s(4), s(3), s(2), s(1)))
      x5_8 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_9)) deallocate(x1_9)
      allocate(x1_9(s(1)))
      x1_9 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_10)) deallocate(x1_10)
      allocate(x1_10(s(1)))
      x1_10 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_11)) deallocate(x2_11)
      allocate(x2_11(s(2), s(1)))
      x2_11 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_12)) deallocate(x2_12)
      allocate(x2_12(s(2), s(1)))
      x2_12 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_13)) deallocate(x1_13)
      allocate(x1_13(s(1)))
      x1_13 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_14)) deallocate(x1_14)
      allocate(x1_14(s(1)))
      x1_14 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_15)) deallocate(x2_15)
      allocate(x2_15(s(2), s(1)))
      x2_15 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_16)) deallocate(x2_16)
      allocate(x2_16(s(2), s(1)))
      x2_16 = 0
      read(81, *) (s(i), i = 1, 1)
      if (allocated(x1_17)) deallocate(x1_17)
      allocate(x1_17(s(1)))
      x1_17 = 0
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_18)) deallocate(x2_18)
      allocate(x2_18(s(2), s(1)))
      x2_18 = 0
      call xrtm_fd_solution_f90(fd, i0, i1, i2, i3, x2_4, x4_5, x4_6, x5_7, x5_8, x1_9, x1_10, x2_11, x2_12, x1_13, x1_14, x2_15, x2_16, x1_17, x2_18, error)
      call st(error)
      if (error == 0) then
        if (size(x4_5) > 0) write(82, '(es25.16e3)') x4_5
        if (size(x4_6) > 0) write(82, '(es25.16e3)') x4_6
        if (size(x5_7) > 0) write(82, '(es25.16e3)') x5_7
        if (size(x5_8) > 0) write(82, '(es25.16e3)') x5_8
        if (size(x1_9) > 0) write(82, '(es25.16e3)') x1_9
        if (size(x1_10) > 0) write(82, '(es25.16e3)') x1_10
        if (size(x2_11) > 0) write(82, '(es25.16e3)') x2_11
        if (size(x2_12) > 0) write(82, '(es25.16e3)') x2_12
        if (size(x1_13) > 0) write(82, '(es25.16e3)') x1_13
        if (size(x1_14) > 0) write(82, '(es25.16e3)') x1_14
        if (size(x2_15) > 0) write(82, '(es25.16e3)') x2_15
        if (size(x2_16) > 0) write(82, '(es25.16e3)') x2_16
        if (size(x1_17) > 0) write(82, '(es25.16e3)') x1_17
        if (size(x2_18) > 0) write(82, '(es25.16e3)') x2_18
      end if
    case ('fd_radiance')
      read(81, *) i0
      read(81, *) i1
      read(81, *) i2
      read(81, *) (s(i), i = 1, 2)
      if (allocated(x2_3)) deallocate(x2_3)
      allocate(x2_3(s(2), s(1)))
      if (size(x2_3) > 0) read(81, *) x2_3
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_4)) deallocate(x4_4)
      allocate(x4_4(s(4), s(3), s(2), s(1)))
      x4_4 = 0
      read(81, *) (s(i), i = 1, 4)
      if (allocated(x4_5)) deallocate(x4_5)
      allocate(x4_5(s(4), s(3), s(2), s(1)))
      x4_5 = 0
      read(81, *) (s(i), i = 1, 5)
      if (allocated(x5_6)) deallocate(x5_6)
      allocate(x5_6(s(5), s(4), s(3), s(2), s(1)))
      x5_6 = 0
      read(81, *) (s(i), i = 1, 5)
      if (allocated(x5_7)) deallocate(x5_7)
      allocate(x5_7(s(5), s(4), s(3), s(2), s(1)))
      x5_7 = 0
      call xrtm_fd_radiance_f90(fd, i0, i1, i2, x2_3, x4_4, x4_5, x5_6, x5_7, error)
      call st(error)
      if (error == 0) then
        if (size(x4_4) > 0) write(82, '(es25.16e3)') x4_4
        if (size(x4_5) > 0) write(82, '(es25.16e3)') x4_5
        if (size(x5_6) > 0) write(82, '(es25.16e3)') x5_6
        if (size(x5_7) > 0) write(82, '(es25.16e3)') x5_7
      end if
    end select
  end do
  close(81)
  close(82)
contains
  subroutine st(e)
    integer, intent(in) :: e
    if (e == 0) then
      write(82, '(a)') 'ok'
    else
      write(82, '(a)') 'error'
    end if
  end subroutine
end subroutine drv_f90
