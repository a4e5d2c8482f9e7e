// User-defined BRDF kernel: a smooth, positive, reciprocal form, written only against the callback signature.
//   f = p0 + p1 ci cj + p2 (1 + si sj cos(phi)) + p3 (ci + cj)^2 / 4
static double uk_val(const double *p, double ci, double cj, double si, double sj, double cphi) { double s = ci + cj; return p[0] + p[1] * ci * cj + p[2] * (1 + si * sj * cphi) + p[3] * s * s / 4; }
static void uk_aux(brdf_aux_data *, void *, int, int, int, uchar *, double *, double **) { }
static double uk_fun(brdf_aux_data *a, void *, enum xrtm_brdf_geometry, int i, int j, int k, double, int nd, uchar *dv, double *p, double **pl, double *fl) {
  double ci = a->cos_theta[i], cj = a->cos_theta[j], si = a->sin_theta[i], sj = a->sin_theta[j], cp = a->cos_phi[k];
  for (int q = 0; q < nd; ++q) if (dv[q]) fl[q] = uk_val(pl[q], ci, cj, si, sj, cp);
  return uk_val(p, ci, cj, si, sj, cp);
}
// "lambert as user kernel": constant p0
static double uc_fun(brdf_aux_data *, void *, enum xrtm_brdf_geometry, int, int, int, double, int nd, uchar *dv, double *p, double **pl, double *fl) {
  for (int q = 0; q < nd; ++q) if (dv[q]) fl[q] = pl[q][0];
  return p[0];
}
kaux_t USER_AUX = uk_aux; kfun_t USER_FUN = uk_fun;
