// SPH kernels (include/physics/kernels.h).
#include "verif.h"
#include <cfloat>
// the code regularises 1/r by TINY = 1e10*DBL_MIN (2e-298); the exact-real
// encoding sets it to zero and keeps r away from zero instead
#undef DBL_MIN
#define DBL_MIN 0.0
#include "user.h"
#include "params.h"
#include "kernels.h"
using namespace kernels;
static const int D = gdimension;
#define KER param::KW
static double Wf(double r, double h) { return kernel<KER, gdimension>(r, h); }
static point_t axis(double r) {
  point_t p(0.);
  p[0] = r;
  return p;
}
static double dW(double r, double h) { return kernel_gradient<KER, gdimension>(axis(r), h)[0]; }
static void setup() {
  if(param::KW == param::sinc_ker) set_sinc_kernel_normalization(4.0);
}
static bool gaussian_like() {
  return param::KW == param::gaussian || param::KW == param::super_gaussian || param::KW == param::sinc_ker;
}
// breakpoints of the piecewise polynomial, in units of h
static int npieces() { return param::KW == param::cubic_spline ? 2 : param::KW == param::quintic_spline ? 3 : 1; }

ENTRY(support) {
  setup();
  double r = v_real("r"), h = v_real("h");
  v_assume(h > 0. && r >= h);
  double w = Wf(r, h);
  if(param::KW == param::gaussian) v_assume(r > h);
  v_check_eq(Wf(r, h), 0., "kernel vanishes outside its support");
  v_check_eq(dW(r, h), 0., "gradient vanishes outside its support");
  v_check_eq(dW(-r, h), 0., "gradient vanishes outside its support");
  v_reach("end");
}
ENTRY(positive) { // h = 1; see scaling
  setup();
  double r = v_real("r");
  v_assume(r >= 0. && r < 1.);
  v_check(Wf(r, 1.) >= 0., "kernel is not negative");
  if(!(r == 0.)) v_check(dW(r, 1.) <= 0., "kernel does not increase with distance");
  v_reach("end");
}
ENTRY(scaling) {
  setup();
  double u = v_real("u"), h = v_real("h");
  v_assume(u > 0. && u < 1. && h > 0.);
  double hd = h;
  for(int i = 1; i < D; ++i) hd *= h;
  v_check_eq(Wf(u * h, h) * hd, Wf(u, 1.), "W(u h, h) h^D is independent of h");
  v_check_eq(dW(u * h, h) * hd * h, dW(u, 1.), "the gradient scales as h^-(D+1)");
  v_reach("end");
}
ENTRY(direction) {
  setup();
  point_t v;
  for(int i = 0; i < D; ++i) v[i] = v_real("v");
  double h = v_real("h");
  double r = flecsi::magnitude(v);
  v_assume(r > 0. && h > 0. && r < h);
  point_t g = kernel_gradient<KER, gdimension>(v, h), n = kernel_gradient<KER, gdimension>(point_t(v * -1.), h);
  double gr = dW(r, h);
  for(int i = 0; i < D; ++i) {
    v_check_eq(g[i], -n[i], "gradient is odd");
    v_check_eq(g[i] * r, gr * v[i], "gradient is radial and depends on the distance only");
  }
  v_reach("end");
}
// W(b)-W(a) equals the integral of the gradient for all a<b of one piece: the
// closed 11-point Newton-Cotes rule is exact for polynomials of degree <= 11
ENTRY(derivative) {
  double a = v_real("a"), d = v_real("d");
  int np = npieces(), p = (int)v_pick("piece", 0, np - 1);
  double lo = double(p), hi = double(p + 1);
  v_assume(a > 0. && d >= 0. && a * np >= lo && (a + 10 * d) * np < hi);
  static const double N[11] = {16067, 106300, -48525, 272400, -260550, 427368, -260550, 272400, -48525,
    106300, 16067};
  double s = 0;
  // the Wendland gradients divide by r + TINY: undo that perturbation, so that
  // the comparison is between polynomials
  bool w = param::KW == param::wendland_c2 || param::KW == param::wendland_c4 || param::KW == param::wendland_c6;
  for(int i = 0; i <= 10; ++i) {
    double r = a + i * d;
    s += N[i] * dW(r, 1.) * (w ? (r + TINY) / r : 1.);
  }
  v_check_near((Wf(a + 10 * d, 1.) - Wf(a, 1.)) * 299376., 5 * d * s, 1e-7,
    "the gradient is the derivative of the kernel");
  v_reach("end");
}
ENTRY(gradient_form) { // exponential and sinc kernels
  setup();
  double r = v_real("r");
  v_assume(r > 0.001 && r < 1.);
  double w = Wf(r, 1.), g = dW(r, 1.);
  if(param::KW == param::gaussian) v_check_near(g, -18. * r * w, 1e-9, "the gradient is the derivative of the kernel");
  if(param::KW == param::super_gaussian) {
    double q = 3. * r;
    v_check_near(g * (D / 2. + 1. - q * q), w * 3. * (2. * q * q * q - (D + 4.) * q), 1e-9,
      "the gradient is the derivative of the kernel");
  }
  if(param::KW == param::sinc_ker) {
    double x = r * M_PI;
    v_check_near(g * sin(x) * x, 4. * w * M_PI * (x * cos(x) - sin(x)), 1e-9, "the gradient is the derivative of the kernel");
  }
  v_reach("end");
}
// no jump at the borders between pieces and at the edge of the support
ENTRY(continuous) {
  int np = npieces(), p = (int)v_pick("border", 1, np);
  double t = v_real("t");
  v_assume(t > 0. && t <= 0.0078125);
  double x = double(p) / np;
  double e = Wf(x + t, 1.) - Wf(x - t, 1.);
  v_check(e <= 64. * t + 1e-9 && e >= -64. * t - 1e-9, "the kernel has no jump");
  double g = dW(x + t, 1.) - dW(x - t, 1.);
  v_check(g <= 512. * t + 1e-9 && g >= -512. * t - 1e-9, "the gradient has no jump");
  v_reach("end");
}
// integral over all space, exact quadrature of W r^(D-1) on every piece
ENTRY(normalised) {
  static const double N[11] = {16067, 106300, -48525, 272400, -260550, 427368, -260550, 272400, -48525,
    106300, 16067};
  const int SUB = 4, np = npieces() * SUB;
  double s = 0, scale = v_pick("h", 1, 2);
  for(int p = 0; p < np; ++p)
    for(int i = 0; i <= 10; ++i) {
      double u = (p + i / 10.) / np * scale;
      double w = Wf(u, scale);
      for(int k = 1; k < D; ++k) w *= u;
      s += N[i] * w;
    }
  s *= scale / (10. * np) * 5. / 299376.;
  s *= D == 1 ? 2. : D == 2 ? 2. * M_PI : 4. * M_PI;
  v_check_near(s, 1., 1e-6, "the kernel integrates to one");
  v_reach("end");
}
ENTRY(selector) {
  static const param::sph_kernel_keyword all[8] = {param::cubic_spline, param::quintic_spline, param::wendland_c2,
    param::wendland_c4, param::wendland_c6, param::gaussian, param::super_gaussian, param::sinc_ker};
  const double width[8] = {2., 3., 2., 2., 2., 3., 3., 2.};
  int k = (int)v_pick("keyword", 0, 7);
  param::_sph_kernel = all[k];
  select();
  v_check(kernel_width == width[k], "kernel width of the chosen kernel");
  double r = v_real("r"), h = v_real("h");
  v_assume(h > 0. && r > 0. && r < h);
  double w[8], g[8];
  point_t v = axis(r);
#define ROW(i, K) if(k == i) { \
    v_check_eq(sph_kernel_function(r, h), (kernel<param::K, gdimension>(r, h)), "selected kernel is the one asked for"); \
    v_check_eq(sph_kernel_gradient(v, h)[0], (kernel_gradient<param::K, gdimension>(v, h)[0]), \
      "selected gradient is the one asked for"); }
  ROW(0, cubic_spline) ROW(1, quintic_spline) ROW(2, wendland_c2) ROW(3, wendland_c4)
  ROW(4, wendland_c6) ROW(5, gaussian) ROW(6, super_gaussian) ROW(7, sinc_ker)
  v_reach("end");
}
