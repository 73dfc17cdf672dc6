// SPH equations (include/physics/default_physics.h, viscosity.h, eos.h, ...).
#include "verif.h"
#include <cfloat>
#undef DBL_MIN
#define DBL_MIN 0.0 // see kern.cc
#include "user.h"
#include "params.h"
#include "default_physics.h"
using namespace physics;
static const int D = gdimension;

// any kernel with an odd, radial gradient (W01 decides that for the real ones)
static double kf(const double & r, const double & h) { return exp(-(r * r) - h); }
static point_t kg(const point_t & p, const double & h) {
  double r2 = 0;
  for(int i = 0; i < D; ++i) r2 += p[i] * p[i];
  return point_t(p * (-exp(-r2 - h)));
}
static double pos_real(const char * n) {
  double x = v_real(n);
  v_assume(x > 0.);
  return x;
}
static point_t vec(const char * n) {
  point_t p;
  for(int i = 0; i < D; ++i) p[i] = v_real(n);
  return p;
}
static void make(body & b, size_t id) {
  b.set_coordinates(vec("x"));
  b.set_mass(pos_real("m"));
  b.set_radius(pos_real("h"));
  b.set_id(id);
  b.setDensity(pos_real("rho"));
  b.setPressure(v_real("P"));
  b.setSoundspeed(v_real("c"));
  b.setAlpha(v_real("alpha"));
  point_t v = vec("v");
  b.setVelocity(v);
  b.setVelocityhalf(vec("vh"));
  b.setType((particle_type_t)(int)v_bool("wall"));
  b.setGAcceleration(point_t(0.));
  b.setGPotential(0.);
}
static void distinct(const body & a, const body & b) {
  point_t d = a.coordinates() - b.coordinates();
  double r2 = 0;
  for(int i = 0; i < D; ++i) r2 += d[i] * d[i];
  v_assume(r2 > 0.);
}
// kernel value and gradient of the one pair at hand
static double W1;
static point_t G1;
static double kf1(const double &, const double &) { return W1; }
static point_t kg1(const point_t &, const double &) { return G1; }
static void setup() {
  kernels::sph_kernel_function = kf;
  kernels::sph_kernel_gradient = kg;
  param::_sph_viscosity = v_pick("visc", 0, 1) ? param::visc_cullen : param::visc_constant;
  viscosity::select();
  param::_sph_viscosity_alpha = v_real("pa");
  param::_sph_viscosity_beta = v_real("pb");
  param::_sph_viscosity_epsilon = pos_real("pe");
}
#ifndef NP
#define NP 2
#endif
static void fill(body * b, std::vector<body *> * nb) {
  for(int i = 0; i < NP; ++i) make(b[i], i + 1);
  for(int i = 0; i < NP; ++i)
    for(int j = 0; j < i; ++j) distinct(b[i], b[j]);
  for(int i = 0; i < NP; ++i)
    for(int j = 0; j < NP; ++j) nb[i].push_back(&b[j]); // includes itself, as the tree does
}
// ------------------------------------------------ conservation of momentum
ENTRY(momentum) {
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  for(int i = 0; i < NP; ++i) compute_acceleration(b[i], nb[i]);
  for(int d = 0; d < D; ++d) {
    double s = 0;
    for(int i = 0; i < NP; ++i) s += b[i].mass() * b[i].getAcceleration()[d];
    v_check_eq(s, 0., "pressure and viscous forces conserve momentum");
  }
  for(int d = 0; d < D; ++d)
    for(int e = 0; e < d; ++e) {
      double s = 0;
      for(int i = 0; i < NP; ++i) {
        point_t x = b[i].coordinates(), a = b[i].getAcceleration();
        s += b[i].mass() * (x[d] * a[e] - x[e] * a[d]);
      }
      v_check_eq(s, 0., "pressure and viscous forces conserve angular momentum");
    }
  v_reach("end");
}
// --------------------------------------------------- conservation of energy
ENTRY(energy_u) {
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  param::_relaxation_steps = 0;
  double s = 0;
  for(int i = 0; i < NP; ++i) {
    compute_acceleration(b[i], nb[i]);
    compute_dudt(b[i], nb[i]);
    s += b[i].mass() * (flecsi::dot(b[i].getVelocity(), b[i].getAcceleration()) + b[i].getDudt());
  }
  v_check_eq(s, 0., "work done equals the internal energy lost");
  v_reach("end");
}
ENTRY(energy_e) {
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  double s = 0;
  for(int i = 0; i < NP; ++i) {
    compute_dedt(b[i], nb[i]);
    s += b[i].mass() * b[i].getDedt();
  }
  v_check_eq(s, 0., "energy exchange conserves the total energy");
  v_reach("end");
}
// the two formulations agree: de/dt = du/dt + v . dv/dt
ENTRY(energy_same) {
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  point_t ga = vec("ga");
  compute_acceleration(b[0], nb[0]);
  compute_dudt(b[0], nb[0]);
  point_t acc = b[0].getAcceleration();
  b[0].setGAcceleration(ga);
  compute_dedt(b[0], nb[0]);
  double e = b[0].getDudt() + flecsi::dot(b[0].getVelocity(), acc + ga);
  v_check_eq(b[0].getDedt(), e, "total and internal energy rates agree");
  v_reach("end");
}
// equations of motion against the formula, velocity at half step different
ENTRY(equation) {
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  compute_acceleration(b[0], nb[0]);
  compute_dudt(b[0], nb[0]);
  point_t acc = 0.;
  double du = 0;
  for(int j = 1; j < NP; ++j) {
    point_t r = b[0].coordinates() - b[j].coordinates(), w = b[0].getVelocityhalf() - b[j].getVelocityhalf(),
            v = b[0].getVelocity() - b[j].getVelocity();
    double h = .5 * (b[0].radius() + b[j].radius()), rho = .5 * (b[0].getDensity() + b[j].getDensity()),
           c = .5 * (b[0].getSoundspeed() + b[j].getSoundspeed()), al = .5 * (b[0].getAlpha() + b[j].getAlpha());
    double pi = viscosity::sph_artificial_viscosity(al, rho, c, viscosity::mu(h, w, r));
    point_t g = kg(r, h);
    double pa = b[0].getPressure() / (b[0].getDensity() * b[0].getDensity()),
           pb = b[j].getPressure() / (b[j].getDensity() * b[j].getDensity());
    for(int d = 0; d < D; ++d) acc[d] -= b[j].mass() * (pa + pb + pi) * g[d];
    du += b[j].mass() * (pa + .5 * pi) * flecsi::dot(v, g);
  }
  for(int d = 0; d < D; ++d) v_check_eq(b[0].getAcceleration()[d], acc[d], "acceleration is the SPH sum");
  v_check_eq(b[0].getDudt(), du, "internal energy rate is the SPH sum");
  v_reach("end");
}
ENTRY(relaxation) { // no heating during relaxation, drag opposes the motion
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  int64_t steps = v_pick("steps", 0, 3);
  physics::iteration = v_pick("iteration", 0, 3);
  param::_relaxation_steps = steps;
  compute_dudt(b[0], nb[0]);
  if(physics::iteration < steps) v_check_eq(b[0].getDudt(), 0., "internal energy is frozen during relaxation");
  param::_relaxation_beta = v_real("beta");
  param::_relaxation_gamma = v_real("gamma");
  v_assume(param::relaxation_beta >= 0. && param::relaxation_gamma >= 0.);
  b[0].setAcceleration(vec("a"));
  point_t a0 = b[0].getAcceleration(), v = b[0].getVelocity();
  add_drag_acceleration(b[0]);
  point_t dr = b[0].getAcceleration() - a0;
  double v2 = flecsi::dot(v, v), k = param::relaxation_beta + param::relaxation_gamma * v2;
  for(int d = 0; d < D; ++d) v_check_eq(dr[d], -k * v[d], "drag opposes the velocity");
  b[0].setDedt(0.);
  b[0].setDudt(0.);
  add_drag_dedt(b[0]);
  add_drag_dudt(b[0]);
  v_check_eq(b[0].getDedt(), -k * v2, "drag power in the energy equation");
  v_check_eq(b[0].getDudt(), -k * v2, "drag power in the internal energy equation");
  v_reach("end");
}
ENTRY(repulsion) {
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  param::_relaxation_repulsion_gamma = v_real("gamma");
  param::_relaxation_repulsion_radius = pos_real("rr");
  point_t a0[NP];
  for(int i = 0; i < NP; ++i) {
    a0[i] = vec("a");
    b[i].setAcceleration(a0[i]);
    add_short_range_repulsion(b[i], nb[i]);
  }
  for(int d = 0; d < D; ++d) {
    double s = 0;
    for(int i = 0; i < NP; ++i) s += b[i].mass() * (b[i].getAcceleration()[d] - a0[i][d]);
    v_check_eq(s, 0., "repulsion conserves momentum");
  }
  point_t f = b[0].getAcceleration() - a0[0];
  if(NP == 2) {
    point_t r = b[0].coordinates() - b[1].coordinates();
    double fr = flecsi::dot(f, r), R = flecsi::magnitude(r), h = .5 * (b[0].radius() + b[1].radius());
    bool in = R <= h * param::relaxation_repulsion_radius;
    v_check_eq(fr * R, in ? param::relaxation_repulsion_gamma * b[1].mass() : 0., "repulsion falls off as 1/r^2 inside its radius");
  }
  v_reach("end");
}
// ----------------------------------------------------------------- density
ENTRY(density) {
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  compute_density(b[0], nb[0]);
  double s = 0;
  for(int j = 0; j < NP; ++j)
    s += b[j].mass() * kf(flecsi::distance(b[0].coordinates(), b[j].coordinates()), .5 * (b[0].radius() + b[j].radius()));
  v_check_eq(b[0].getDensity(), s, "density is the kernel sum over all neighbours and itself");
  v_check(b[0].getDensity() > 0., "density is positive");
  v_reach("end");
}
ENTRY(signal) {
  setup();
  body b[NP];
  std::vector<body *> nb[NP];
  fill(b, nb);
  for(int i = 0; i < NP; ++i) v_assume(b[i].getSoundspeed() > 0.);
  compute_signalspeed(b[0], nb[0]);
  double v = b[0].getSignalspeed();
  v_check(v >= b[0].getSoundspeed(), "signal speed is at least the sound speed");
  for(int j = 1; j < NP; ++j) {
    v_check(v >= b[j].getSoundspeed(), "signal speed is at least the neighbours' sound speed");
    point_t r = b[0].coordinates() - b[j].coordinates(), w = b[0].getVelocity() - b[j].getVelocity();
    double R = flecsi::magnitude(r), a = -flecsi::dot(r, w);
    v_check((v - b[0].getSoundspeed()) * R >= a, "signal speed covers the approach speed");
  }
  v_reach("end");
}
ENTRY(smoothing) {
  setup();
  std::vector<body> b(2);
  param::_sph_eta = pos_real("eta");
  kernels::kernel_width = 2.;
  for(int i = 0; i < 2; ++i) make(b[i], i);
  compute_smoothinglength(b);
  for(int i = 0; i < 2; ++i) {
    double h = b[i].radius(), x = h / (param::sph_eta * kernels::kernel_width), y = 1.;
    for(int d = 0; d < D; ++d) y *= x;
    v_check_eq(y * b[i].getDensity(), b[i].mass(), "smoothing length follows the particle volume");
    v_check(h > 0., "smoothing length is positive");
  }
  double h0 = b[0].radius(), h1 = b[1].radius();
  compute_average_smoothinglength(b, 2);
  v_check_eq(b[0].radius(), .5 * (h0 + h1), "average smoothing length");
  v_check_eq(b[1].radius(), .5 * (h0 + h1), "average smoothing length");
  v_reach("end");
}
// the average is taken over the particles of all ranks
struct shared_t { double h[4]; };
static void average_main(int r, void * a) {
  shared_t * sh = (shared_t *)a;
  int n = r == 0 ? v_pick("n", 1, 2) : 1;
  int64_t total = n + 1;
  MPI_Bcast(&total, 1, MPI_INT64_T, 0, MPI_COMM_WORLD);
  std::vector<body> b(n);
  for(int i = 0; i < n; ++i) {
    make(b[i], i);
    b[i].setDensity(1.);
    b[i].set_mass(pos_real("mass"));
  }
  param::_sph_eta = 1.5;
  kernels::kernel_width = 2.;
  compute_smoothinglength(b);
  for(int i = 0; i < n; ++i) sh->h[2 * r + i] = b[i].radius();
  MPI_Barrier(MPI_COMM_WORLD);
  double sum = sh->h[0] + sh->h[2];
  if(total == 3) sum += sh->h[1];
  compute_average_smoothinglength(b, total);
  for(int i = 0; i < n; ++i) v_check_eq(b[i].radius() * total, sum, "average smoothing length over all ranks");
  v_reach("rank");
}
ENTRY(smoothing_ranks) {
  v_ranks(2, average_main, v_shared(sizeof(shared_t)));
  v_reach("end");
}
// --------------------------------------------------------------- viscosity
ENTRY(mu_sign) {
  setup();
  double h = pos_real("h");
  point_t v = vec("v"), x = vec("x");
  double r2 = flecsi::dot(x, x), vr = flecsi::dot(v, x);
  v_assume(r2 > 0.);
  double m = viscosity::mu(h, v, x);
  v_check(m <= 0., "mu is never positive");
  v_check(vr < 0. || m == 0., "no viscosity between receding particles");
  v_check(!(vr < 0.) || m < 0., "viscosity acts on approaching particles");
  v_check_eq(m * (r2 + param::sph_viscosity_epsilon * h * h), vr < 0. ? h * vr : 0., "mu is the regularised approach rate");
  v_check_eq(viscosity::mu(h, point_t(v * -1.), point_t(x * -1.)), m, "mu is symmetric in the pair");
  v_reach("end");
}
ENTRY(pi_sign) {
  setup();
  double al = v_real("al"), rho = pos_real("rho"), c = v_real("c"), m = v_real("mu");
  v_assume(al >= 0. && c >= 0. && m <= 0. && param::sph_viscosity_alpha >= 0. && param::sph_viscosity_beta >= 0.);
  double p = viscosity::sph_artificial_viscosity(al, rho, c, m);
  v_check(p >= 0., "artificial viscosity only dissipates");
  v_check(!(m == 0.) || p == 0., "no artificial viscosity without approach");
  v_check_eq(viscosity::artificial_viscosity(rho, c, m) * rho,
    (-param::sph_viscosity_alpha * c + param::sph_viscosity_beta * m) * m, "viscosity formula");
  double a = param::sph_viscosity == param::visc_cullen ? al : param::sph_viscosity_alpha,
         be = param::sph_viscosity == param::visc_cullen ? 2. * al : param::sph_viscosity_beta;
  v_check_eq(p * rho, -a * c * m + be * m * m, "viscosity formula");
  v_reach("end");
}
static void pair(body * b, std::vector<body *> * nb) {
  setup();
  fill(b, nb);
  kernels::sph_kernel_function = kf1;
  kernels::sph_kernel_gradient = kg1;
  W1 = v_real("W");
  v_assume(W1 >= 0.);
  G1 = vec("G");
  for(int i = 0; i < NP; ++i) b[i].setDivergenceV(v_real("div"));
}
ENTRY(limiter) {
  body b[NP];
  std::vector<body *> nb[NP];
  pair(b, nb);
  double xi = viscosity::compute_xi(b[0], nb[0]);
  v_check(xi >= 0. && xi <= 1., "shear limiter is between zero and one");
  v_check(b[0].getTraceSS() >= 0., "shear measure is not negative");
  v_reach("end");
}
ENTRY(alpha_range) {
  body b[NP];
  std::vector<body *> nb[NP];
  pair(b, nb);
  point_t x0 = 0., x1 = 0.; // unit distance along one axis; kernel value 0 (limiter: every value)
  x1[v_pick("axis", 0, D - 1)] = 1.;
  b[0].set_coordinates(x0);
  b[1].set_coordinates(x1);
  W1 = 0.;
  double amax = pos_real("amax");
  param::_sph_viscosity_alpha_max = amax;
  param::_sph_viscosity_delta = pos_real("delta");
  param::_sph_viscosity_l = pos_real("l");
  physics::dt = pos_real("dt");
  for(int i = 0; i < NP; ++i) {
    v_assume(b[i].getSoundspeed() > 0.);
    b[i].setDdivvdt(v_real("ddiv"));
  }
  double a0 = b[0].getAlpha();
  v_assume(a0 >= 0. && a0 <= amax);
  viscosity::compute_alpha(b[0], nb[0]);
  v_check(b[0].getAlpha() >= 0. && b[0].getAlpha() <= amax, "viscosity parameter stays between zero and its maximum");
  v_reach("end");
}
ENTRY(alpha_init) {
  setup();
  body b;
  make(b, 1);
  viscosity::initialize_alpha(b);
  v_check_eq(b.getAlpha(), param::sph_viscosity == param::visc_constant ? param::sph_viscosity_alpha : 0., "initial viscosity parameter");
  v_reach("end");
}
