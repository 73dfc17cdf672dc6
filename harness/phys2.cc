// Equations of state, external forces, profiles, time integration, periodic images.
#include "verif.h"
#include <cfloat>
#undef DBL_MIN
#define DBL_MIN 0.0 // see kern.cc
#include "user.h"
#include "params.h"
#include "default_physics.h"
#include "integration.h"
#include "boundary.h"
#include "density_profiles.h"
using namespace physics;
static const int D = gdimension;
static double pos_real(const char * n) {
  double x = v_real(n);
  v_assume(x > 0.);
  return x;
}
static point_t vec(const char * n) {
  point_t p;
  for(int i = 0; i < D; ++i) p[i] = v_real(n);
  return p;
}
static double ipow(double x, int n) {
  double r = 1;
  while(n-- > 0) r *= x;
  return r;
}
// -------------------------------------------------------- equations of state
static void eos_of(param::eos_type_keyword k) {
  param::_eos_type = k;
  eos::select();
}
ENTRY(eos_gamma) { // polytropic and ideal gas
  double g = v_real("gamma"), rho = pos_real("rho"), u = pos_real("u");
  v_assume(g > 1.);
  param::_poly_gamma = g;
  bool ideal = v_pick("ideal", 0, 1);
  eos_of(ideal ? param::eos_ideal : param::eos_polytropic);
  body b;
  b.setDensity(rho);
  b.setInternalenergy(u);
  double P = (g - 1.) * rho * u;
  b.setPressure(P);
  eos::init(b);
  eos::compute_pressure(b);
  v_check_eq(b.getPressure(), P, "pressure of the state the invariant came from");
  eos::compute_soundspeed(b);
  double c = b.getSoundspeed();
  v_check_eq(c * c * rho, g * P, "sound speed is the isentropic derivative of pressure");
  v_check(c > 0., "sound speed is positive");
  b.setInternalenergy(0.);
  eos::compute_internal_energy(b);
  v_check_eq(b.getInternalenergy(), u, "internal energy of the state");
  v_check_eq(b.getDensity(), rho, "density is not changed");
  // another density on the same adiabat
  double r2 = pos_real("rho2");
  b.setDensity(r2);
  eos::compute_internal_energy(b);
  eos::compute_pressure(b);
  eos::compute_soundspeed(b);
  c = b.getSoundspeed();
  v_check_eq(b.getPressure() * pow(rho, g), P * pow(r2, g), "pressure along an adiabat");
  v_check_eq(b.getInternalenergy() * r2 * (g - 1.), b.getPressure(), "internal energy along an adiabat");
  v_check_eq(c * c * r2, g * b.getPressure(), "sound speed along an adiabat");
  v_reach("end");
}
ENTRY(eos_piecewise) {
  double g = v_real("gamma"), g2 = v_real("gamma2"), rho = pos_real("rho"), P = pos_real("P"), thr = pos_real("thr");
  v_assume(g > 1. && g2 > 1.);
  param::_poly_gamma = g;
  param::_poly_gamma2 = g2;
  param::_ppt_density_thr = thr;
  eos_of(param::eos_ppt);
  body b;
  b.setDensity(rho);
  b.setPressure(P);
  eos::init(b);
  double K = b.getAdiabatic();
  v_check(K > 0., "adiabatic constant is positive");
  eos::compute_pressure(b);
  v_check_eq(b.getPressure(), P, "pressure of the state the invariant came from");
  eos::compute_soundspeed(b);
  eos::compute_internal_energy(b);
  double c = b.getSoundspeed(), u = b.getInternalenergy();
  bool low = rho < thr;
  v_check_eq(c * c * rho, (low ? g : g2) * P, "sound speed is the isentropic derivative of pressure");
  b.setDensity(thr);
  eos::compute_pressure(b);
  eos::compute_internal_energy(b);
  double Pt = b.getPressure(), ut = b.getInternalenergy();
  v_check_eq(Pt, K * pow(thr, g), "pressure is continuous at the threshold");
  v_check_eq(ut * (g - 1.) * thr, Pt, "internal energy is continuous at the threshold");
  if(low) v_check_eq(u * (g - 1.) * rho, P, "first law below the threshold");
  else v_check_eq((u - ut) * (g2 - 1.), P / rho - Pt / thr, "first law above the threshold");
  v_reach("end");
}
ENTRY(eos_white_dwarf) {
  const double A = 6.00233181e22, B = 9.73932099e5;
  double rho = pos_real("rho"), Ye = pos_real("Ye");
  eos_of(param::eos_wd);
  body b;
  b.setDensity(rho);
  b.setElectronfraction(Ye);
  eos::init(b);
  eos::compute_pressure(b);
  eos::compute_soundspeed(b);
  double x = cbrt(rho * Ye / B), s = sqrt(x * x + 1.), P = b.getPressure(), u = b.getInternalenergy(), c = b.getSoundspeed();
  v_check_eq(P, A * (x * (2. * x * x - 3.) * s + 3. * asinh(x)), "pressure of degenerate electrons");
  v_check_eq(u * rho + P, A * 8. * x * x * x * (s - 1.), "enthalpy of degenerate electrons");
  c /= C_LIGHT_CGS;
  v_check_eq(c * c * 3. * (1. + x * x), x * x, "sound speed of degenerate electrons");
  v_check(c < 1., "sound speed is below the speed of light");
  v_reach("end");
}
ENTRY(eos_none) {
  eos_of(param::eos_no_eos);
  body b;
  double P = v_real("P"), c = v_real("c"), u = v_real("u"), k = v_real("k");
  b.setDensity(v_real("rho"));
  b.setPressure(P);
  b.setSoundspeed(c);
  b.setInternalenergy(u);
  b.setAdiabatic(k);
  eos::init(b);
  eos::compute_pressure(b);
  eos::compute_soundspeed(b);
  eos::compute_internal_energy(b);
  v_check_eq(b.getPressure(), P, "no EOS leaves the pressure");
  v_check_eq(b.getSoundspeed(), c, "no EOS leaves the sound speed");
  v_check_eq(b.getInternalenergy(), u, "no EOS leaves the internal energy");
  v_check_eq(b.getAdiabatic(), k, "no EOS leaves the adiabatic constant");
  v_reach("end");
}
static double phi_lin(const point_t & p) {
  double s = 0;
  for(int i = 0; i < D; ++i) s += (i + 1.5) * p[i];
  return s;
}
// internal, kinetic and potential energy make up the total
ENTRY(energy_split) {
  param::_eos_type = param::eos_ideal;
  eos::select();
  param::_poly_gamma = 2.;
  external_force::vec_potentials.clear();
  external_force::vec_potentials.push_back(phi_lin);
  physics::dt = v_real("dt");
  body b;
  point_t v = vec("v"), x = vec("x");
  double u = pos_real("u"), rho = pos_real("rho");
  b.setVelocity(v);
  b.set_coordinates(x);
  b.setInternalenergy(u);
  b.setDensity(rho);
  set_total_energy(b);
  v_check_eq(b.getTotalenergy(), u + .5 * flecsi::dot(v, v) + phi_lin(x), "total energy is the sum of its parts");
  b.setInternalenergy(0.);
  recover_internal_energy(b);
  v_check_eq(b.getInternalenergy(), u, "internal energy is recovered from the total");
  double du = v_real("du");
  v_assume(u + .5 * physics::dt * du > 0.);
  b.setDudt(du);
  recompute_pressure_soundspeed(b);
  v_check_eq(b.getInternalenergy(), u, "half-step prediction leaves the internal energy");
  v_check_eq(b.getPressure(), rho * (u + .5 * physics::dt * du), "pressure half a step ahead");
  b.setAcceleration(vec("a"));
  b.setDedt(du + flecsi::dot(v, b.getAcceleration()));
  recompute_pressure_soundspeed_thermokinetic(b);
  v_check_eq(b.getInternalenergy(), u, "half-step prediction leaves the internal energy");
  v_check_eq(b.getPressure(), rho * (u + .5 * physics::dt * du), "pressure half a step ahead");
  v_reach("end");
}
// ----------------------------------------------------------- external forces
static const double NC7[7] = {41, 216, 27, 272, 27, 216, 41};
typedef double (*pot_t)(const point_t &);
typedef point_t (*acc_t)(const body &);
static point_t acc_at(acc_t a, const point_t & x) {
  body b;
  b.set_coordinates(x);
  return (*a)(b);
}
// the work of the force along a segment inside one region (exact quadrature)
static double work(acc_t f, const point_t & x, const point_t & d) {
  double s = 0;
  for(int i = 0; i < 7; ++i) s += NC7[i] * flecsi::dot(acc_at(f, x + d * (i / 6.)), d);
  return s / 840.;
}
static void wall_params(int hi) {
  param::_extforce_wall_powerindex = v_pick("n", 2, hi);
  param::_extforce_wall_steepness = v_real("a");
  param::_box_length = pos_real("L");
  param::_box_width = pos_real("W");
  param::_box_height = pos_real("H");
  param::_sphere_radius = pos_real("R");
}
ENTRY(walls) {
  wall_params(6);
  int ax = v_pick("axis", 0, D - 1);
  double box[3] = {param::box_length, param::box_width, param::box_height};
  pot_t ph[3] = {external_force::potential_walls_x, external_force::potential_walls_y, external_force::potential_walls_z};
  acc_t ac[3] = {external_force::acceleration_walls_x, external_force::acceleration_walls_y,
    external_force::acceleration_walls_z};
  int side = v_pick("side", -1, 1);
  point_t x = vec("x"), y = x;
  double d = v_real("d");
  y[ax] = x[ax] + d;
  double e = .5 * box[ax];
  for(double z : {x[ax], y[ax]}) v_assume(side < 0 ? z <= -e : side > 0 ? z >= e : z >= -e && z <= e);
  v_check_eq(ph[ax](y) - ph[ax](x), -work(ac[ax], x, y - x), "wall force is minus the gradient of its potential");
  point_t a = acc_at(ac[ax], x);
  for(int i = 0; i < D; ++i)
    if(i != ax || side == 0) v_check_eq(a[i], 0., "walls act only across them and outside the box");
  if(side == 0) v_check_eq(ph[ax](x), 0., "no wall potential inside the box");
  else v_check_eq(ph[ax](x), param::extforce_wall_steepness * ipow(side * x[ax] - e, (int)param::extforce_wall_powerindex), "wall potential is a power of the depth");
  v_reach("end");
}
static const double RAYLEN[4] = {0, 1, 5, 3};
static point_t ray(double t) { // a point at distance t * RAYLEN[D]
  point_t p = 0.;
  static const double c[4][3] = {{0, 0, 0}, {1, 0, 0}, {3, 4, 0}, {1, 2, 2}};
  for(int i = 0; i < D; ++i) p[i] = c[D][i] * t;
  return p;
}
static void radial(acc_t f, const point_t & x) { // force along the position vector
  point_t a = acc_at(f, x);
  for(int i = 0; i < D; ++i)
    for(int j = 0; j < i; ++j) v_check_eq(a[i] * x[j], a[j] * x[i], "force is radial");
}
ENTRY(sphere_wall) {
  wall_params(6);
  bool out = v_pick("out", 0, 1);
  double r = v_real("r"), s = v_real("s"), R = param::sphere_radius, l = RAYLEN[D];
  for(double z : {r, s}) v_assume(z > 0. && (out ? l * z >= R : l * z <= R));
  double p = external_force::potential_spherical_wall(ray(r));
  v_check_eq(external_force::potential_spherical_wall(ray(s)) - p, -work(external_force::acceleration_spherical_wall, ray(r), ray(s - r)),
    "wall force is minus the gradient of its potential");
  v_check_eq(p, out ? param::extforce_wall_steepness * ipow(l * r - R, (int)param::extforce_wall_powerindex) : 0., "wall potential is a power of the depth");
  v_reach("end");
}
ENTRY(sphere_wall_radial) {
  wall_params(3);
  double R = param::sphere_radius;
  point_t x = vec("x");
  radial(external_force::acceleration_spherical_wall, x);
  point_t a = acc_at(external_force::acceleration_spherical_wall, x);
  double x2 = flecsi::dot(x, x);
  if(x2 <= R * R)
    for(int i = 0; i < D; ++i) v_check_eq(a[i], 0., "no force inside the sphere");
  v_reach("end");
}
ENTRY(gravity) {
  double g = v_real("g");
  param::_gravity_acceleration_constant = g;
  point_t x = vec("x"), d = vec("d");
  v_check_eq(external_force::potential_gravity(x + d) - external_force::potential_gravity(x),
    -work(external_force::acceleration_gravity, x, d), "gravity is minus the gradient of its potential");
  point_t a = acc_at(external_force::acceleration_gravity, x);
  for(int i = 0; i < D; ++i) v_check_eq(a[i], i == (D > 1 ? 1 : 0) ? -g : 0., "gravity points down");
  v_reach("end");
}
ENTRY(density_support) {
  param::_poly_gamma = v_pick("gamma", 2, 3);
  param::_rho_initial = pos_real("rho0");
  param::_pressure_initial = pos_real("P0");
  param::_sphere_radius = 2.;
  param::_extforce_wall_powerindex = 3.;
  param::_extforce_wall_steepness = v_real("a");
  strcpy(param::_density_profile, "parabolic");
  density_profiles::select();
  double r = v_real("r"), s = v_real("s");
  for(double z : {r, s}) v_assume(z * RAYLEN[D] > .01 && z * RAYLEN[D] < 2.);
  v_check_eq(external_force::potential_spherical_density_support(ray(s)) -
    external_force::potential_spherical_density_support(ray(r)),
    -work(external_force::acceleration_spherical_density_support, ray(r), ray(s - r)), "supporting force is minus the gradient of its potential");
  // hydrostatic balance: rho a = dP/dr for P = K rho^gamma, i.e. P(s) - P(r) = int rho a dr
  double K = param::pressure_initial / ipow(param::rho_initial, (int)param::poly_gamma), w = 0;
  auto dens = [&](double q) {
    return param::rho_initial / density_profiles::spherical_density_profile(0.) * density_profiles::spherical_density_profile(q * RAYLEN[D] / 2.);
  };
  for(int i = 0; i < 7; ++i) {
    double q = r + (s - r) * (i / 6.);
    w += NC7[i] * dens(q) * flecsi::dot(acc_at(external_force::acceleration_spherical_density_support, ray(q)), ray(s - r));
  }
  v_check_eq(K * (ipow(dens(s), (int)param::poly_gamma) - ipow(dens(r), (int)param::poly_gamma)), w / 840., "supporting force balances the pressure gradient");
  v_reach("end");
}
ENTRY(orbit) {
  double G = pos_real("G"), a = pos_real("sep"), m1 = pos_real("ns"), m2 = pos_real("wd");
  param::_gravitational_constant = G;
  param::_orbital_separation = a;
  param::_mass_neutron_star = m1;
  param::_mass_white_dwarf = m2;
  point_t x = vec("x");
  double d2 = (x[0] - a) * (x[0] - a);
  for(int i = 1; i < D; ++i) d2 += x[i] * x[i];
  v_assume(d2 > 0.);
  double d = sqrt(d2), xc = a * m1 / (m1 + m2), w2 = G * (m1 + m2) / (a * a * a);
  double r2 = (x[0] - xc) * (x[0] - xc) + x[1] * x[1];
  v_check_eq(external_force::potential_orbit(x), -G * m1 / d - .5 * w2 * r2, "Roche potential");
  point_t f = acc_at(external_force::acceleration_orbit, x);
  for(int i = 0; i < D; ++i) {
    double p = i == 0 ? x[0] - a : x[i], c = i == 0 ? x[0] - xc : i == 1 ? x[1] : 0.;
    v_check_eq(f[i] * d * d2, -G * m1 * p + w2 * c * d * d2, "orbital force is minus the gradient of its potential");
  }
  v_reach("end");
}
ENTRY(airfoil) {
  param::_airfoil_size = 2.;
  param::_airfoil_thickness = .5;
  param::_airfoil_camber = 0.;
  param::_airfoil_anchor_x = v_real("ax");
  param::_airfoil_anchor_y = v_real("ay");
  param::_airfoil_attack_angle = 0.;
  param::_extforce_wall_powerindex = v_pick("n", 1, 2);
  param::_extforce_wall_steepness = v_real("a");
  int inside = v_pick("inside", 0, 1);
  double x = v_real("x"), y = v_real("y"), d = v_real("d"), e = v_real("e");
  auto foil = [](double x, double y) { return .25 * x * x * (4. - x * x) - y * y + .002; };
  point_t o = 0., q = 0.;
  o[0] = param::airfoil_anchor_x;
  o[1] = param::airfoil_anchor_y;
  bool along = v_pick("along", 0, 1);
  (along ? q[0] : q[1]) = d;
  point_t p = o;
  p[0] += x;
  p[1] += y;
  point_t f = acc_at(external_force::acceleration_airfoil, p);
  v_assume(x > -.04 && x < 2.);
  if(!inside) {
    v_assume(foil(x, y) <= 0. || y >= 2.5 || y <= -2.5);
    v_check_eq(external_force::potential_airfoil(p), 0., "no airfoil potential outside it");
    for(int i = 0; i < D; ++i) v_check_eq(f[i], 0., "no airfoil force outside it");
    return;
  }
  v_assume(y < 2.5 && y > -2.5 && foil(x, y) > 0.);
  double n = param::extforce_wall_powerindex, k = n * param::extforce_wall_steepness * (n > 1.5 ? foil(x, y) : 1.);
  v_check_eq(external_force::potential_airfoil(p), param::extforce_wall_steepness * foil(x, y) * (n > 1.5 ? foil(x, y) : 1.), "airfoil potential");
  v_check_eq(f[0], -k * .25 * (8. * x - 4. * x * x * x), "airfoil force is minus the gradient of its potential");
  v_check_eq(f[1], k * 2. * y, "airfoil force is minus the gradient of its potential");
  v_reach("end");
}
ENTRY(airfoil_rotated) { // the force turns with the profile
  param::_airfoil_size = 2.;
  param::_airfoil_thickness = .5;
  param::_airfoil_camber = v_real("camber");
  param::_airfoil_anchor_x = 0.;
  param::_airfoil_anchor_y = 0.;
  double al = v_real("angle");
  param::_airfoil_attack_angle = al;
  param::_extforce_wall_powerindex = 1.;
  param::_extforce_wall_steepness = v_real("a");
  point_t p = vec("p");
  double c = cos(al * M_PI / 180.), s = sin(al * M_PI / 180.), x = p[0] * c + p[1] * s, y = -p[0] * s + p[1] * c;
  v_assume(x > -.04 && x < 2. && y < 2.5 && y > -2.5);
  double m = param::airfoil_camber * sin(M_PI * x / 2.), mp = param::airfoil_camber * cos(M_PI / 2. * x) * M_PI / 2.;
  double aux = .25 * x * x * (4. - x * x) - (y - m) * (y - m) + .002;
  v_assume(aux > 0.);
  point_t f = acc_at(external_force::acceleration_airfoil, p);
  double k = param::extforce_wall_steepness, fx = -k * (.25 * (8. * x - 4. * x * x * x) + 2. * (y - m) * mp), fy = k * 2. * (y - m);
  v_check_eq(external_force::potential_airfoil(p), k * aux, "airfoil potential");
  v_check_eq(f[0], fx * c - fy * s, "airfoil force is minus the gradient of its potential");
  v_check_eq(f[1], fx * s + fy * c, "airfoil force is minus the gradient of its potential");
  v_reach("end");
}
ENTRY(force_list) { // a list of forces adds up, in any order, and replaces the former list
  wall_params(2);
  param::_gravity_acceleration_constant = v_real("g");
  param::_zero_potential_poison_value = v_real("poison");
  point_t x = vec("x");
  int k = v_pick("list", 0, 7);
  static const char * lists[8] = {"none", "gravity", "walls:x,gravity", "spherical wall,gravity,walls:x",
    "poison,gravity", "Zero", "GRAVITY,Spherical Wall,poison", "walls:X"};
  static const int has[8][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 1, 0, 0}, {1, 1, 1, 0}, {1, 0, 0, 1}, {0, 0, 0, 0}, {1, 0, 1, 1}, {0, 1, 0, 0}};
  external_force::select("gravity,poison,walls:x");
  external_force::select(lists[k]);
  body b;
  b.set_coordinates(x);
  point_t a = external_force::acceleration(b);
  double p = external_force::potential(x);
  pot_t ph[4] = {external_force::potential_gravity, external_force::potential_walls_x, external_force::potential_spherical_wall, external_force::potential_poison};
  acc_t ac[3] = {external_force::acceleration_gravity, external_force::acceleration_walls_x, external_force::acceleration_spherical_wall};
  point_t ra = 0.;
  double rp = 0;
  for(int i = 0; i < 4; ++i)
    if(has[k][i]) {
      rp += (*ph[i])(x);
      if(i < 3) ra += acc_at(ac[i], x);
    }
  v_check_eq(p, rp, "potentials of the list add up");
  for(int i = 0; i < D; ++i) v_check_eq(a[i], ra[i], "forces of the list add up");
  v_reach("end");
}
ENTRY(force_walls) { // walls in any directions, in any order
  wall_params(2);
  point_t x = vec("x");
  static const char * lists[15] = {"walls:x", "walls:X", "Walls:y", "walls:xy", "walls:Yx", "walls:z", "walls:Zx", "walls:yZ", "walls:xz",
    "walls:zy", "walls:xyz", "walls:XZY", "walls:yxz", "walls:zxy", "walls:zYx"};
  int k = v_pick("list", 0, D == 1 ? 1 : D == 2 ? 4 : 14);
  external_force::select(lists[k]);
  bool has[3] = {};
  for(const char * c = lists[k] + 6; *c; ++c) has[(*c | 32) - 'x'] = true;
  body b;
  b.set_coordinates(x);
  point_t a = external_force::acceleration(b);
  double p = 0.;
  pot_t ph[3] = {external_force::potential_walls_x, external_force::potential_walls_y, external_force::potential_walls_z};
  acc_t ac[3] = {external_force::acceleration_walls_x, external_force::acceleration_walls_y, external_force::acceleration_walls_z};
  for(int d = 0; d < D; ++d) {
    if(has[d]) p += (*ph[d])(x);
    v_check_eq(a[d], has[d] ? acc_at(ac[d], x)[d] : 0., "walls in the directions of the list");
  }
  v_check_eq(external_force::potential(x), p, "walls in the directions of the list");
  v_reach("end");
}
// ----------------------------------------------------------- density profiles
static const double EPS = 1e-9;
static double shell(double r) { return D == 1 ? 2. : D == 2 ? 2. * M_PI * r : 4. * M_PI * r * r; }
static int profile(double q) {
  int k = v_pick("profile", 0, 2);
  static const char * nm[3] = {"constant", "parabolic", "mesa"};
  strcpy(param::_density_profile, nm[k]);
  param::_mesa_rim_width = q;
  density_profiles::select();
  return k;
}
ENTRY(profile_mass) {
  using namespace density_profiles;
  double q = v_pick("q", 1, 7) / 8.;
  int k = profile(q);
  bool rim = v_pick("rim", 0, 1);
  double r = v_real("r"), s = v_real("s"), r0 = 1. - q;
  if(k < 2 && rim) return;
  for(double z : {r, s}) v_assume(z >= 0. && z < .9999 && (k < 2 || (rim ? z >= r0 : z < r0)));
  double m = 0, dr = 0;
  for(int i = 0; i < 7; ++i) {
    double z = r + (s - r) * (i / 6.);
    m += NC7[i] * spherical_density_profile(z) * shell(z);
    dr += NC7[i] * spherical_drho_dr(z);
  }
  v_check_near(spherical_mass_profile(s) - spherical_mass_profile(r), m / 840. * (s - r), EPS, "enclosed mass is the integral of the density");
  v_check_near(spherical_density_profile(s) - spherical_density_profile(r), dr / 840. * (s - r), EPS, "density slope is the derivative of the density");
  v_reach("end");
}
ENTRY(profile_ends) {
  using namespace density_profiles;
  double q = v_pick("q", 1, 7) / 8.;
  int k = profile(q);
  v_check_near(spherical_mass_profile(0.), 0., EPS, "no mass at the centre");
  v_check_near(spherical_mass_profile(1.), 1., EPS, "total mass is one");
  if(k == 2) {
    double r0 = 1. - q, c = spherical_density_profile(0.);
    v_check_near(spherical_density_profile(r0), c, EPS, "density is continuous at the rim");
    v_check_near(spherical_mass_profile(r0), c * (D == 1 ? 2. * r0 : D == 2 ? M_PI * r0 * r0 : 4. * M_PI / 3. * r0 * r0 * r0), EPS, "enclosed mass is continuous at the rim");
    v_check_near(spherical_density_profile(1.), 0., EPS, "density vanishes at the surface");
    v_check(c > 0., "density is positive");
  }
  double r = v_real("r");
  v_assume(r >= 0. && r < 1.);
  v_check(spherical_density_profile(r) >= 0., "density is not negative");
  v_check(spherical_drho_dr(r) <= 0., "density falls outwards");
  v_reach("end");
}
#ifndef NT
#define NT 5
#endif
static void table(std::vector<double> & xp) {
  double x = v_real("x0");
  v_assume(x > 0.);
  for(int i = 0; i < NT; ++i) {
    xp.push_back(x);
    x += pos_real("dx");
  }
}
ENTRY(interp_index) {
  std::vector<double> xp;
  table(xp);
  double x = v_real("x");
  v_assume(x > 0.);
  int i = density_profiles::get_interval_index(x, xp);
  v_check(i >= -1 && i <= NT - 1, "interval index in range");
  if(i == -1) v_check(x < xp[0], "interval index -1 below the table");
  else if(i == NT - 1) v_check(x > xp[NT - 1], "last interval index above the table");
  else {
    v_check(x * (1 + 1e-15) >= xp[i], "interval contains the point");
    v_check(x * (1 - 1e-15) <= xp[i + 1], "interval contains the point");
  }
  v_reach("end");
}
ENTRY(interp_cubic) { // exact for cubics, zero outside the table
  std::vector<double> xp, yp;
  int uni = v_pick("x0", 0, 2);
  for(int i = 0; i < NT; ++i) xp.push_back(1. + uni + i + .25 * ((i * (uni + 3)) % 4));
  double c[4];
  for(int k = 0; k < 4; ++k) c[k] = v_real("c");
  auto f = [&](double x) { return c[0] + x * (c[1] + x * (c[2] + x * c[3])); };
  for(int i = 0; i < NT; ++i) yp.push_back(f(xp[i]));
  double x = v_real("x");
  v_assume(x > 0.);
  double y = density_profiles::cubic_interp(x, xp, yp);
  if(x >= xp[0] && x <= xp[NT - 1]) v_check_eq(y, f(x), "interpolation reproduces cubic functions");
  else if(x < xp[0] * .9999 || x > xp[NT - 1] * 1.0001) v_check_eq(y, 0., "interpolation is zero outside the table");
  v_reach("end");
}
ENTRY(interp_nodes) { // passes through every point of the table, smooth or not
  std::vector<double> xp, yp;
  int n = v_pick("points", 4, 7), uni = v_pick("x0", 0, 1), k = v_pick("point", 0, 6);
  v_assume(k < n);
  for(int i = 0; i < n; ++i) {
    xp.push_back(1. + uni + i + .25 * ((i * (uni + 3)) % 4));
    yp.push_back(v_real("y"));
  }
  v_check_eq(density_profiles::cubic_interp(xp[k], xp, yp), yp[k], "interpolation passes through the points of the table");
  // between two points: only the four nearest points count
  double x = xp[k] + .125;
  if(k < n - 1 && n > 4) {
    double y = density_profiles::cubic_interp(x, xp, yp);
    std::vector<double> yq = yp;
    for(int i = 0; i < n; ++i)
      if(i < (k < 1 ? 0 : k > n - 3 ? n - 4 : k - 1) || i > (k < 1 ? 3 : k > n - 3 ? n - 1 : k + 2)) yq[i] = v_real("z");
    v_check_eq(density_profiles::cubic_interp(x, xp, yq), y, "interpolation depends on the four nearest points");
  }
  v_reach("end");
}
// ------------------------------------------------------------ time integration
ENTRY(leapfrog) {
  body b;
  point_t x = vec("x"), v = vec("v"), a = vec("a"), g = vec("g");
  double dt = v_real("dt"), u = v_real("u"), e = v_real("e"), du = v_real("du"), de = v_real("de"), k = v_real("k"), dk = v_real("dk");
  physics::dt = dt;
  b.setType((particle_type_t)(int)v_bool("wall"));
  b.setVelocityhalf(vec("vh"));
  b.setPressure(v_real("p"));
  b.setDensity(v_real("rho"));
  b.setSoundspeed(v_real("cs"));
  b.set_mass(v_real("m"));
  b.set_radius(v_real("h"));
  b.set_id(v_u64("id"));
  b.set_coordinates(x);
  b.setVelocity(v);
  b.setAcceleration(a);
  b.setGAcceleration(g);
  b.setInternalenergy(u);
  b.setTotalenergy(e);
  b.setAdiabatic(k);
  b.setDudt(du);
  b.setDedt(de);
  b.setDadt(dk);
  integration::leapfrog_kick_v(b);
  integration::save_velocityhalf(b);
  for(int i = 0; i < D; ++i) {
    v_check_eq(b.getVelocity()[i], v[i] + .5 * dt * (a[i] + g[i]), "kick is half a step of the whole acceleration");
    v_check_eq(b.getVelocityhalf()[i], b.getVelocity()[i], "half-step velocity is the current velocity");
    v_check_eq(b.coordinates()[i], x[i], "kick does not move the particle");
  }
  point_t vh = b.getVelocity();
  integration::leapfrog_drift(b);
  for(int i = 0; i < D; ++i) {
    v_check_eq(b.coordinates()[i], x[i] + dt * vh[i], "drift is a full step at the half-step velocity");
    v_check_eq(b.getVelocity()[i], vh[i], "drift does not change the velocity");
  }
  integration::leapfrog_kick_u(b);
  integration::leapfrog_kick_e(b);
  integration::dadt_integration(b);
  v_check_eq(b.getInternalenergy(), u + .5 * dt * du, "internal energy kick");
  v_check_eq(b.getTotalenergy(), e + .5 * dt * de, "total energy kick");
  v_check_eq(b.getAdiabatic(), k + dt * dk, "adiabatic update");
  v_reach("end");
}
// the force depends on position only: going back restores the state
static point_t field(const point_t & x) { // arbitrary force field
  point_t f;
  for(int i = 0; i < D; ++i) f[i] = sin(x[i] * (i + 1.5)) + x[(i + 1) % D];
  return f;
}
static void step(body & b, double dt) {
  physics::dt = dt;
  b.setAcceleration(field(b.coordinates()));
  integration::leapfrog_kick_v(b);
  integration::leapfrog_drift(b);
  b.setAcceleration(field(b.coordinates()));
  integration::leapfrog_kick_v(b);
}
ENTRY(leapfrog_reversible) {
  body b;
  point_t x = vec("x"), v = vec("v");
  b.set_coordinates(x);
  b.setVelocity(v);
  b.setGAcceleration(point_t(0.));
  double dt = v_real("dt");
  step(b, dt);
  step(b, -dt);
  for(int i = 0; i < D; ++i) {
    v_check_eq(b.coordinates()[i], x[i], "leapfrog is time reversible");
    v_check_eq(b.getVelocity()[i], v[i], "leapfrog is time reversible");
  }
  v_reach("end");
}
// ------------------------------------------------------------------ timestep
ENTRY(timestep) {
  param::_sph_eta = pos_real("eta");
  kernels::kernel_width = 2.;
  param::_timestep_cfl_factor = pos_real("cfl");
  param::_sph_viscosity_alpha = v_real("alpha");
  v_assume(param::sph_viscosity_alpha >= 0.);
  external_force::vec_potentials.clear();
  param::_evolve_internal_energy = false;
  body b;
  double h = pos_real("h"), vs = v_real("vs");
  v_assume(vs > 0.);
  b.set_radius(h);
  point_t v = vec("v"), a = vec("a"), g = vec("g");
  b.setVelocity(v);
  b.setAcceleration(a);
  b.setGAcceleration(g);
  b.setSignalspeed(vs);
  compute_dt(b);
  double dt = b.getDt(), dx = h / (param::sph_eta * 2.), C = param::timestep_cfl_factor;
  v_check(dt > 0., "timestep is positive");
  double v2 = flecsi::dot(v, v), f2 = flecsi::dot(a + g, a + g), x = dt / C;
  v_check(x * x * v2 <= dx * dx, "timestep is limited by the velocity");
  v_check(x * x * x * x * f2 <= dx * dx, "timestep is limited by the acceleration");
  v_check(x * vs <= dx, "timestep is limited by the signal speed");
  v_reach("end");
}
ENTRY(timestep_energy) { // the potential energy gained in a step stays below half the internal energy
  param::_sph_eta = 1.;
  kernels::kernel_width = 2.;
  param::_timestep_cfl_factor = 1.;
  param::_sph_viscosity_alpha = 0.;
  param::_evolve_internal_energy = true;
  param::_thermokinetic_formulation = true;
  external_force::vec_potentials.clear();
  external_force::vec_potentials.push_back(phi_lin);
  body b;
  double h = pos_real("h"), u = pos_real("u");
  b.set_radius(h);
  point_t v = 0.;
  v[0] = v_real("v");
  point_t x = vec("x"), g = vec("g");
  b.set_coordinates(x);
  b.setVelocity(v);
  b.setAcceleration(g * -1.);
  b.setGAcceleration(g);
  b.setSignalspeed(0.);
  b.setInternalenergy(u);
  // at most two reductions are needed
  double dx = h / 2., w = (1.5 * v[0] - v[0] * g[0]);
  v_assume(v[0] > 0. && w * dx / v[0] < u * 4.);
  compute_dt(b);
  double dt = b.getDt();
  v_check(dt > 0., "timestep is positive");
  v_check(phi_lin(x + v * dt) - phi_lin(x) - dt * flecsi::dot(v, g) < .5 * u, "energy gained in a step stays below half the internal energy");
  v_check(dt * v[0] <= dx, "timestep is limited by the velocity");
  v_reach("end");
}
#ifndef STEPS
#define STEPS 3
#endif
// a run of adaptive steps with any per-particle limits
ENTRY(adaptive) {
  int n = v_pick("bodies", 1, 2);
  std::vector<body> bs(n);
  double t0 = v_real("t0");
  physics::totaltime = t0;
  physics::dt = pos_real("dt");
  physics::dt_saved = 0.;
  physics::iteration = 0;
  param::_adaptive_timestep = true;
  param::_out_screen_dt = v_pick("screen", 0, 1) ? pos_real("os") : 0.;
  param::_out_scalar_dt = v_pick("scalar", 0, 1) ? pos_real("oc") : 0.;
  param::_out_h5data_dt = v_pick("h5data", 0, 1) ? pos_real("oh") : 0.;
  physics::t_screen_output = physics::t_scalar_output = physics::t_h5data_output = t0;
  for(int s = 0; s < STEPS; ++s) {
    double lim = 0, dt0 = physics::dt, t = physics::totaltime;
    for(int i = 0; i < n; ++i) {
      double d = pos_real("limit");
      v_assume(d < 1e20);
      bs[i].setDt(d);
      lim = i == 0 || d < lim ? d : lim;
    }
    set_adaptive_timestep(bs);
    v_check(physics::dt > 0., "time moves forward");
    v_check(physics::dt <= lim, "timestep does not exceed any particle's limit");
    if(param::out_screen_dt <= 0 && param::out_scalar_dt <= 0 && param::out_h5data_dt <= 0) {
      v_check(physics::dt <= 2. * dt0, "timestep at most doubles");
      v_check(physics::dt * 2. >= dt0 || physics::dt >= lim, "timestep shrinks only as far as needed");
    }
    advance_time();
    v_check_eq(physics::totaltime, t + physics::dt, "time advances by the timestep");
    if(param::out_screen_dt > 0) v_check(physics::totaltime <= physics::t_screen_output, "no step passes a screen output time");
    if(param::out_scalar_dt > 0) v_check(physics::totaltime <= physics::t_scalar_output, "no step passes a scalar output time");
    if(param::out_h5data_dt > 0) v_check(physics::totaltime <= physics::t_h5data_output, "no step passes a data output time");
  }
  v_check(physics::iteration == STEPS, "iterations are counted");
  v_reach("end");
}
ENTRY(termination) {
  param::_final_iteration = v_i64("fi");
  param::_final_time = v_real("ft");
  physics::iteration = v_i64("it");
  physics::totaltime = v_real("t");
  bool it = param::final_iteration > 0 && physics::iteration > param::final_iteration;
  bool ti = param::final_time > 0. && physics::totaltime > param::final_time;
  v_check(termination_criteria() == (it || ti), "the run ends at the final iteration or time");
  v_reach("end");
}
