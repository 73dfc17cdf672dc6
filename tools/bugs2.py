# bugs in the physics, the boundaries and the moments
import os
_H = os.path.join(V, "harness")
RT = {f: open(os.path.join(_H, f)).read() for f in ("rt_native.cc", "verif.h")}
DP = "include/physics/default_physics.h"
PH = '''
#include "verif.h"
#include "user.h"
#include <cfloat>
#include <mpi.h>
#include <omp.h>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <memory>
#include <type_traits>
#include "params.h"
#include "default_physics.h"
#include "integration.h"
#include "boundary.h"
#include "density_profiles.h"
using namespace physics;
static const int D = gdimension;
#define CHECK(c) do { if(!(c)) { std::cerr << "failed: " #c "\\n"; exit(1); } } while(0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }
static body mk(int i, std::initializer_list<double> x, std::initializer_list<double> v) {
  body b;
  point_t p(0.), q(0.);
  int k = 0;
  for(double e : x) if(k < D) p[k++] = e;
  k = 0;
  for(double e : v) if(k < D) q[k++] = e;
  b.set_coordinates(p); b.set_mass(1. + .5 * i); b.set_radius(1. + .1 * i); b.set_id(i);
  b.setDensity(1.2 + .3 * i); b.setPressure(.7 + .2 * i); b.setSoundspeed(.4); b.setAlpha(.5);
  b.setVelocity(q); b.setVelocityhalf(q); b.setGAcceleration(point_t(0.)); b.setGPotential(0.);
  b.setInternalenergy(1.);
  return b;
}
'''
def ph(name, prop, nd, edits, needs, breaks, demo):
    return dict(name=name, property=prop, stubs=True, flags="-DEXT_GDIMENSION=%d" % nd, link='"$D/rt_native.cc"', files=RT,
                edits=edits, needs=needs, breaks=breaks, demo=PH + demo)
BUGS = [
 ph("s01-gravity-power", "S01", 3, [(DP, "  const double gv = dot(ga_a,vel_a);", "  const double gv = dot(ga_a,v12_a);")],
    "gravity, the thermokinetic energy and a velocity that differs from the one at half a step",
    "the work done by gravity uses the velocity at half a step, so the change of energy is not that of the velocity",
    '''
int main() {
  kernels::select(); viscosity::select();
  body b = mk(1, {0., 0., 0.}, {1., 2., 3.}), c = mk(2, {9., 0., 0.}, {0., 0., 0.});
  b.setVelocityhalf(point_t(5.)); b.setGAcceleration(point_t{1., -1., 2.});
  std::vector<body *> n{&b};
  compute_dedt(b, n);
  CHECK(near(b.getDedt(), 1. - 2. + 6.));
}'''),
 ph("s02-cullen-sign", "S02", 2, [("include/physics/viscosity.h", "  return -alpha_ab*(c_ab - 2.0*mu_ab)*mu_ab/rho_ab;", "  return -alpha_ab*(c_ab + 2.0*mu_ab)*mu_ab/rho_ab;")],
    "the Cullen viscosity and an approach faster than half the sound speed", "viscosity between approaching particles turns into an attraction",
    '''
int main() {
  for(double mu = -.01; mu > -20.; mu *= 2)
    CHECK(viscosity::viscosity_function<param::visc_cullen>(.5, 1., 1., mu) >= 0.);
}'''),
 ph("s03-average-length", "S03", 2, [(DP, "  MPI_Allreduce(MPI_IN_PLACE, &total, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);\n\n  // Compute the new smoothing length",
    "  if(bodies.size() > 1)\n    MPI_Allreduce(MPI_IN_PLACE, &total, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);\n  else {\n    double local = total;\n    MPI_Allreduce(&local, &total, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);\n  }\n\n  // Compute the new smoothing length")],
    "several ranks with a single particle each", "the average smoothing length is not the average over all ranks",
    '''
static void go(int r, void *) {
  std::vector<body> bs;
  bs.push_back(mk(r, {0.}, {0.}));
  double h[2];
  for(int i = 0; i < 2; ++i) {
    std::vector<body> t{mk(i, {0.}, {0.})};
    compute_smoothinglength(t);
    h[i] = t[0].radius();
  }
  compute_average_smoothinglength(bs, 2);
  CHECK(near(bs[0].radius(), .5 * (h[0] + h[1])));
}
extern "C" int verif_failed();
int main() { kernels::select(); v_ranks(2, go, 0); return verif_failed(); }'''),
 ph("s03-signal-receding", "S03", 3, [(DP, "    vsig = std::max(vsig, c_a_[b] - std::min(dot(v_a_[b],n_a_[b]),0.0));\n  }\n\n  particle.setSignalspeed(vsig);",
    "    vsig = std::max(vsig, c_a_[b] - std::min(dot(v_a_[b],n_a_[b]),c_a));\n  }\n\n  particle.setSignalspeed(vsig);")],
    "all neighbours receding", "the signal speed falls below the sound speed",
    '''
int main() {
  kernels::select();
  body a = mk(1, {0., 0., 0.}, {0., 0., 0.}), b = mk(2, {.5, 0., 0.}, {.3, 0., 0.});
  std::vector<body *> n{&a, &b};
  compute_signalspeed(a, n);
  CHECK(near(a.getSignalspeed(), .4));
}'''),
 ph("e02-airfoil-rotation", "E02", 2, [("include/physics/eforce.h", "    a[0] = a0 * cos(alpha) - a1 * sin(alpha);", "    a[0] = a0 * cos(alpha) + a1 * sin(alpha);")],
    "an airfoil with an angle of attack", "the force is not the gradient of the potential",
    '''
int main() {
  param::_airfoil_attack_angle = 20.; param::_airfoil_size = 2.; param::_airfoil_thickness = .1; param::_airfoil_camber = .1;
  param::_airfoil_anchor_x = .1; param::_airfoil_anchor_y = .2; param::_extforce_wall_powerindex = 3.; param::_extforce_wall_steepness = 2.;
  body b = mk(1, {.1 + .6, .2 + .25}, {0., 0.});
  point_t x = b.coordinates(), a = external_force::acceleration_airfoil(b);
  CHECK(external_force::potential_airfoil(x) > 0.);
  // force in another frame: rotate the airfoil back
  param::_airfoil_attack_angle = 20.;
  double al = 20. * M_PI / 180.;
  double e = 1e-6, g[2];
  for(int d = 0; d < 2; ++d) {
    point_t p = x, q = x;
    p[d] += e; q[d] -= e;
    g[d] = (external_force::potential_airfoil(p) - external_force::potential_airfoil(q)) / (2 * e);
  }
  for(int d = 0; d < 2; ++d) CHECK(std::fabs(a[d] + g[d]) < 1e-4 * (std::fabs(g[0]) + std::fabs(g[1])));
}'''),
 ph("d01-last-node", "D01", 1, [("include/physics/density_profiles.h", "  if(i2 > N - 3)\n    i2 = N - 3;", "  if(i2 > N - 3)\n    i2 = N > 4 ? N - 4 : N - 3;")],
    "a table of at least five points, interpolated beyond its third last point", "interpolation does not pass through the last point of the table",
    '''
int main() {
  std::vector<double> x{0., 1., 2., 3., 4.}, y{0., 1., 0., 2., 7.};
  for(int i = 0; i < 5; ++i) CHECK(near(density_profiles::cubic_interp(x[i], x, y), y[i]));
}'''),
 ph("d01-mesa-mass", "D01", 2, [("include/physics/density_profiles.h", "      m = M_PI * mesa_rho0 * mesa_mass_helper(r);", "      m = M_PI * mesa_rho0 * (r > r0 ? mesa_mass_helper(r) - mesa_mass_helper(r0) + SQ(r0) * r0 : 0.);")],
    "the mesa profile in 2D, radii in its slope", "the mass inside a radius does not fit the density",
    '''
int main() {
  param::_mesa_rim_width = .4;
  strcpy(param::_density_profile, "mesa");
  density_profiles::select();
  CHECK(std::fabs(density_profiles::spherical_mass_profile(1.) - 1.) < 1e-9);
}'''),
 ph("i01-gravity-kick", "I01", 2, [("include/physics/integration.h", "    0.5 * physics::dt * (source.getAcceleration() + source.getGAcceleration()));",
    "    0.5 * physics::dt * source.getAcceleration() + physics::dt * (0.5 * source.getGAcceleration() + 0. * source.getAcceleration()) +\n    (source.getType() == WALL ? 0.5 * physics::dt : 0.) * source.getGAcceleration());")],
    "a wall particle under gravity", "the half-step kick of wall particles counts gravity twice",
    '''
int main() {
  body b = mk(1, {0., 0.}, {1., 1.});
  b.setType(WALL);
  b.setAcceleration(point_t(2.)); b.setGAcceleration(point_t(3.));
  physics::dt = .5;
  integration::leapfrog_kick_v(b);
  CHECK(near(b.getVelocity()[0], 1. + .25 * 5.));
}'''),
 ph("s04-h5data-time", "S04", 1, [(DP, "    if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {\n      dt_saved = dt;\n      totaltime_next = std::min(totaltime_next, t_h5data_output);",
    "    if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {\n      dt_saved = dt;\n      totaltime_next = t_h5data_output;")],
    "scalar and snapshot output at different times, both within one step", "the step passes the next scalar output time",
    '''
static void go(int, void *) {
  param::_out_screen_dt = 0.; param::_out_scalar_dt = 1.; param::_out_h5data_dt = 2.;
  physics::totaltime = .5; physics::dt = 3.; physics::dt_saved = 0.;
  physics::t_scalar_output = 1.; physics::t_h5data_output = 2.;
  std::vector<body> b{mk(1, {0.}, {0.})};
  b[0].setDt(4.);
  set_adaptive_timestep(b);
  CHECK(physics::totaltime_next <= 1.);
  CHECK(physics::dt <= .5 + 1e-12);
}
extern "C" int verif_failed();
int main() { v_ranks(1, go, 0); return verif_failed(); }'''),
 ph("b01-corner-yz", "B01", 3, [("include/physics/boundary.h", "      add_corner_XX(on_edge, {2, 1}, box, halo_size, lbodies[i], edge);", "      if(!on_edge[0])\n        add_corner_XX(on_edge, {2, 1}, box, halo_size, lbodies[i], edge);")],
    "a particle in a corner of a box periodic in all three directions", "an image of the particle is missing",
    '''
static void go(int, void *) {
  param::_periodic_boundary_x = param::_periodic_boundary_y = param::_periodic_boundary_z = true;
  param::_box_length = param::_box_width = param::_box_height = 1.;
  std::vector<body> b{mk(0, {.45, .45, .45}, {0., 0., 0.})};
  boundary::pboundary_generate(b, .1);
  CHECK(b.size() == 8);
}
extern "C" int verif_failed();
int main() { v_ranks(1, go, 0); return verif_failed(); }'''),
 ph("b01-lower-face", "B01", 2, [("include/physics/boundary.h", "      else if(lbodies[i].coordinates()[d] <= box[0][d]) {", "      else if(lbodies[i].coordinates()[d] < box[0][d]) {")],
    "a particle exactly on the lower face of the box", "the particle has two places: its own and, as an image, the upper face",
    '''
static void go(int, void *) {
  param::_periodic_boundary_x = true; param::_periodic_boundary_y = false;
  param::_box_length = param::_box_width = 1.;
  std::vector<body> b{mk(0, {-.5, 0.}, {0., 0.})};
  boundary::pboundary_generate(b, .1);
  CHECK(b[0].coordinates()[0] == .5);
}
extern "C" int verif_failed();
int main() { v_ranks(1, go, 0); return verif_failed(); }'''),
 ph("m01-nested-radius", "M01", 2, [(DP, "    radius = std::max(radius, dist + c->radius());", "    radius = std::max(radius, nodes.size() + ents.size() > 2 ? dist + c->radius() : std::max(dist, c->radius()));")],
    "a node with two children, one of them a node", "the radius of the node does not reach all the particles below it",
    '''
int main() {
  body a = mk(1, {0., 0.}, {0., 0.}), b = mk(1, {1., 0.}, {0., 0.}), c = mk(1, {5., 0.}, {0., 0.});
  node n(key_type::root()), p(key_type::root());
  c.set_mass(50.);
  physics::compute_cofm(&n, {&a, &b}, {});
  physics::compute_cofm(&p, {&c}, {&n});
  for(body * e : {&a, &b, &c}) CHECK(flecsi::distance(e->coordinates(), p.coordinates()) <= p.radius() * (1 + 1e-12));
}'''),
 ph("f01-potential-sign", "F01", 3, [("include/physics/fmm.h", "    pot += -r[i]*fc[i];", "    pot += (i < 2 ? -r[i] : r[i])*fc[i];")],
    "a node seen from a particle above or below its centre in 3D", "the potential expanded around a node is not the first-order expansion of the potential",
    '''
int main() {
  body a = mk(1, {0., 0., .01}, {0., 0., 0.});
  node s(key_type::root()), q(key_type::root());
  s.set_coordinates(point_t(0.)); s.set_mass(1.); q.set_mass(3.); q.set_coordinates(point_t{1., 2., 3.});
  s.pc() = 0.; s.fc() = point_t(0.);
  fmm::taylor_c2c(&s, &q);
  fmm::interaction_c2p(&a, &s);
  double d = flecsi::distance(a.coordinates(), q.coordinates());
  CHECK(std::fabs(a.getGPotential() + fmm::gc * 3. / d) < 1e-3 * fmm::gc);
}'''),
]
