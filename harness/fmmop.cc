// Gravity operators of the fast multipole method (include/physics/fmm.h).
#include "verif.h"
#include "user.h"
#include <mpi.h>
#include <omp.h>
#include <cfloat>
#include "params.h"
#include "default_physics.h"
#include "fmm.h"
static const int D = gdimension;
static point_t vec(const char * n) {
  point_t p;
  for(int i = 0; i < D; ++i) p[i] = v_real(n);
  return p;
}
static double pos_real(const char * n) {
  double x = v_real(n);
  v_assume(x > 0.);
  return x;
}
static double dist(const point_t & a, const point_t & b) {
  if(D == 1) return a[0] > b[0] ? a[0] - b[0] : b[0] - a[0];
  double s = 0;
  for(int i = 0; i < D; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(s);
}
static void setup() { fmm::gc = pos_real("G"); }
static body particle(int id) {
  body b;
  b.set_coordinates(vec("x"));
  b.set_mass(pos_real("m"));
  b.set_id(id);
  b.setGPotential(v_real("pot"));
  b.setGAcceleration(vec("acc"));
  return b;
}
static void apart(const point_t & a, const point_t & b) { v_assume(dist(a, b) > 0.); }
ENTRY(p2p) {
  setup();
  int ns = v_pick("sinks", 1, 2), np = v_pick("sources", 0, 3), nd = v_pick("node", 0, 1);
  body b[3] = {particle(7), particle(3), particle(5)};
  for(int i = 0; i < 3; ++i)
    for(int j = 0; j < i; ++j) apart(b[i].coordinates(), b[j].coordinates());
  node q;
  q.set_coordinates(vec("q"));
  q.set_mass(pos_real("M"));
  std::vector<body *> sinks, src;
  for(int i = 0; i < ns; ++i) {
    sinks.push_back(&b[i]);
    apart(b[i].coordinates(), q.coordinates());
  }
  for(int i = 0; i < np; ++i) src.push_back(&b[i]);
  body o[3] = {b[0], b[1], b[2]};
  fmm::fmm_p2p(sinks, nd ? &q : nullptr, src);
  for(int i = 0; i < 3; ++i) {
    double pot = o[i].getGPotential();
    point_t acc = o[i].getGAcceleration();
    if(i < ns) {
      for(int j = 0; j < np; ++j)
        if(j != i) {
          double r = dist(o[i].coordinates(), o[j].coordinates());
          pot -= fmm::gc * o[j].mass() / r;
          for(int d = 0; d < D; ++d)
            acc[d] -= fmm::gc * o[j].mass() * (o[i].coordinates()[d] - o[j].coordinates()[d]) / (r * r * r);
        }
      if(nd) {
        double r = dist(o[i].coordinates(), q.coordinates());
        pot -= fmm::gc * q.mass() / r;
        for(int d = 0; d < D; ++d) acc[d] -= fmm::gc * q.mass() * (o[i].coordinates()[d] - q.coordinates()[d]) / (r * r * r);
      }
    }
    v_check_eq(b[i].getGPotential(), pot, "potential of the sources, and only for the sinks");
    for(int d = 0; d < D; ++d) v_check_eq(b[i].getGAcceleration()[d], acc[d], "acceleration of the sources, and only for the sinks");
    v_check_eq(b[i].mass(), o[i].mass(), "masses are kept");
  }
  v_reach("end");
}
ENTRY(third_law) {
  setup();
  body a = particle(0), b = particle(1);
  a.set_coordinates(point_t{});
  apart(a.coordinates(), b.coordinates());
  a.setGAcceleration(point_t{});
  b.setGAcceleration(point_t{});
  std::vector<body *> s{&a, &b}, p{&a, &b};
  fmm::fmm_p2p(s, nullptr, p);
  double along = 0;
  for(int d = 0; d < D; ++d) {
    v_check_eq(a.mass() * a.getGAcceleration()[d] + b.mass() * b.getGAcceleration()[d], 0., "gravity keeps momentum");
    along += a.getGAcceleration()[d] * (b.coordinates()[d] - a.coordinates()[d]);
  }
  v_check_eq(along * dist(a.coordinates(), b.coordinates()), fmm::gc * b.mass(), "gravity attracts");
  v_reach("end");
}
ENTRY(node_moments) { // field of a node or particle at the centre of a node
  setup();
  node s, q;
  body b = particle(0);
  s.set_coordinates(vec("s"));
  s.set_mass(pos_real("M"));
  q.set_coordinates(b.coordinates());
  q.set_mass(b.mass());
  s.pc() = v_real("pc");
  s.fc() = vec("fc");
  apart(s.coordinates(), q.coordinates());
  double pc = s.pc(), r = dist(s.coordinates(), q.coordinates());
  point_t fc = s.fc();
  if(v_pick("particle", 0, 1)) fmm::taylor_p2c(&s, &b);
  else fmm::taylor_c2c(&s, &q);
  v_check_eq(s.pc(), pc - fmm::gc * b.mass() / r, "potential at the centre of a node");
  for(int d = 0; d < D; ++d)
    v_check_eq(s.fc()[d], fc[d] - fmm::gc * b.mass() * (s.coordinates()[d] - b.coordinates()[d]) / (r * r * r), "acceleration at the centre of a node");
  v_reach("end");
}
ENTRY(expand) { // first-order expansion about the centre of a node
  setup();
  node s;
  s.set_coordinates(vec("s"));
  s.pc() = v_real("pc");
  s.fc() = vec("fc");
  body b[2] = {particle(0), particle(1)}, o[2] = {b[0], b[1]};
  std::vector<body *> bs{&b[0], &b[1]};
  fmm::fmm_c2p(&s, bs);
  for(int i = 0; i < 2; ++i) {
    double pot = o[i].getGPotential() + s.pc();
    for(int d = 0; d < D; ++d) {
      pot -= (o[i].coordinates()[d] - s.coordinates()[d]) * s.fc()[d];
      v_check_eq(b[i].getGAcceleration()[d], o[i].getGAcceleration()[d] + s.fc()[d], "acceleration of the node is added");
    }
    v_check_eq(b[i].getGPotential(), pot, "potential is expanded to first order");
  }
  v_reach("end");
}
// fresh nodes carry no field
ENTRY(fresh) {
  tree_topology_t t;
  body b = particle(0);
  (void)b;
  key_type k = key_type::root();
  node s(k);
  v_check_eq(s.pc(), 0., "a new node has no potential");
  for(int d = 0; d < D; ++d) v_check_eq(s.fc()[d], 0., "a new node has no acceleration");
  v_check(!s.affected(), "a new node is not affected");
  v_reach("end");
}
