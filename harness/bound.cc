// Periodic boundaries: particles leaving the box re-enter it, images surround it.
#include "verif.h"
#include "user.h"
#include <math.h>
#include <stdlib.h>
#include <mpi.h>
#include <algorithm>
#include <numeric>
#include "params.h"
#include "default_physics.h"
#include "boundary.h"
static const int D = gdimension;
#ifndef NB
#define NB 2
#endif
static double pos_real(const char * n) {
  double x = v_real(n);
  v_assume(x > 0.);
  return x;
}
static double L[3];
static bool per[3];
static double halo;
static void box() {
  static double * len[3] = {&param::_box_length, &param::_box_width, &param::_box_height};
  static bool * pb[3] = {&param::_periodic_boundary_x, &param::_periodic_boundary_y, &param::_periodic_boundary_z};
  static const char * nm[3] = {"px", "py", "pz"};
  halo = pos_real("halo");
  for(int d = 0; d < D; ++d) {
    per[d] = *pb[d] = v_pick(nm[d], 0, 1);
    L[d] = *len[d] = pos_real("len");
    v_assume(halo < L[d] * .5);
  }
  for(int d = D; d < 3; ++d) *pb[d] = v_bool("unused axis");
}
static body particle(double reach) {
  body b;
  point_t x;
  for(int d = 0; d < D; ++d) {
    x[d] = v_real("x");
    v_assume(x[d] < reach * L[d] && x[d] > -reach * L[d]);
  }
  b.set_coordinates(x);
  b.set_mass(v_real("m"));
  b.setVelocity(x * 2.);
  b.setInternalenergy(v_real("u"));
  return b;
}
static bool same(const body & a, const body & b) {
  bool r = a.mass() == b.mass() && a.getInternalenergy() == b.getInternalenergy();
  for(int d = 0; d < D; ++d) r = r && a.getVelocity()[d] == b.getVelocity()[d];
  return r;
}
// images of the first n bodies among the walls that follow
static void images(const std::vector<body> & o, const std::vector<body> & bs, int total, int before) {
  int n = o.size(), expect = 0;
  for(int i = 0; i < n; ++i) {
    const body & b = bs[i];
    v_check(b.getType() == NORMAL && b.id() == o[i].id(), "particles of the domain keep place, type and id");
    v_check(same(b, o[i]), "periodic boundaries change positions only");
    int sh[3] = {0, 0, 0};
    for(int d = 0; d < D; ++d) {
      double x = o[i].coordinates()[d], y = b.coordinates()[d];
      if(!per[d]) {
        v_check_eq(y, x, "axis without periodic boundary is left alone");
        continue;
      }
      v_check(y == x || y == x + L[d] || y == x - L[d], "particle moves by a period");
      v_check(y <= .5 * L[d] && y > -.5 * L[d], "particle is back in the box");
      if(y + halo > .5 * L[d]) sh[d] = -1;
      else if(y - halo <= -.5 * L[d]) sh[d] = 1;
    }
    for(int m = 1; m < 1 << D; ++m) {
      bool use = true;
      point_t z = b.coordinates();
      for(int d = 0; d < D; ++d)
        if(m >> d & 1) {
          use = use && sh[d];
          z[d] += sh[d] * L[d];
        }
      if(!use) continue;
      ++expect;
      bool found = false;
      for(int w = n; w < (int)bs.size(); ++w) {
        bool eq = same(bs[w], o[i]);
        for(int d = 0; d < D; ++d) eq = eq && bs[w].coordinates()[d] == z[d];
        found = found || eq;
      }
      v_check(found, "every particle near the edge has its image on the other side");
    }
  }
  v_check((int)bs.size() == n + expect, "one image per edge, and no other particle");
  for(int w = n; w < (int)bs.size(); ++w) {
    v_check(bs[w].getType() == WALL, "images are walls");
    v_check((int)bs[w].id() == total + before + w - n, "images are numbered after the particles of all ranks");
  }
}
ENTRY(periodic) {
  box();
  std::vector<body> o;
  int n = v_pick("particles", 1, NB);
  for(int i = 0; i < n; ++i) {
    o.push_back(particle(1.5));
    o.back().set_id(n - 1 - i);
  }
  std::vector<body> bs = o;
  boundary::pboundary_generate(bs, halo);
  images(o, bs, n, 0);
  std::vector<body> in(bs.begin(), bs.begin() + n);
  boundary::pboundary_clean(bs);
  v_check((int)bs.size() == n, "cleaning removes the images and nothing else");
  for(int i = 0; i < n; ++i) {
    v_check(bs[i].id() == in[i].id() && same(bs[i], in[i]), "cleaning keeps the particles");
    for(int d = 0; d < D; ++d) v_check_eq(bs[i].coordinates()[d], in[i].coordinates()[d], "cleaning keeps the particles");
  }
  v_reach("end");
}
struct shared_t { int64_t walls[4]; };
static void rank_main(int r, void * a) {
  shared_t * sh = (shared_t *)a;
  std::vector<body> o;
  o.push_back(particle(.5));
  o.back().set_id(r);
  int size;
  MPI_Comm_size(MPI_COMM_WORLD, &size);
  std::vector<body> bs = o;
  boundary::pboundary_generate(bs, halo);
  sh->walls[r] = bs.size() - 1;
  MPI_Barrier(MPI_COMM_WORLD);
  int before = 0;
  for(int k = 0; k < r; ++k) before += sh->walls[k];
  images(o, bs, size, before);
  v_reach("rank");
}
ENTRY(periodic_ranks) {
  box();
  v_ranks(2, rank_main, v_shared(sizeof(shared_t)));
  v_reach("end");
}
