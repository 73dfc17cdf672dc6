# bugs in the tree, the sort and the files
import os
_H = os.path.join(V, "harness")
RT = {f: open(os.path.join(_H, f)).read() for f in ("rt_native.cc", "verif.h", "h5mem.h")}
TT = "include/tree_topology/tree_topology.h"
TREE = '''
#include "verif.h"
#include "user.h"
#include <cfloat>
#include <mpi.h>
#include <omp.h>
#include <algorithm>
#include <cmath>
#include <iostream>
#include <map>
#include <set>
#include <type_traits>
#include "params.h"
#include "default_physics.h"
typedef tree_topology_t tree_t;
static const int D = gdimension;
extern "C" int verif_failed();
#define CHECK(c) do { if(!(c)) { std::cerr << "failed: " #c "\\n"; exit(1); } } while(0)
static std::array<point_t, 2> box() { return {point_t(0.), point_t(1.)}; }
static uint64_t seed = 12345;
static double rnd() { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return (seed >> 11) / 9007199254740992.; }
static std::vector<body> cloud(int n, double h) {
  std::vector<body> v;
  for(int i = 0; i < n; ++i) {
    body b;
    point_t p;
    for(int d = 0; d < D; ++d) p[d] = .02 + .96 * rnd();
    b.set_coordinates(p); b.set_mass(1. + rnd()); b.set_radius(h); b.set_id(i); b.set_owner(0);
    b.setGAcceleration(point_t(0.)); b.setGPotential(0.);
    b.set_key(key_type(box(), p));
    v.push_back(b);
  }
  return v;
}
static void order(std::vector<body> & v) {
  std::sort(v.begin(), v.end(), [](const body & a, const body & b) { return a.key() < b.key(); });
  for(size_t i = 0; i < v.size(); ++i) v[i].set_id(i);
}
// sums instead of moments, to see who acts on whom
static void cofm(node * c, std::vector<body *> e, std::vector<node *> n) { physics::compute_cofm(c, e, n); }
static double sq(double x) { return x * x; }
static void grav(tree_t & t, double mac) {
  t.traversal_fmm(mac,
    [&](node * s, const node * q) { s->pc() += q->mass(); },
    [&](node * s, const body * q) { s->pc() += q->mass(); },
    [&](std::vector<body *> & ss, const node * q, const std::vector<body *> & ps) {
      for(body * b : ss) {
        if(q) b->setGPotential(b->getGPotential() + q->mass());
        for(body * p : ps) b->setGPotential(b->getGPotential() + p->mass());
      }
    },
    [&](const node * q, std::vector<body *> & ss) {
      for(body * b : ss) b->setGPotential(b->getGPotential() + q->pc());
    });
}
static void sph(tree_t & t, const std::vector<body> & all, int lo, int hi) {
  std::vector<int> seen(all.size());
  t.traversal_sph([&](body & b, std::vector<body *> & nb) {
    int i = b.id();
    ++seen[i];
    std::vector<int> f(all.size());
    for(body * q : nb) ++f[q->id()];
    for(size_t j = 0; j < all.size(); ++j) {
      double d = distance(all[i].coordinates(), all[j].coordinates());
      CHECK(f[j] < 2);
      if(d < .4999 * (all[i].radius() + all[j].radius())) CHECK(f[j] == 1);
      if(d > 1.0001 * std::max(all[i].radius(), all[j].radius())) CHECK(f[j] == 0);
    }
  });
  for(size_t i = 0; i < all.size(); ++i) CHECK(seen[i] == ((int)i >= lo && (int)i < hi));
}
'''
def tr(name, prop, nd, edits, needs, breaks, demo):
    return dict(name=name, property=prop, stubs=True, flags="-DEXT_GDIMENSION=%d" % nd, link='"$D/rt_native.cc"', files=RT,
                edits=edits, needs=needs, breaks=breaks, demo=TREE + demo)
def go(body, n=1):
    return "\nstatic void go(int r, void *) {\n" + body + "\n}\nint main() { v_ranks(%d, go, 0); return verif_failed(); }" % n
IO = '''
#include "h5mem.h"
#include "user.h"
#include "params.h"
#include "default_physics.h"
#include "io.h"
#include <iostream>
extern "C" int verif_failed();
#define CHECK(c) do { if(!(c)) { std::cerr << "failed: " #c "\\n"; exit(1); } } while(0)
static std::vector<body> some(int n, int64_t id) {
  std::vector<body> v(n);
  for(int i = 0; i < n; ++i) {
    v[i].set_coordinates(point_t(.1 * i)); v[i].setVelocity(point_t(.2 * i)); v[i].set_id(id + i); v[i].set_mass(i + 1.);
    v[i].set_radius(.5); v[i].setDensity(1.); v[i].setPressure(1.); v[i].setDt(.1);
    v[i].setInternalenergy(1.); v[i].setType(NORMAL);
  }
  return v;
}
'''
def io(name, prop, edits, needs, breaks, demo, n):
    return dict(name=name, property=prop, stubs=True, flags="-DEXT_GDIMENSION=1", link='"$D/rt_native.cc"', files=RT,
                edits=edits, needs=needs, breaks=breaks,
                demo=IO + "static void go(int r, void *) {" + demo + '''
}
int main() {
  h5mem::disk = (h5mem::disk_t *)v_shared(sizeof(h5mem::disk_t));
  v_ranks(%d, go, 0);
  return verif_failed();
}''' % n)
BUGS = [
 tr("x01-deep-parent", "X01", 2, [(TT, "        parent->add_child(bit);\n        parent->set_entity_idx(-1);\n        htable_.emplace(nkey, nkey);",
      "        parent->add_child(bit);\n        if(current_depth + 2 > max_depth_)\n          parent->set_entity_idx(-1);\n        htable_.emplace(nkey, nkey);")],
    "a particle that splits the leaf of another one, below which more than one digit is shared", "the parents of close particles stay leaves of the tree",
    go('''
  std::vector<body> v = cloud(120, .05);
  for(int i = 0; i < 40; ++i) {
    point_t p = v[i].coordinates();
    for(int k = 0; k < 2; ++k) {
      for(int d = 0; d < D; ++d) p[d] += 1e-5 * (rnd() + k);
      body b = v[i];
      b.set_coordinates(p);
      b.set_key(key_type(box(), p));
      v.push_back(b);
    }
  }
  order(v);
  tree_t t;
  t.entities() = v;
  t.build_tree(cofm);
  std::set<int> s;
  t.traversal(t.root(), [&](tree_t::hcell_t * c) {
    if(c->is_node()) return true;
    CHECK(s.insert(t.get_entity(c)->id()).second);
    return false;
  });
  CHECK(s.size() == v.size());''')),
 tr("x02-node-reach", "X02", 2, [(TT, "          element_t extent = std::max(c->lap(), radius) + c->radius();\n          if(geometry_t::within_distance2(c->coordinates(), center, extent))",
      "          element_t extent = std::max(c->lap(), radius + .5 * c->radius());\n          if(geometry_t::within_distance2(c->coordinates(), center, extent))")],
    "a search radius larger than the smoothing lengths and a particle at the far end of its node", "particles in reach are not found",
    go('''
  std::vector<body> v = cloud(300, .001);
  order(v);
  tree_t t;
  t.entities() = v;
  t.build_tree(cofm);
  for(int k = 0; k < 200; ++k) {
    point_t c;
    for(int d = 0; d < D; ++d) c[d] = rnd();
    double r = .01 + .2 * rnd();
    auto f = t.find_in_radius(c, r, [](const point_t &, double) { return true; });
    size_t n = 0;
    for(auto & b : v) n += distance(b.coordinates(), c) < r;
    CHECK(f.size() == n);
  }''')),
 tr("x03-wide-particle", "X03", 2, [(TT, "                std::max(e->radius(), cur_node->lap()) + cur_node->radius();", "                std::max(e->radius(), cur_node->lap());")],
    "a particle whose smoothing length exceeds the extent of a whole cell of more than one particle", "the particles of that cell at its far side miss the wide particle",
    go('''
  std::vector<body> v = cloud(600, .01);
  for(int i = 0; i < 600; i += 20) v[i].set_radius(.5);
  order(v);
  tree_t t;
  t.entities() = v;
  t.build_tree(cofm);
  sph(t, v, 0, v.size());''')),
 tr("x04-affected", "X04", 2, [(TT, "                    entity_t * e = get_entity(hc2);\n                    t_p2c(n1, e);\n                  }\n                  // save this node for later c2c interactions\n                  n1->set_affected(true);",
     "                    entity_t * e = get_entity(hc2);\n                    t_p2c(n1, e);\n                  }\n                  // save this node for later c2c interactions\n                  if(hc2->is_node())\n                    n1->set_affected(true);")],
    "a node that is far from single particles only", "the attraction of the single particle never reaches the particles of the node",
    go('''
  std::vector<body> v = cloud(3, .01);
  double x[3] = {.1, .11, .9};
  for(int i = 0; i < 3; ++i) {
    point_t p(x[i]);
    v[i].set_coordinates(p);
    v[i].set_key(key_type(box(), p));
  }
  order(v);
  tree_t t;
  t.entities() = v;
  t.build_tree(cofm);
  grav(t, .5);
  double m = 0.;
  for(auto & b : v) m += b.mass();
  for(auto & b : t.entities()) CHECK(std::fabs(b.getGPotential() - m) < 1e-9);''')),
 tr("x05-forwarded-owner", "X05", 2, [(TT, """        for(size_t j = 0; j < r_ghosts_nodes.size(); ++j) {
          if(r_ghosts_nodes[j].owner != rank) {
            shared_nodes_.push_back(r_ghosts_nodes[j].node);
            load_shared_node_(shared_nodes_.size() - 1, r_ghosts_nodes[j].key,
              r_ghosts_nodes[j].owner);
          }
        }
        cofm_update_(root(), f_cc);""", """        for(size_t j = 0; j < r_ghosts_nodes.size(); ++j) {
          if(r_ghosts_nodes[j].owner != rank) {
            shared_nodes_.push_back(r_ghosts_nodes[j].node);
            load_shared_node_(shared_nodes_.size() - 1, r_ghosts_nodes[j].key,
              partner);
          }
        }
        cofm_update_(root(), f_cc);""")],
    "at least four ranks, each with whole nodes of the tree", "nodes that were passed on are asked for at the rank that passed them on, which does not have them",
    go('''
  std::vector<body> v = cloud(200, .1);
  order(v);
  tree_t t;
  int n = v.size(), a = r * n / 4, z = (r + 1) * n / 4;
  t.entities().assign(v.begin() + a, v.begin() + z);
  for(auto & b : t.entities()) b.set_owner(r);
  t.build_tree(cofm);
  sph(t, v, a, z);''', 4)),
 dict(name="p01-ties", property="P01", stubs=True, link='"$D/rt_native.cc"', files=RT,
  edits=[("mpisph/psort.h", "          d_ranges_x[n_act_x] =\n            std::make_pair(first + ind_local[2 * k + 1], d_ranges[k].second);\n          for(int i = 0; i < size; ++i) {\n            subdist_x[n_act_x][i] =\n              outleft[k][i] + subdist[k][i] - ind_all[2 * (i * n_act + k) + 1];\n            outleft_x[n_act_x][i] = ind_all[2 * (i * n_act + k) + 1];",
   "          d_ranges_x[n_act_x] =\n            std::make_pair(first + ind_local[2 * k], d_ranges[k].second);\n          for(int i = 0; i < size; ++i) {\n            subdist_x[n_act_x][i] =\n              outleft[k][i] + subdist[k][i] - ind_all[2 * (i * n_act + k)];\n            outleft_x[n_act_x][i] = ind_all[2 * (i * n_act + k)];")],
  needs="a search that goes on above a value most particles of it share", breaks="the sort goes round in circles",
  demo='''
#include "verif.h"
#include <mpi.h>
#include <algorithm>
#include <cassert>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <numeric>
#include <stdexcept>
#include <vector>
#include "psort.h"
extern "C" int verif_failed();
static uint64_t seed;
static uint64_t rnd() { seed = seed * 6364136223846793005ull + 1442695040888963407ull; return seed >> 33; }
static void go(int r, void *) {
  int d[3] = {5, 5, 5};
  for(int k = 0; k < 30; ++k) {
    seed = k + 1;
    std::vector<int> all, v;
    for(int i = 0; i < 15; ++i) all.push_back(rnd() % 9);
    v.assign(all.begin() + 5 * r, all.begin() + 5 * r + 5);
    std::sort(all.begin(), all.end());
    psort::psort(v, [](int a, int b) { return a < b; }, d);
    if(!std::equal(v.begin(), v.end(), all.begin() + 5 * r)) exit(1);
  }
}
int main() { v_ranks(3, go, 0); return verif_failed(); }'''),
 io("o01-wide-id", "O01", [("mpisph/io.h", "    bi[pos] = bid.id();\n", "    bi[pos] = bid.id() & ((1L << 40) - 1);\n")],
    "identities above 2^40", "the identity read back is another one", '''
  auto v = some(2, (1L << 42) + 5);
  io::outputDataHDF5(v, "run", 0, 0.);
  int64_t t, l;
  std::vector<body> w;
  io::inputDataHDF5(w, "run", "other", t, l, 0);
  CHECK(w[0].id() == v[0].id() && w[1].id() == v[1].id());''', 1),
 io("o01-uneven-offset", "O01", [("mpisph/io.h", "  for(int i = 1; i < size; ++i)\n    offcount[i] += offcount[i - 1];\n  offcount.insert(offcount.begin(), 0);\n\n  IO_nparticles = offcount[size];\n  IO_offset = offcount[rank];",
     "  for(int i = 1; i < size; ++i)\n    offcount[i] += offcount[i - 1];\n  offcount.insert(offcount.begin(), 0);\n\n  IO_nparticles = offcount[size];\n  IO_offset = rank == size - 1 ? IO_nparticles - IO_nparticlesproc : IO_nparticlesproc * rank;")],
    "at least three ranks and a rank in the middle with another number of particles than the first", "particles are written over one another", '''
  int n[3] = {1, 3, 2};
  auto v = some(n[r], r * 100);
  io::outputDataHDF5(v, "run", 0, 0.);
  int64_t t, l;
  std::vector<body> w;
  io::inputDataHDF5(w, "run", "other", t, l, 0);
  int64_t want[6] = {0, 100, 101, 102, 200, 201};
  CHECK(l == 2 && w[0].id() == want[2 * r] && w[1].id() == want[2 * r + 1]);''', 3),
 io("o02-uneven-ids", "O02", [("mpisph/io.h", "      int64_t start = IO_offset + 1;", "      int64_t start = rank * IO_nparticlesproc + (rank == size - 1 ? IO_nparticles % IO_nparticlesproc : 0) + 1;")],
    "a file without identities read by ranks that do not all get the same number of particles", "identities are given twice", '''
  hid_t none = 0;
  h5mem::disk->files[0].used ? 0 : 0;
  (void)none;
  auto v = some(1 + (r == 0 ? 3 : 0), 1);
  int64_t t, l;
  io::outputDataHDF5(v, "run", 0, 0.);
  MPI_Barrier(MPI_COMM_WORLD);''' + "", 3),
 io("o03-other-prefix", "O03", [("mpisph/io.h", "  buf[imn] = '\\0';\n  if(strcmp(fprefix, buf) == 0)\n    return snum;", "  buf[imn] = '\\0';\n  if(strncmp(fprefix, buf, strlen(fprefix)) == 0)\n    return snum;")],
    "a snapshot of another run whose name begins with the prefix", "the snapshot of the other run is taken for one of this run, and deleted with it", '''
  CHECK(io::H5P_isPrefixSnapshot("run", "run_00007.h5part") == 7);
  CHECK(io::H5P_isPrefixSnapshot("run", "run_hot_00007.h5part") == -1);''', 1),
 io("o04-later-iteration", "O04", [("mpisph/io.h", "      if(file_iteration == iteration) {\n        found_step = step;", "      if(file_iteration >= iteration and (found_step < 0 or file_iteration == iteration)) {\n        found_step = step;")],
    "a restart from an iteration of several files", "the restart takes up another iteration", '''
  param::_out_h5data_separate_iterations = true;
  for(int k = 0; k < 3; ++k) {
    auto v = some(2, 1 + 10 * k);
    io::outputDataHDF5(v, "run", 5 * k, 0.);
  }
  CHECK(io::H5P_findIterationSnapshot("run", 5) == 1);
  CHECK(io::H5P_findIterationSnapshot("run", 3) == -1);''', 1),
 tr("e01-ppt-energy", "E01", 1, [("include/physics/eos/eos.h", "          - K2*pow(rho_thr, poly_gamma2 - 1.)/(poly_gamma2 - 1.)\n", "          - K1*pow(rho_thr, poly_gamma2 - 1.)/(poly_gamma2 - 1.)\n")],
    "the piecewise polytropic equation of state above the threshold density", "the internal energy jumps at the threshold",
    '''
int main() {
  param::_eos_type = param::eos_ppt; param::_poly_gamma = 1.4; param::_poly_gamma2 = 2.; param::_ppt_density_thr = 3.;
  eos::select();
  body b;
  double u[2];
  for(int i = 0; i < 2; ++i) {
    b.setDensity(1.); b.setPressure(2.);
    eos::init(b);
    b.setDensity(3. + (i ? 1e-9 : -1e-9));
    eos::compute_internal_energy(b);
    u[i] = b.getInternalenergy();
  }
  CHECK(std::fabs(u[0] - u[1]) < 1e-6);
}'''),
 tr("e02-third-wall", "E02", 3, [("include/physics/eforce.h", "            vec_potentials.push_back(potential_walls_z);\n            vec_accelerations.push_back(acceleration_walls_z);", "            vec_potentials.push_back(i == 2 ? potential_walls_z : potential_square_well<1>);\n            vec_accelerations.push_back(acceleration_walls_z);")],
    "a z wall that is not the third of the list", "the wall's potential belongs to another axis than its force",
    '''
int main() {
  param::_box_length = param::_box_width = param::_box_height = 2.;
  param::_extforce_wall_powerindex = 3.; param::_extforce_wall_steepness = 2.;
  for(const char * s : {"walls:xyz", "walls:z", "walls:zx"}) {
    external_force::select(s);
    point_t p{0., 0., 1.5};
    CHECK(external_force::potential(p) > 0.);
  }
}'''),
]
BUGS = [b for b in BUGS if b["name"] != "o02-uneven-ids"]
