// The tree (include/tree_topology/tree_topology.h): construction, search, traversals.
#include "verif.h"
#include <cfloat>
#include "user.h"
#include <mpi.h>
#include <omp.h>
#include <algorithm>
#include <type_traits>
#include "params.h"
#include "default_physics.h"
typedef tree_topology_t tree_t;
typedef tree_t::hcell_t cell_t;
static const int D = gdimension;
#ifndef NB
#define NB 3
#endif
static double pos_real(const char * n) {
  double x = v_real(n);
  v_assume(x > 0.);
  return x;
}
static point_t vec(const char * n) {
  point_t p;
  for(int i = 0; i < D; ++i) p[i] = v_real(n);
  return p;
}
static double dist2(const point_t & a, const point_t & b) {
  double s = 0;
  for(int i = 0; i < D; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return s;
}
// a full-depth key with given digits at the first two levels and the last one
static key_type cell_key(int c) {
  int md = key_type::max_depth(), nc = 1 << D;
  int d1 = c / (nc * nc), d2 = c / nc % nc, d3 = c % nc;
  key_type k = key_type::root();
  for(int i = 0; i < md; ++i) k.push(i == 0 ? d1 : i == 1 ? d2 : i == md - 1 ? d3 : 0);
  return k;
}
static bool prefix(key_type p, key_type k) {
  while(k > p) k.pop();
  return k == p;
}
static body make(int id, int c) {
  body b;
  b.set_coordinates(vec("x"));
  b.set_mass(pos_real("m"));
  b.set_radius(pos_real("h"));
  b.set_id(id);
  b.set_key(cell_key(c));
  b.set_owner(0);
  b.setGPotential(0.);
  b.setGAcceleration(point_t(0.));
  return b;
}
// increasing cells, one per body
static void cells(int n, int * c) {
  int last = (1 << 3 * D) - 1;
  for(int i = 0; i < n; ++i) {
    int lo = i ? c[i - 1] + 1 : 0;
#ifdef CELLS
    static const int cs[] = {CELLS};
    static int at = 0;
    at = v_pick("cell", i ? at + 1 : 0, sizeof(cs) / sizeof(cs[0]) - n + i);
    c[i] = cs[at];
    (void)lo;
    (void)last;
#else
    c[i] = v_pick("cell", lo, last - (n - 1 - i));
#endif
  }
}
static void fill(tree_t & t, int n) {
  int c[NB];
  cells(n, c);
  t.entities().clear();
  for(int i = 0; i < n; ++i) t.entities().push_back(make(i, c[i]));
}
// every particle below its keys, once; every node sums up what is below it
static void well_formed(tree_t & t, int n) {
  std::vector<body *> leaves;
  std::vector<cell_t *> nodes;
  t.traversal(t.root(), [&](cell_t * c) {
    if(c->is_node()) {
      nodes.push_back(c);
      return true;
    }
    body * b = t.get_entity(c);
    v_check(prefix(c->key(), b->key()), "particle sits below the prefix of its key");
    leaves.push_back(b);
    return false;
  });
  v_check((int)leaves.size() == n, "every particle is in the tree exactly once");
  for(int i = 0; i < n; ++i)
    v_check(std::count(leaves.begin(), leaves.end(), &t.entities()[i]) == 1, "every particle is in the tree exactly once");
  v_check(t.root()->key() == key_type::root(), "the root has the root key");
  for(cell_t * c : nodes) {
    node * nd = t.get_node(c);
    double m = 0;
    int cnt = 0, kids = 0;
    for(body * b : leaves)
      if(prefix(c->key(), b->key())) {
        m += b->mass();
        ++cnt;
      }
    for(int k = 0; k < 1 << D; ++k) {
      bool any = false;
      key_type ck = c->key();
      ck.push(k);
      for(body * b : leaves) any = any || prefix(ck, b->key());
      v_check(c->get_child(k) == any, "a node has a child where it has particles");
      kids += any;
    }
    v_check(c->nchildren() == kids, "number of children");
    v_check(nd->sub_entities() == cnt, "node counts the particles below it");
    v_check(cnt > 1 || c->key() == key_type::root(), "nodes split at least two particles");
    v_check_eq(nd->mass(), m, "mass of a node is the mass below it");
  }
}
// moments without rounding or square roots: sums and extrema only
static void moments(node * c, std::vector<body *> es, std::vector<node *> ns) {
  double m = 0;
  int s = 0;
  for(body * b : es) {
    m += b->mass();
    ++s;
  }
  for(node * q : ns) {
    m += q->mass();
    s += q->sub_entities();
  }
  c->set_mass(m);
  c->set_sub_entities(s);
  c->set_coordinates(point_t{});
}
ENTRY(build) {
  tree_t t;
  int n = v_pick("bodies", 1, NB);
  fill(t, n);
  t.build_tree(moments);
  well_formed(t, n);
  v_check(t.max_depth() <= key_type::max_depth(), "depth within the key");
  v_reach("end");
}
// two particles in one deepest cell
ENTRY(build_equal) {
  tree_t t;
  t.entities().push_back(make(0, 5));
  t.entities().push_back(make(1, 5));
  t.build_tree(moments);
  well_formed(t, 2);
  v_reach("end");
}
// --------------------------------------------------------------------- moments
// below the largest double, where the box of an empty node starts
static point_t bounded(const char * n) {
  point_t p = vec(n);
  for(int d = 0; d < D; ++d) v_assume(p[d] < 1e9 && p[d] > -1e9);
  return p;
}
struct children {
  body b[2];
  node q[2], c;
  std::vector<body *> es;
  std::vector<node *> ns;
  children(int maxe, int maxn) {
    int ne = v_pick("particles", 0, maxe), nn = v_pick("nodes", ne ? 0 : 1, maxn);
    for(int i = 0; i < ne; ++i) {
      b[i] = make(i, i);
      b[i].set_coordinates(bounded("x"));
      v_assume(b[i].radius() < 1e9);
      es.push_back(&b[i]);
    }
    for(int i = 0; i < nn; ++i) {
      double r = v_real("radius"), l = v_real("lap");
      v_assume(r >= 0. && l >= 0.);
      q[i].set_coordinates(bounded("q"));
      q[i].set_mass(pos_real("m"));
      q[i].set_sub_entities(1 + v_u8("sub"));
      q[i].set_radius(r);
      q[i].set_lap(l);
      q[i].set_bmin(bounded("lo"));
      q[i].set_bmax(bounded("hi"));
      ns.push_back(&q[i]);
    }
    physics::compute_cofm(&c, es, ns);
  }
};
ENTRY(cofm_sums) {
  children k(2, 2);
  double m = 0;
  size_t s = 0;
  point_t mx = {};
  for(body * b : k.es) {
    m += b->mass();
    mx += b->mass() * b->coordinates();
    ++s;
  }
  for(node * q : k.ns) {
    m += q->mass();
    mx += q->mass() * q->coordinates();
    s += q->sub_entities();
  }
  v_check_eq(k.c.mass(), m, "mass of a node is the sum of its children");
  v_check((size_t)k.c.sub_entities() == s, "particles of a node are those of its children");
  for(int d = 0; d < D; ++d) v_check_eq(k.c.coordinates()[d] * m, mx[d], "centre of mass");
  v_reach("end");
}
ENTRY(cofm_box) {
  children k(2, 2);
  for(int d = 0; d < D; ++d) {
    bool lo = false, hi = false;
    for(body * b : k.es) {
      double l = b->coordinates()[d] - b->radius() / 2, h = b->coordinates()[d] + b->radius() / 2;
      v_check(k.c.bmin()[d] <= l && k.c.bmax()[d] >= h, "box holds the interaction range of every particle");
      lo |= k.c.bmin()[d] >= l;
      hi |= k.c.bmax()[d] <= h;
    }
    for(node * q : k.ns) {
      v_check(k.c.bmin()[d] <= q->bmin()[d] && k.c.bmax()[d] >= q->bmax()[d], "box holds the box of every child");
      lo |= k.c.bmin()[d] >= q->bmin()[d];
      hi |= k.c.bmax()[d] <= q->bmax()[d];
    }
    v_check(lo && hi, "box is no larger than needed");
  }
  v_reach("end");
}
// by the triangle inequality, the reach of a child bounds what is below it
ENTRY(cofm_reach) {
  children k(1, 2);
  for(body * b : k.es) {
    double d = distance(k.c.coordinates(), b->coordinates());
    v_check(k.c.radius() >= d, "radius reaches every particle");
    v_check(k.c.lap() >= d + b->radius(), "lap reaches the edge of every particle");
  }
  for(node * q : k.ns) {
    double d = distance(k.c.coordinates(), q->coordinates());
    v_check(k.c.radius() >= d + q->radius(), "radius reaches past every child");
    v_check(k.c.lap() >= d + q->lap(), "lap reaches past every child");
  }
  v_reach("end");
}
// ------------------------------------------------------------------ traversals
// Bodies have the masses 1, 2, 4, ..., so that the mass of a node names what is
// below it; the moments of the nodes are any that bound everything below.
static body * all[8];
static int weight = 1, axis = 0;
static bool near(const point_t & a, const point_t & b, double r) {
  if(D == 1) return (a[0] - b[0] <= r) & (b[0] - a[0] <= r);
  return (r >= 0.) & (dist2(a, b) <= r * r);
}
// the triangle inequality: true of any points and radii, and stated for the
// solver in the terms of the search (b below c; e within s of b)
static point_t centre;
static double reach = -1.;
static void triangle(const point_t & b, double hb, const node * c, double r, double l, const point_t & e, double he, double s) {
#ifdef AXIS
  return;
#endif
  double x = std::max(l, he) + r;
  v_assume(!(dist2(b, e) <= s * s) | !(dist2(b, c->coordinates()) <= r * r) | (s > std::max(hb, he)) |
           (hb > l) | (dist2(c->coordinates(), e) <= x * x));
}
static void some_moments(node * c, std::vector<body *> es, std::vector<node *> ns) {
  int m = 0;
  for(body * b : es) m += (int)b->mass();
  for(node * q : ns) m += (int)q->mass();
  c->set_mass(m);
  point_t x = {}, lo, hi;
  double r = pos_real("radius"), l = pos_real("lap");
  int cnt = 0;
#ifdef AXIS
  x[axis] = v_real("c");
#else
  x = vec("c");
#endif
  for(int i = 0; i < 8; ++i)
    if(m >> i & 1) {
      ++cnt;
      const body & b = *all[i];
      v_assume(near(b.coordinates(), x, r));
      v_assume(near(b.coordinates(), x, l - b.radius()));
      for(int d = 0; d < D; ++d) {
        double l = b.coordinates()[d] - b.radius() / 2, u = b.coordinates()[d] + b.radius() / 2;
        lo[d] = cnt == 1 ? l : std::min(lo[d], l);
        hi[d] = cnt == 1 ? u : std::max(hi[d], u);
      }
    }
#ifdef AXIS
  for(int d = 0; d < D; ++d)
    if(d != axis) {
      lo[d] = -1e6;
      hi[d] = 1e6;
    }
#endif
  c->set_coordinates(x);
  c->set_radius(r);
  c->set_lap(l);
  c->set_bmin(lo);
  c->set_bmax(hi);
  c->set_sub_entities(cnt * weight);
  for(int i = 0; i < 8; ++i)
    if(m >> i & 1) {
      const body & b = *all[i];
      if(reach >= 0.) triangle(b.coordinates(), b.radius(), c, r, l, centre, reach, std::max(reach, b.radius()));
      else
        for(body * e : all)
          if(e) triangle(b.coordinates(), b.radius(), c, r, l, e->coordinates(), e->radius(), std::max(b.radius(), e->radius()));
    }
}
template<class F>
static void grow(tree_t & t, int n, F && f) {
  fill(t, n);
#ifdef AXIS
  for(int i = 0; i < n; ++i) {
    point_t p = {};
    p[axis] = v_real("x");
    if(i) v_assume(p[axis] > t.entities()[i - 1].coordinates()[axis]);
    t.entities()[i].set_coordinates(p);
    v_assume(t.entities()[i].radius() <= 1e6);
  }
#endif
  for(int i = 0; i < n; ++i) {
    all[i] = &t.entities()[i];
    all[i]->set_mass(1 << i);
  }
  t.build_tree(f);
}
ENTRY(find) {
  tree_t t;
  int n = v_pick("bodies", 1, NB);
  point_t c = {};
#ifdef AXIS
  axis = v_pick("axis", 0, D - 1);
  c[axis] = v_real("centre");
#else
  c = vec("centre");
#endif
  centre = c;
  double r = reach = pos_real("r");
  grow(t, n, some_moments);
  std::vector<body *> f = t.find_in_radius(c, r, [](const point_t &, double) { return true; });
  int found[NB] = {};
  for(body * b : f) ++found[b->id()];
  for(int i = 0; i < n; ++i) {
    bool in = near(c, all[i]->coordinates(), std::max(r, all[i]->radius()));
    v_check(found[i] == 0 || found[i] == 1, "no particle twice");
    v_check((found[i] == 1) == in, "exactly the particles in reach");
  }
  v_reach("end");
}
ENTRY(sph) {
  tree_t t;
  int n = v_pick("bodies", 1, NB);
#ifdef AXIS
  axis = v_pick("axis", 0, D - 1);
#endif
  weight = v_pick("weight", 0, 2) * 49 + 1; // cells of any size, of two, of one
  grow(t, n, some_moments);
  int seen[NB] = {};
  bool allowed = true, complete = true, once = true;
  t.traversal_sph([&](body & b, std::vector<body *> & nbs) {
    int i = b.id(), found[NB] = {};
    ++seen[i];
    for(body * q : nbs) ++found[q->id()];
    for(int j = 0; j < n; ++j) {
      const body & q = *all[j];
      once = once && found[j] < 2;
      if(found[j]) allowed &= near(b.coordinates(), q.coordinates(), std::max(b.radius(), q.radius()));
      else complete &= !near(b.coordinates(), q.coordinates(), (b.radius() + q.radius()) / 2);
    }
  });
  v_check(once, "no neighbour twice");
  v_check(allowed, "neighbours are in reach of one of the two");
  v_check(complete, "every interacting pair is found");
  for(int i = 0; i < n; ++i) v_check(seen[i] == 1, "every particle is visited once");
  v_reach("end");
}
static void free_moments(node * c, std::vector<body *> es, std::vector<node *> ns) {
  int m = 0;
  for(body * b : es) m += (int)b->mass();
  for(node * q : ns) m += (int)q->mass();
  c->set_mass(m);
  c->set_coordinates(vec("c"));
  c->set_radius(pos_real("radius"));
  c->set_sub_entities(es.size() + 2 * ns.size());
}
// every particle receives every other particle exactly once
ENTRY(fmm) {
  tree_t t;
  int n = v_pick("bodies", 1, NB);
  grow(t, n, free_moments);
  double mac = v_pick("mac", 0, 2) / 2.;
  auto far = [&](const point_t & a, double ra, const point_t & b, double rb) {
    v_check(ra + rb < mac * distance(a, b), "approximated only where the criterion allows");
  };
  t.traversal_fmm(
    mac,
    [&](node * s, const node * q) {
      far(s->coordinates(), s->radius(), q->coordinates(), q->radius());
      v_check(((int)s->mass() & (int)q->mass()) == 0, "no particle attracts itself through a node");
      s->pc() += q->mass();
    },
    [&](node * s, const body * q) {
      far(s->coordinates(), s->radius(), q->coordinates(), 0.);
      s->pc() += q->mass();
    },
    [&](std::vector<body *> & ss, const node * q, const std::vector<body *> & ps) {
      for(body * b : ss) {
        if(q) {
          far(b->coordinates(), 0., q->coordinates(), q->radius());
          b->setGPotential(b->getGPotential() + q->mass());
        }
        for(body * p : ps) b->setGPotential(b->getGPotential() + p->mass());
      }
    },
    [&](const node * q, std::vector<body *> & ss) {
      for(body * b : ss) b->setGPotential(b->getGPotential() + q->pc());
    });
  for(int i = 0; i < n; ++i) v_check_eq(all[i]->getGPotential(), (double)((1 << n) - 1), "every particle acts once on every particle");
  v_reach("end");
}
// ------------------------------------------------------------- several ranks
// particles sorted along an axis; moments that are functions of what is below
static int nall, first[12], what;
static body them[12];
static void exact_moments(node * c, std::vector<body *> es, std::vector<node *> ns) {
  int m = 0, a = -1, z = -1;
  for(body * b : es) m += (int)b->mass();
  for(node * q : ns) m += (int)q->mass();
  c->set_mass(m);
  int cnt = 0;
  double lap = 0.;
  point_t x = {}, lo, hi;
  for(int d = 0; d < D; ++d) {
    lo[d] = -1e6;
    hi[d] = 1e6;
  }
  for(int i = 0; i < nall; ++i)
    if(m >> i & 1) {
      double p = them[i].coordinates()[axis], h = them[i].radius();
      if(a < 0) a = i, x[axis] = p;
      lap = what == 1 ? 1e7 : cnt ? std::max(lap, h + p - x[axis]) : h; // the attraction does not look at it
      if(what != 1) {
        lo[axis] = cnt ? std::min(lo[axis], p - h / 2) : p - h / 2;
        hi[axis] = cnt ? std::max(hi[axis], p + h / 2) : p + h / 2;
      }
      z = i;
      ++cnt;
    }
  c->set_coordinates(x);
  c->set_radius(them[z].coordinates()[axis] - x[axis]);
  c->set_lap(lap);
  c->set_bmin(lo);
  c->set_bmax(hi);
  c->set_sub_entities(cnt * weight);
}
static void check_sph(tree_t & t, int r, const char * once, const char * found_ok) {
  int seen[12] = {};
  bool allowed = true, complete = true, unique = true, data = true;
  t.traversal_sph([&](body & b, std::vector<body *> & nbs) {
    int i = b.id(), found[12] = {};
    ++seen[i];
    for(body * q : nbs) {
      ++found[q->id()];
      data &= q->mass() == them[q->id()].mass();
      for(int d = 0; d < D; ++d) data &= q->coordinates()[d] == them[q->id()].coordinates()[d];
      data &= q->radius() == them[q->id()].radius();
    }
    for(int j = 0; j < nall; ++j) {
      const body & q = them[j];
      unique = unique && found[j] < 2;
      if(found[j]) allowed &= near(b.coordinates(), q.coordinates(), std::max(b.radius(), q.radius()));
      else complete &= !near(b.coordinates(), q.coordinates(), (b.radius() + q.radius()) / 2);
    }
  });
  v_check(unique, "no neighbour twice");
  v_check(data, "neighbours from other ranks arrive unchanged");
  v_check(allowed, "neighbours are in reach of one of the two");
  v_check(complete, found_ok);
  for(int i = 0; i < nall; ++i) v_check(seen[i] == (i >= first[r] && i < first[r + 1]), once);
}
static void check_fmm(tree_t & t, int r, double mac) {
  int n = first[r + 1] - first[r];
  for(int i = 0; i < n; ++i) t.entities()[i].setGPotential(0.);
  bool far = true, self = true;
  t.traversal_fmm(
    mac,
    [&](node * s, const node * q) {
      far &= s->radius() + q->radius() < mac * distance(s->coordinates(), q->coordinates());
      self = self && ((int)s->mass() & (int)q->mass()) == 0;
      s->pc() += q->mass();
    },
    [&](node * s, const body * q) {
      far &= s->radius() < mac * distance(s->coordinates(), q->coordinates());
      s->pc() += q->mass();
    },
    [&](std::vector<body *> & ss, const node * q, const std::vector<body *> & ps) {
      for(body * b : ss) {
        if(q) {
          far &= q->radius() < mac * distance(b->coordinates(), q->coordinates());
          b->setGPotential(b->getGPotential() + q->mass());
        }
        for(body * p : ps) b->setGPotential(b->getGPotential() + p->mass());
      }
    },
    [&](const node * q, std::vector<body *> & ss) {
      for(body * b : ss) b->setGPotential(b->getGPotential() + q->pc());
    });
  v_check(far, "approximated only where the criterion allows");
  v_check(self, "no particle attracts itself through a node");
  for(int i = 0; i < n; ++i)
    v_check_eq(t.entities()[i].getGPotential(), (double)((1 << nall) - 1), "every particle acts once on every particle");
}
static void dist_main(int r, void *) {
  tree_t t;
  t.entities().assign(them + first[r], them + first[r + 1]);
  for(auto & b : t.entities()) b.set_owner(r);
  t.build_tree(exact_moments);
  node * root = t.root_node();
  v_check_eq(root->mass(), (double)((1 << nall) - 1), "the root sums up the particles of all ranks");
  if(what == 0) check_sph(t, r, "every particle is visited once, on its rank", "every interacting pair is found");
  if(what == 1) check_fmm(t, r, v_pick("mac", 0, 2) / 2.);
  if(what == 2) { // ghosts are kept from one traversal to the next
    check_sph(t, r, "every particle is visited once, on its rank", "every interacting pair is found");
    check_sph(t, r, "every particle is visited once, on its rank", "every interacting pair is found again");
    t.reset_ghosts(exact_moments);
    check_sph(t, r, "every particle is visited once, on its rank", "every interacting pair is found after a rebuild");
  }
  v_reach("rank");
}
ENTRY(dist) {
  int c[NB], ranks = v_pick("ranks", 2, 11), n = v_pick("bodies", ranks, NB);
  if(n < ranks) return;
  what = v_pick("traversal", 0, 2);
  weight = v_pick("weight", 0, 2) * 49 + 1;
  axis = v_pick("axis", 0, D - 1);
  cells(n, c);
  nall = n;
  for(int i = 0; i < n; ++i) {
    them[i] = make(i, c[i]);
    them[i].set_mass(1 << i);
    point_t p = {};
    p[axis] = v_real("x");
    if(i) v_assume(p[axis] > them[i - 1].coordinates()[axis]);
#ifdef GROWING // gaps grow along the axis
    if(i > 1) v_assume(p[axis] - them[i - 1].coordinates()[axis] > them[i - 1].coordinates()[axis] - them[i - 2].coordinates()[axis]);
#endif
    them[i].set_coordinates(p);
    v_assume(them[i].radius() <= 1e6);
  }
  first[0] = 0;
  first[ranks] = n;
#ifdef EVEN
  for(int r = 1; r < ranks; ++r) first[r] = r * n / ranks;
#else
  for(int r = 1; r < ranks; ++r) first[r] = v_pick("first", first[r - 1] + 1, n - (ranks - r));
#endif
  v_ranks(ranks, dist_main, v_shared(8));
  v_reach("end");
}
