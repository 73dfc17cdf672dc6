// Geometric predicates used to prune and accept nodes (tree_geometry.h).
#include "verif.h"
#include <cassert>
#include <limits>
#include <algorithm>
#include "tree_topology/tree_geometry.h"
using namespace flecsi;
typedef topology::tree_geometry<double, ND> G;
typedef space_vector_u<double, ND> V;
static V vec(const char * s) {
  V v;
  for(int d = 0; d < ND; ++d) v[d] = v_real(s);
  return v;
}
static double pos(const char * s) { double r = v_real(s); v_assume(r >= 0.); return r; }
static void boxv(const char * a, const char * b, V & lo, V & hi) {
  lo = vec(a);
  hi = vec(b);
  for(int d = 0; d < ND; ++d) v_assume(lo[d] <= hi[d]);
}
static double d2(const V & a, const V & b) {
  double s = 0;
  for(int d = 0; d < ND; ++d) s += (a[d] - b[d]) * (a[d] - b[d]);
  return s;
}
static const double TOL = 1e-12;
static bool inbox(const V & lo, const V & hi, const V & x) {
  bool r = true;
  for(int d = 0; d < ND; ++d) r &= lo[d] <= x[d] & x[d] <= hi[d];
  return r;
}

ENTRY(box_box) {
  V a, b, c, d;
  boxv("a", "b", a, b);
  boxv("c", "d", c, d);
  V x = vec("x");
  bool r = G::intersects_box_box(a, b, c, d);
  v_check(!(inbox(a, b, x) & inbox(c, d, x)) || r, "boxes sharing a point intersect");
  bool over = true;
  for(int i = 0; i < ND; ++i) over &= (a[i] > c[i] ? a[i] : c[i]) <= (b[i] < d[i] ? b[i] : d[i]);
  v_check(!r || over, "intersecting boxes overlap in every axis");
  v_check(r == G::intersects_box_box(c, d, a, b), "box intersection is symmetric");
  v_reach("end");
}
ENTRY(sphere_sphere) {
  V a = vec("a"), b = vec("b");
  double r = pos("r"), s = pos("s");
  bool t = G::intersects_sphere_sphere(a, r, b, s);
  double q = d2(a, b);
  v_check(t || q > (r + s) * (r + s), "spheres closer than the sum of radii intersect");
  double e = r + s + TOL;
  v_check(!t || q <= e * e, "intersecting spheres are closer than the sum of radii");
  v_check(t == G::intersects_sphere_sphere(b, s, a, r), "sphere intersection is symmetric");
  v_reach("end");
}
ENTRY(sphere_box_sound) {
  V lo, hi;
  boxv("lo", "hi", lo, hi);
  V c = vec("c"), x = vec("x");
  double r = pos("r");
  bool t = G::intersects_sphere_box(lo, hi, c, r);
  v_assume(inbox(lo, hi, x));
  v_assume(!t);
  // the rejected box holds no point of the sphere; axis by axis the clamped
  // centre is at least as close as x
  v_check(d2(x, c) > r * r, "a rejected box holds no point of the sphere");
  v_reach("end");
}
ENTRY(sphere_box_tight) {
  V lo, hi, c;
  boxv("lo", "hi", lo, hi);
  double r = pos("r"), q = 0;
  for(int d = 0; d < ND; ++d) { // centre below, inside or above the box, per axis
    int reg = v_pick("region", 0, 2);
    double t = pos("t");
    if(reg == 0) c[d] = lo[d] - t;
    else if(reg == 2) c[d] = hi[d] + t;
    else {
      c[d] = lo[d] + t;
      v_assume(c[d] <= hi[d]);
      t = 0;
    }
    q += t * t;
  }
  bool t = G::intersects_sphere_box(lo, hi, c, r);
  double e = r + TOL;
  if(t) v_check((q <= r * r) | (q <= e * e), "an accepted box comes within the radius");
  else v_check(q > r * r, "a box within the radius is accepted");
  v_reach("end");
}
ENTRY(within) {
  V a = vec("a"), b = vec("b");
  double r = pos("r"), s = pos("s");
  double q = d2(a, b), e = r + TOL;
  v_check_eq(G::distance2(a, b), q, "distance2");
  v_check_eq(G::distance2(b, a), q, "distance2 is symmetric");
  v_check(G::within_distance2(a, b, r) == (q <= r * r), "within_distance2 is exact");
  bool w = G::within(a, b, r, s);
  v_check(w || q > r * r, "within accepts every point of the sphere");
  v_check(!w || q <= e * e, "within accepts only points of the sphere");
  double m = r > s ? r : s;
  bool ws = G::within_square(a, b, r, s);
  v_check(ws == (q <= m * m), "within_square compares with the larger radius");
  v_check(ws == G::within_square(b, a, s, r), "within_square is symmetric");
  v_reach("end");
}
ENTRY(within_box) {
  V lo, hi;
  boxv("lo", "hi", lo, hi);
  V x = vec("x");
  bool w = G::within_box(lo, hi, x, 0.);
  bool inside = true;
  for(int d = 0; d < ND; ++d) inside &= lo[d] < x[d] & x[d] <= hi[d];
  v_check(!inside || w, "within_box accepts the half-open box");
  v_check(!w || inbox(lo, hi, x), "within_box accepts only points of the box");
  v_reach("end");
}
ENTRY(mac) {
  V a = vec("a"), b = vec("b");
  double ra = pos("ra"), rb = pos("rb"), th = pos("theta");
  bool m = G::mac(a, ra, b, rb, th);
  double q = d2(a, b);
  v_check(m == ((ra + rb) * (ra + rb) < th * th * q), "accepted exactly when (r1+r2)/d < theta");
  v_check(m == G::mac(b, rb, a, ra, th), "acceptance is symmetric in source and sink");
  v_check(!m || q > 0., "coincident centres are never accepted");
  v_check(!m || th > 0., "angle zero accepts nothing");
  double th2 = pos("theta2");
  v_assume(th2 >= th);
  v_check(!m || G::mac(a, ra, b, rb, th2), "a larger angle accepts more");
  v_reach("end");
}
ENTRY(box_mac) {
  V lo, hi;
  boxv("lo", "hi", lo, hi);
  V a = vec("a"), b = vec("b");
  double th = pos("theta");
  double q = d2(a, b), l = d2(lo, hi), e = th + TOL;
  v_assume(q > 0.);
  bool m = G::box_MAC(a, b, lo, hi, th);
  v_check(!m || l <= e * e * q, "accepted boxes subtend less than the angle");
  v_check(m || l >= th * th * q, "boxes that subtend less than the angle are accepted");
  v_reach("end");
}
