// Tensors and vectors (include/tensor.h, include/space_vector.h).
#include "verif.h"
#include <cassert>
#include <cmath>
#include <cstddef>
#include <vector>
#include "space_vector.h"
using namespace flecsi;
typedef space_vector_u<double, ND> V;
#define SYM symmetry_type::symmetric
#define GEN symmetry_type::generic
static const int IS = (int)sizeof(int);
static int ix(const char * s) { // symbolic index in [0,ND)
  int v = v_u8(s) & 3;
  v_assume(v < ND);
  return v;
}
static int pk(const char * s) { return (int)v_pick(s, 0, ND - 1); }
static int bin(int n, int k) { // n choose k
  int r = 1;
  for(int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
static int ipow(int b, int e) { int r = 1; while(e--) r *= b; return r; }

// ------------------------------------------------------------ flat indices
// symbolic multi-indices: in range, symmetric exactly when declared so,
// distinct components never share storage
ENTRY(index2) {
  int i = ix("i"), j = ix("j"), k = ix("k"), l = ix("l");
  typedef tensor_u<double, SYM, ND, ND> S;
  typedef tensor_u<double, GEN, ND, ND> G;
  v_check((int)S::size() == bin(ND + 1, 2) && (int)G::size() == ND * ND, "storage size");
  int s1 = S::multiindex(i, j), s2 = S::multiindex(k, l);
  int g1 = G::multiindex(i, j), g2 = G::multiindex(k, l);
  v_check(s1 >= 0 && s1 < (int)S::size() && g1 >= 0 && g1 < (int)G::size(), "flat index in range");
  v_check((g1 == g2) == (i == k && j == l), "generic indexing is one-to-one");
  v_check((s1 == s2) == ((i == k && j == l) || (i == l && j == k)),
    "symmetric indexing identifies exactly the permutations");
  v_reach("end");
}
static bool perm3(int a, int b, int c, int x, int y, int z) {
  return (a == x && b == y && c == z) | (a == x && b == z && c == y) | (a == y && b == x && c == z) |
         (a == y && b == z && c == x) | (a == z && b == x && c == y) | (a == z && b == y && c == x);
}
ENTRY(index3) {
  int i = ix("i"), j = ix("j"), k = ix("k"), a = ix("a"), b = ix("b"), c = ix("c");
  typedef tensor_u<double, SYM, ND, ND, ND> S;
  typedef tensor_u<double, GEN, ND, ND, ND> G;
  v_check((int)S::size() == bin(ND + 2, 3) && (int)G::size() == ND * ND * ND, "storage size");
  int s1 = S::multiindex(i, j, k), s2 = S::multiindex(a, b, c);
  int g1 = G::multiindex(i, j, k), g2 = G::multiindex(a, b, c);
  v_check(s1 >= 0 && s1 < (int)S::size() && g1 >= 0 && g1 < (int)G::size(), "flat index in range");
  v_check((g1 == g2) == (i == a && j == b && k == c), "generic indexing is one-to-one");
  v_check((s1 == s2) == perm3(i, j, k, a, b, c),
    "symmetric indexing identifies exactly the permutations");
  v_reach("end");
}
ENTRY(index4) {
  int i = ix("i"), j = ix("j"), k = ix("k"), l = ix("l");
  int a = ix("a"), b = ix("b"), c = ix("c"), d = ix("d");
  typedef tensor_u<double, SYM, ND, ND, ND, ND> S;
  typedef tensor_u<double, GEN, ND, ND, ND, ND> G;
  v_check((int)S::size() == bin(ND + 3, 4) && (int)G::size() == ipow(ND, 4), "storage size");
  int s1 = S::multiindex(i, j, k, l), s2 = S::multiindex(a, b, c, d);
  int g1 = G::multiindex(i, j, k, l), g2 = G::multiindex(a, b, c, d);
  v_check(s1 >= 0 && s1 < (int)S::size() && g1 >= 0 && g1 < (int)G::size(), "flat index in range");
  v_check((g1 == g2) == (i == a && j == b && k == c && l == d), "generic indexing is one-to-one");
  // count occurrences of every axis: equal multisets
  bool same = true;
  for(int q = 0; q < ND; ++q)
    same &= (i == q) + (j == q) + (k == q) + (l == q) == (a == q) + (b == q) + (c == q) + (d == q);
  v_check((s1 == s2) == same, "symmetric indexing identifies exactly the permutations");
  v_reach("end");
}
// mixed dimensions
ENTRY(index_mixed) {
  typedef tensor_u<double, GEN, 2, 3> A;
  typedef tensor_u<double, GEN, 3, 2, 4> B;
  int i = v_u8("i") & 1, j = v_u8("j") & 3, k = v_u8("k") & 1, l = v_u8("l") & 3;
  v_assume(j < 3 && l < 3);
  v_check((int)A::size() == 6 && (int)B::size() == 24, "storage size");
  v_check((A::multiindex(i, j) == A::multiindex(k, l)) == (i == k && j == l), "one-to-one");
  v_check(A::multiindex(i, j) >= 0 && A::multiindex(i, j) < 6, "flat index in range");
  int m = v_u8("m") & 3, n = v_u8("n") & 3;
  int x = B::multiindex(j, i, m), y = B::multiindex(l, k, n);
  v_check((x == y) == (j == l && i == k && m == n), "one-to-one");
  v_check(x >= 0 && x < 24, "flat index in range");
  v_reach("end");
}
// ------------------------------------ named components against (i,j,..) access
template<symmetry_type ST> static void named() {
  using namespace tensor_indices;
  int i = pk("i"), j = pk("j"), k = pk("k"), l = pk("l");
  double x = v_real("x");
  {
    V v(0.);
    v[(rank1_index)i] = x;
    v_check_eq(v(i), x, "named rank-1 component");
    v_check_eq(v[(size_t)i], x, "named rank-1 component");
  }
  {
    tensor_u<double, ST, ND, ND> t(0.);
    t[(rank2_index)(4 * i + j)] = x;
    v_check_eq(t(i, j), x, "named rank-2 component is the (i,j) component");
    if(ST == SYM) v_check_eq(t(j, i), x, "symmetric component");
  }
  {
    tensor_u<double, ST, ND, ND, ND> t(0.);
    t[(rank3_index)(16 * i + 4 * j + k)] = x;
    v_check_eq(t(i, j, k), x, "named rank-3 component is the (i,j,k) component");
    if(ST == SYM) {
      v_check_eq(t(k, j, i), x, "symmetric component");
      v_check_eq(t(j, i, k), x, "symmetric component");
    }
  }
  {
    tensor_u<double, ST, ND, ND, ND, ND> t(0.);
    t[(rank4_index)(64 * i + 16 * j + 4 * k + l)] = x;
    v_check_eq(t(i, j, k, l), x, "named rank-4 component is the (i,j,k,l) component");
    const tensor_u<double, ST, ND, ND, ND, ND> & ct = t;
    v_check_eq(ct(i, j, k, l), x, "const access agrees");
    if(ST == SYM) {
      v_check_eq(t(l, k, j, i), x, "symmetric component");
      v_check_eq(t(j, i, k, l), x, "symmetric component");
      v_check_eq(t(i, j, l, k), x, "symmetric component");
    }
  }
  v_reach("end");
}
ENTRY(named_gen) { named<GEN>(); }
ENTRY(named_sym) { named<SYM>(); }

// ------------------------------------------------------------------ algebra
static V vec(const char * s) {
  V v;
  for(int d = 0; d < ND; ++d) v[d] = v_real(s);
  return v;
}
template<class X> static X any(const char * s) {
  X t;
  for(size_t d = 0; d < (size_t)X::size(); ++d) t[d] = v_real(s);
  return t;
}
template<class X> static void arith() {
  X a = any<X>("a"), b = any<X>("b");
  const X a0(a), b0(b);
  double c = v_real("c"), e = v_real("e");
  v_assume(e != 0.);
  X s = a + b, d = a - b, m = a * c, m2 = c * a, q = a / e;
  X u(a), v(a), w(a), x(a), y(a), z(a), ss(a), dd(a), f(c);
  u += b; v -= b; w *= c; x /= e; y += c; z -= c; ss += ss; dd -= dd;
  X cp;
  cp = a;
  X self(a);
  self = self;
  X g(a);
  g = c;
  for(size_t i = 0; i < (size_t)X::size(); ++i) {
    v_check_eq(s[i], a0[i] + b0[i], "sum");
    v_check_eq(d[i], a0[i] - b0[i], "difference");
    v_check_eq(m[i], a0[i] * c, "scalar product");
    v_check_eq(m2[i], a0[i] * c, "scalar product from the left");
    v_check_eq(q[i], a0[i] / e, "scalar division");
    v_check_eq(u[i], a0[i] + b0[i], "+= tensor");
    v_check_eq(v[i], a0[i] - b0[i], "-= tensor");
    v_check_eq(w[i], a0[i] * c, "*= scalar");
    v_check_eq(x[i], a0[i] / e, "/= scalar");
    v_check_eq(y[i], a0[i] + c, "+= scalar");
    v_check_eq(z[i], a0[i] - c, "-= scalar");
    v_check_eq(ss[i], a0[i] + a0[i], "t += t doubles");
    v_check_eq(dd[i], 0., "t -= t vanishes");
    v_check_eq(f[i], c, "fill constructor");
    v_check_eq(cp[i], a0[i], "assignment");
    v_check_eq(self[i], a0[i], "self assignment");
    v_check_eq(g[i], c, "scalar assignment");
    v_check_eq(a[i], a0[i], "operands unchanged");
    v_check_eq(b[i], b0[i], "operands unchanged");
  }
  bool same = true;
  for(size_t i = 0; i < (size_t)X::size(); ++i) same &= a[i] == b[i];
  v_check((a == b) == same, "== compares every component");
  v_check((a != b) == !same, "!= is the negation of ==");
  v_reach("end");
}
ENTRY(arith_vec) { arith<V>(); }
ENTRY(arith_sym2) { arith<tensor_u<double, SYM, ND, ND>>(); }

ENTRY(vec_products) {
  V a = vec("a"), b = vec("b"), c = vec("c");
  double s = v_real("s");
  double ref = 0., aa = 0.;
  for(int d = 0; d < ND; ++d) { ref += a[d] * b[d]; aa += a[d] * a[d]; }
  v_check_eq(dot(a, b), ref, "dot is the sum of products");
  v_check_eq(dot(a, b), dot(b, a), "dot is symmetric");
  v_check_eq(dot(V(a + s * b), c), dot(a, c) + s * dot(b, c), "dot is bilinear");
  double ma = magnitude(a);
  v_check(ma >= 0., "magnitude is not negative");
  v_check_eq(ma * ma, aa, "magnitude squared is a.a");
  double dab = distance(a, b);
  v_check(dab >= 0., "distance is not negative");
  v_check_eq(dab * dab, dot(V(a - b), V(a - b)), "distance squared is |a-b|^2");
  v_check_eq(dab, distance(b, a), "distance is symmetric");
  v_check_eq(distance(a, a), 0., "distance to itself is zero");
  V m = midpoint(a, b);
  for(int d = 0; d < ND; ++d) v_check_eq(2 * m[d], a[d] + b[d], "midpoint");
  std::vector<V> pts;
  pts.push_back(a);
  pts.push_back(b);
  pts.push_back(c);
  V g = centroid(pts);
  for(int d = 0; d < ND; ++d) v_check_eq(3 * g[d], a[d] + b[d] + c[d], "centroid");
  v_reach("end");
}
#if ND == 2 || ND == 3
ENTRY(cross_products) {
  V a = vec("a"), b = vec("b");
  V x = cross(a, b), y = cross(b, a);
  double cm = cross_magnitude(a, b);
  v_check(cm >= 0., "cross magnitude is not negative");
  for(int d = 0; d < ND; ++d) v_check_eq(x[d], -y[d], "cross is antisymmetric");
  v_check_eq(dot(x, a), 0., "cross is orthogonal to the first factor");
  v_check_eq(dot(x, b), 0., "cross is orthogonal to the second factor");
  v_check_eq(cm * cm + dot(a, b) * dot(a, b), dot(a, a) * dot(b, b), "Lagrange identity");
#if ND == 3
  v_check_eq(x[2], a[0] * b[1] - a[1] * b[0], "right-handed orientation");
  V n = normal(a, b);
  for(int d = 0; d < 3; ++d) v_check_eq(n[d], x[d], "normal is the cross product");
#endif
#if ND == 2
  V n = normal(a, b);
  v_check_eq(dot(n, V(b - a)), 0., "normal is perpendicular to b-a");
  v_check_eq(dot(n, n), dot(V(b - a), V(b - a)), "normal has the length of b-a");
  v_check_eq((b[0] - a[0]) * n[1] - (b[1] - a[1]) * n[0], dot(n, n), "normal is to the left");
#endif
  v_reach("end");
}
#endif
ENTRY(construct) {
  double x[ND];
  for(int d = 0; d < ND; ++d) x[d] = v_real("x");
#if ND == 1
  V v(x[0]);
  V w = {x[0]};
#elif ND == 2
  V v(x[0], x[1]);
  V w = {x[0], x[1]};
#elif ND == 3
  V v(x[0], x[1], x[2]);
  V w = {x[0], x[1], x[2]};
#else
  V v(x[0], x[1], x[2], x[3]);
  V w = {x[0], x[1], x[2], x[3]};
#endif
  for(int d = 0; d < ND; ++d) {
    v_check_eq(v[d], x[d], "component constructor");
    v_check_eq(w[d], x[d], "list constructor");
  }
  v_reach("end");
}
