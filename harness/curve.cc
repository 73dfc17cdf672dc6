// Space-filling-curve keys (include/tree_topology/filling_curve.h).
#include "verif.h"
#include <cassert>
#include "tree_topology/filling_curve.h"
using namespace flecsi;
typedef space_vector_u<double, ND> P;
typedef std::array<P, 2> R;
typedef morton_curve_u<ND, KT> M;
typedef hilbert_curve_u<ND, KT> H;

static const int MD = (sizeof(KT) * 8 - 1) / ND;
static const char * nm[3] = {"x", "y", "z"};
#ifndef W
#define W MD
#endif

static R unit() {
  R r;
  for(int i = 0; i < ND; ++i) { r[0][i] = 0.; r[1][i] = 1.; }
  return r;
}
// general bounding box whose edges are powers of two
static R box() {
  R r;
  for(int i = 0; i < ND; ++i) { r[0][i] = -1. + 3 * i; r[1][i] = r[0][i] + (i == 1 ? 8. : 4.); }
  return r;
}
// position of the centre-free lower corner of a cell plus a fraction of it, or
// the upper boundary of the box itself
static double pos(const R & r, int i) { return r[0][i] + (r[1][i] - r[0][i]) * v_fix(nm[i], MD, 1); }

// cell coordinate with a window of W consecutive levels symbolic; the others
// are all zeros, all ones or alternating
static KT wcell(int i, int lo) {
  KT c = 0;
  const KT m = (KT(1) << MD) - 1;
  if(W < MD) {
    KT outs[4] = {0, m, KT(0x5555555555555555ull) & m, KT(0x9249249249249249ull) & m};
    int o = v_pick("outside", 0, 3);
    c = outs[(o + (o == 3 ? i : 0)) & 3];
    KT win = (((KT(1) << W) - 1) << lo) & m;
    KT s = (KT)(sizeof(KT) == 2 ? v_u16(nm[i]) : sizeof(KT) == 4 ? v_u32(nm[i]) : v_u64(nm[i]));
    return (c & ~win) | (s & win);
  }
  KT s = (KT)(sizeof(KT) == 2 ? v_u16(nm[i]) : sizeof(KT) == 4 ? v_u32(nm[i]) : v_u64(nm[i]));
  return s & m;
}
static int wlow() { return W < MD ? (int)v_pick("low", 0, MD - W) : 0; }
static double cpos(const R & r, int i, KT c) {
  return r[0][i] + (r[1][i] - r[0][i]) * (double(c) / double(KT(1) << MD));
}

// ---------------------------------------------------------------- any curve
template<class K> static void in_range(const K & k) {
  v_check(k.value() >= K::min().value() && k.value() <= K::max().value(), "key within [min,max]");
  v_check(k.depth() == K::max_depth(), "key has maximum depth");
}
ENTRY(statics) {
  v_check(M::max_depth() == MD && H::max_depth() == MD, "max_depth");
  v_check(M::root().value() == 1 && H::root().value() == 1, "root is 1");
  v_check(M::null().is_null() && !M::root().is_null(), "null");
  v_check(M::min().value() == KT(KT(1) << (MD * ND)), "min value");
  v_check(M::max().value() == KT((KT(1) << (MD * ND)) - 1 + (KT(1) << (MD * ND))), "max value");
  v_check(M::min().depth() == MD && M::max().depth() == MD, "min/max depth");
  v_check(H::min().value() == M::min().value() && H::max().value() == M::max().value(), "same limits");
  M a;
  v_check(a.is_null(), "default key is null");
  v_reach("end");
}

// ------------------------------------------------------------------- Morton
ENTRY(morton_roundtrip) {
  R r = v_pick("box", 0, 1) ? box() : unit();
  P p, q;
  for(int i = 0; i < ND; ++i) p[i] = v_bool("edge") ? r[1][i] : pos(r, i);
  M k(r, p);
  in_range(k);
  k.coordinates(r, q);
  for(int i = 0; i < ND; ++i) {
    const double cell = (r[1][i] - r[0][i]) / ((uint64_t(1) << MD) - 1);
    v_check(p[i] - q[i] <= cell && q[i] - p[i] <= cell, "decoded within one cell");
    v_check(q[i] >= r[0][i] && q[i] <= r[1][i], "decoded inside the box");
  }
  v_reach("end");
}
// two points: key order refines the componentwise order; equal keys = equal cells
ENTRY(morton_order) {
  R r = unit();
  P p, q;
  KT cp[ND], cq[ND];
  bool le = true, same = true;
  for(int i = 0; i < ND; ++i) {
    cp[i] = v_u64("p") & ((KT(1) << MD) - 1);
    cq[i] = v_u64("q") & ((KT(1) << MD) - 1);
    p[i] = cpos(r, i, cp[i]);
    q[i] = cpos(r, i, cq[i]);
    le &= cp[i] <= cq[i];
    same &= cp[i] == cq[i];
  }
  M a(r, p), b(r, q);
  v_check(!le || a <= b, "componentwise order implies key order");
  v_check((a == b) == same, "equal keys exactly for equal cells");
  v_reach("end");
}
ENTRY(morton_depth) {
  R r = unit();
  P p;
  int d = v_pick("depth", 0, MD);
  for(int i = 0; i < ND; ++i) p[i] = pos(r, i);
  M k(r, p), t(r, p, d);
  v_check(t.depth() == d, "truncated key has the requested depth");
  k.truncate(d);
  v_check(k == t, "depth-d key is the truncation of the full key");
  v_reach("end");
}
// the box of every ancestor contains the point; one extra level halves it
ENTRY(morton_range) {
  R r = v_pick("box", 0, 1) ? box() : unit();
  P p;
  int d = v_pick("depth", 0, MD);
  for(int i = 0; i < ND; ++i) p[i] = pos(r, i);
  M k(r, p);
  k.truncate(d);
  R b = k.range(r);
  for(int i = 0; i < ND; ++i) {
    v_check(b[0][i] <= p[i] && p[i] <= b[1][i], "range of an ancestor key contains the point");
    double w = (r[1][i] - r[0][i]) / double(uint64_t(1) << d);
    v_check(b[1][i] - b[0][i] == w, "range has the width of its depth");
    v_check(b[0][i] >= r[0][i] && b[1][i] <= r[1][i], "range inside the box");
  }
  v_reach("end");
}
// decoding a branch key names its lower corner: same position as the key of
// the deepest cell at that corner (whose decoding morton_roundtrip decides)
ENTRY(morton_branch) {
  R r = unit();
  P p, c, q, e;
  int d = v_pick("depth", 0, MD);
  const KT low = (KT(1) << (MD - d)) - 1;
  for(int i = 0; i < ND; ++i) {
    KT u = v_u64("cell") & ((KT(1) << MD) - 1);
    p[i] = cpos(r, i, u);
    c[i] = cpos(r, i, u & ~low);
  }
  M k(r, p, d), m(r, c);
  k.coordinates(r, q);
  m.coordinates(r, e);
  for(int i = 0; i < ND; ++i)
    v_check(q[i] == e[i], "decoded branch key is the lower corner of its box");
  v_reach("end");
}
// children partition the parent's range
ENTRY(morton_children) {
  R r = unit();
  KT raw = v_u64("key");
  int d = v_pick("depth", 0, CHD);
  M k((raw & ((KT(1) << (d * ND)) - 1)) | (KT(1) << (d * ND)));
  R b = k.range(r);
  double vol = 0, pv = 1;
  for(int i = 0; i < ND; ++i) pv *= b[1][i] - b[0][i];
  for(int c = 0; c < (1 << ND); ++c) {
    M ch = k;
    ch.push(c);
    R s = ch.range(r);
    double v = 1;
    for(int i = 0; i < ND; ++i) {
      double mid = (b[0][i] + b[1][i]) / 2;
      bool up = (c >> i) & 1;
      v_check(s[0][i] == (up ? mid : b[0][i]) && s[1][i] == (up ? b[1][i] : mid),
        "child range is the half of the parent its digit names");
      v *= s[1][i] - s[0][i];
    }
    vol += v;
  }
  v_check(vol == pv, "children fill the parent");
  v_reach("end");
}
#ifdef IEEE
// IEEE arithmetic: no rounding takes a point of the box outside the key range
ENTRY(morton_ieee) {
  R r = unit();
  P p;
  for(int i = 0; i < ND; ++i) {
    p[i] = v_real(nm[i]);
    v_assume(p[i] >= r[0][i] && p[i] <= r[1][i]);
  }
  M k(r, p);
  v_check(k.value() >= M::min().value() && k.value() <= M::max().value(), "key within [min,max]");
  v_reach("end");
}
#endif

// ------------------------------------------------------------------ Hilbert
ENTRY(hilbert_roundtrip) {
  R r = ND == 2 ? box() : unit();
  P p, q;
  KT c[ND];
  int lo = wlow();
  for(int i = 0; i < ND; ++i) {
    c[i] = wcell(i, lo);
    p[i] = cpos(r, i, c[i]);
  }
  H k(r, p);
  v_check(k.value() >= H::min().value() && k.value() <= H::max().value(), "key within [min,max]");
  if(W < MD) k = H((KT)v_conc(k.value())); // decided by the branches taken so far
  k.coordinates(r, q);
  const double n = double(KT(1) << MD);
  for(int i = 0; i < ND; ++i)
    v_check((KT)((q[i] - r[0][i]) / (r[1][i] - r[0][i]) * n) == c[i],
      "decoded cell equals the encoded cell");
  v_reach("end");
}
// positions on the upper faces of the domain belong to the last cells
ENTRY(hilbert_ends) {
  R r = ND == 2 ? box() : unit();
  P p, q;
  KT c[ND];
  int lo = wlow(), faces = (int)v_pick("faces", 1, (1 << ND) - 1);
  for(int i = 0; i < ND; ++i) {
    if((faces >> i) & 1) {
      c[i] = (KT(1) << MD) - 1;
      p[i] = r[1][i];
    }
    else {
      c[i] = wcell(i, lo);
      p[i] = cpos(r, i, c[i]);
    }
  }
  H k(r, p);
  v_check(k.value() >= H::min().value() && k.value() <= H::max().value(), "key within [min,max]");
  if(W < MD) k = H((KT)v_conc(k.value())); // decided by the branches taken so far
  k.coordinates(r, q);
  const double n = double(KT(1) << MD);
  for(int i = 0; i < ND; ++i)
    v_check((KT)((q[i] - r[0][i]) / (r[1][i] - r[0][i]) * n) == c[i], "a position on the upper face belongs to the last cell");
  v_reach("end");
}
ENTRY(hilbert_depth) {
  R r = unit();
  P p;
  int d = v_pick("depth", 0, MD);
  int lo = wlow();
  for(int i = 0; i < ND; ++i) p[i] = cpos(r, i, wcell(i, lo));
  H k(r, p), t(r, p, d);
  k.truncate(d);
  v_check(k == t, "depth-d key is the truncation of the full key");
  v_check(t.depth() == d, "truncated key has the requested depth");
  v_reach("end");
}
// consecutive keys decode to face-adjacent cells
ENTRY(hilbert_adjacent) {
  R r = unit();
  P p, q;
  const int top = MD * ND;
  KT m = (KT(1) << top) - 1, raw = v_u64("key") & m;
#ifdef WK
  int lo = v_pick("low", 0, (top - WK) / ND) * ND;
  KT outs[4] = {0, m, KT(0x5555555555555555ull) & m, KT(0x9249249249249249ull) & m};
  int o = v_pick("outside", 0, 3);
  KT win = ((KT(1) << WK) - 1) << lo;
  // below the window the digits are all ones, so that +1 carries into it
  raw = (raw & win) | (outs[o] & ~win & ~((KT(1) << lo) - 1)) | ((KT(1) << lo) - 1);
#endif
  v_assume(raw != m);
  H a(raw | (KT(1) << top)), b(KT(raw + 1) | (KT(1) << top));
  a.coordinates(r, p);
  b.coordinates(r, q);
  const double n = double(KT(1) << MD);
  KT dist = 0;
  for(int i = 0; i < ND; ++i) {
    KT x = (KT)(p[i] * n), y = (KT)(q[i] * n);
    dist += x > y ? x - y : y - x;
  }
  v_check(dist == 1, "consecutive Hilbert keys are face-adjacent cells");
  v_reach("end");
}

// ----------------------------------------------------------- key arithmetic
static M anykey(const char * s, int & d) {
  d = v_pick(s, 0, MD);
  KT raw = v_u64("key");
  return M((raw & ((KT(1) << (d * ND)) - 1)) | (KT(1) << (d * ND)));
}
ENTRY(key_digits) {
  int d;
  M k = anykey("depth", d);
  v_check(k.depth() == d, "depth counts the digits below the root bit");
  v_check(!k.is_null(), "a key is not null");
  KT orig = k.value();
  if(d < MD) {
    KT digit = v_u64("digit") & ((KT(1) << ND) - 1);
    M c = k;
    c.push(digit);
    v_check(c.depth() == d + 1, "push adds one level");
    v_check((KT)c.last_value() == digit, "last_value is the pushed digit");
    v_check(c.value() != k.value(), "child differs from parent");
    v_check(c.parent().value() == k.value(), "parent of a pushed key is the key");
    M e = c;
    v_check((KT)e.pop_value() == digit && e == k, "pop_value undoes push");
    M f = c;
    f.pop();
    v_check(f == k, "pop undoes push");
  }
  int t = v_pick("to", 0, MD);
  M s = k;
  s.truncate(t);
  v_check(s.depth() == (t < d ? t : d), "truncate bounds the depth");
  if(t <= d) {
    M u = k;
    u.pop(size_t(d - t));
    v_check(u == s, "truncate(d-n) equals pop(n)");
    v_check(s.value() == KT(orig >> ((d - t) * ND)), "truncate keeps the leading digits");
  }
  v_reach("end");
}
ENTRY(key_conflict) {
  KT m = (KT(1) << (MD * ND)) - 1, top = KT(1) << (MD * ND);
  M a((v_u64("a") & m) | top), b((v_u64("b") & m) | top);
  M x;
  int c = x.conflict_depth(a, b);
  v_check(c >= 0 && c <= MD, "conflict depth in range");
  M sa = a, sb = b;
  sa.truncate(c);
  sb.truncate(c);
  v_check(sa == sb, "keys agree down to the conflict depth");
  if(c < MD) {
    M ta = a, tb = b;
    ta.truncate(c + 1);
    tb.truncate(c + 1);
    v_check(ta != tb, "keys differ one level below the conflict depth");
  }
  v_check(x.conflict_depth(b, a) == c, "conflict depth is symmetric");
  v_reach("end");
}
// the tree order is the order of the leaves: descendants of a smaller key stay smaller
ENTRY(key_order) {
  int d;
  M a = anykey("depth", d);
  KT raw = v_u64("other");
  M b((raw & ((KT(1) << (d * ND)) - 1)) | (KT(1) << (d * ND)));
  v_check((a < b) + (b < a) + (a == b) == 1, "trichotomy");
  v_check((a <= b) == !(b < a) && (a >= b) == !(a < b) && (a > b) == (b < a) && (a != b) == !(a == b),
    "operators agree");
  if(d < MD) {
    M ca = a, cb = b;
    ca.push(v_u64("da") & ((KT(1) << ND) - 1));
    cb.push(v_u64("db") & ((KT(1) << ND) - 1));
    v_check(!(a < b) || ca < cb, "children keep the order of their parents");
    v_check(ca.value() > a.value(), "a child key is larger than its parent");
  }
  v_reach("end");
}
