CURVE = '''
#include <iostream>
#include <cassert>
#include <cmath>
#include <array>
#include <cstdlib>
#include <limits>
#include <algorithm>
#include "filling_curve.h"
using namespace flecsi;
template<size_t D> using M = morton_curve_u<D, uint64_t>;
template<size_t D> using H = hilbert_curve_u<D, uint64_t>;
template<size_t D> using P = space_vector_u<double, D>;
#define CHECK(c) do { if(!(c)) { std::cerr << "failed: " #c "\\n"; return 1; } } while(0)
'''
FC = "include/tree_topology/filling_curve.h"
BUGS = [
 dict(name="k01-truncated-coordinates", property="K01",
  edits=[(FC, "      coords[j] <<= max_depth_ - d;\n      p[j] = min + scale * static_cast<double>(coords[j]) / m;",
              "      coords[j] <<= (max_depth_ - d) & ~size_t(1);\n      p[j] = min + scale * static_cast<double>(coords[j]) / m;")],
  needs="decoding a Morton key truncated to a depth of the other parity than the deepest level",
  breaks="coordinates() of such a branch key returns a position outside the branch",
  demo=CURVE + '''
int main() {
  std::array<P<3>, 2> r{P<3>(0.), P<3>(1.)};
  for(int d = 1; d <= 21; ++d) {
    P<3> p(0.7, 0.3, 0.9), q;
    M<3> k(r, p, d);
    k.coordinates(r, q);
    auto b = k.range(r);
    for(int i = 0; i < 3; ++i) CHECK(q[i] >= b[0][i] - 1e-6 && q[i] <= b[1][i] + 1e-6);
  }
  return 0;
}'''),
 dict(name="k02-domain-end", property="K02",
  edits=[(FC, '''      coords[i] = std::min(max_val,
        static_cast<int_t>((p[i] - min) / scale * (int_t(1) << (max_depth_))));''',
   '''      coords[i] = std::min(max_val + int_t(dimension == 3),
        static_cast<int_t>((p[i] - min) / scale * (int_t(1) << (max_depth_))));''')],
  needs="a 3D position on the upper face of the domain",
  breaks="the Hilbert key of a particle on the upper face of the domain wraps around to another cell",
  demo=CURVE + '''
int main() {
  std::array<P<3>, 2> r{P<3>(0.), P<3>(1.)};
  double e[3] = {1., 0.25, 0.75};
  for(int f = 0; f < 3; ++f) {
    P<3> p, q;
    for(int i = 0; i < 3; ++i) p[i] = i == f ? 1. : e[i] == 1. ? 0.5 : e[i];
    H<3> k(r, p);
    k.coordinates(r, q);
    for(int i = 0; i < 3; ++i) CHECK(std::fabs(q[i] - p[i]) < 1e-5);
  }
  return 0;
}'''),
 dict(name="k03-pop-many", property="K03",
  edits=[(FC, "    value_ >>= d * dimension;\n  }\n\n  //! Return the parent",
              "    value_ >>= (d * dimension) & 31;\n  }\n\n  //! Return the parent")],
  needs="popping so many digits at once that more than 31 bits go",
  breaks="popping many digits from a deep key leaves a key at the wrong depth",
  demo=CURVE + '''
int main() {
  std::array<P<3>, 2> r{P<3>(0.), P<3>(1.)};
  M<3> k(r, P<3>(0.3, 0.6, 0.9));
  for(size_t d = 1; d <= 20; ++d) {
    M<3> a = k, b = k;
    a.pop(d);
    for(size_t i = 0; i < d; ++i) b.pop();
    CHECK(a.value() == b.value());
  }
  return 0;
}'''),
 dict(name="t01-sym4-order", property="T01",
  edits=[("include/tensor.h", "                 : ((k >= i) && (k >= j) && (k >= l))\n", "                 : ((k >= i) && (k >= j) && (k > l))\n")],
  needs="a rank-4 symmetric tensor addressed with the two largest indices in the last two places and equal",
  breaks="", demo=''), # replaced below
 dict(name="t02-cross-normal", property="T02",
  edits=[("include/space_vector.h", "  tmp[1] = a[2] * b[0] - a[0] * b[2];\n  tmp[2] = a[0] * b[1] - a[1] * b[0];\n  return tmp;",
          "  tmp[1] = a[0] * b[2] - a[2] * b[0];\n  tmp[2] = a[0] * b[1] - a[1] * b[0];\n  return tmp;")],
  needs="the 3D normal of two vectors with a non-zero second component of their cross product",
  breaks="normal() of two 3D vectors is not perpendicular to them",
  demo='''#include "space_vector.h"
#include <cmath>
#include <limits>
using namespace flecsi;
int main() {
  space_vector_u<double, 3> a(1., 2., 3.), b(-2., .5, 4.);
  auto n = normal(a, b);
  return std::fabs(dot(n, a)) < 1e-12 && std::fabs(dot(n, b)) < 1e-12 ? 0 : 1;
}'''),
 dict(name="g01-box-box-2d", property="G01",
  edits=[("include/tree_topology/tree_geometry.h", '''    return !((max_b1[0] < min_b2[0] || max_b1[1] < min_b2[1]) ||
             (max_b2[0] < min_b1[0] || max_b2[1] < min_b1[1]));''',
   '''    return !((max_b1[0] < min_b2[0] || max_b1[1] < min_b2[1]) ||
             (max_b2[0] < min_b1[0] || max_b2[1] < max_b1[1]));''')],
  needs="two overlapping 2D boxes, the second ending below the upper edge of the first",
  breaks="overlapping boxes are reported disjoint",
  demo='''#include <limits>
#include "tree_geometry.h"
using namespace flecsi;
using namespace flecsi::topology;
int main() {
  using G = tree_geometry<double, 2>;
  using P = space_vector_u<double, 2>;
  return G::intersects_box_box(P(0., 0.), P(1., 1.), P(.25, .25), P(.75, .75)) &&
         G::intersects_box_box(P(.25, .25), P(.75, .75), P(0., 0.), P(1., 1.)) ? 0 : 1;
}'''),
 dict(name="w02-wendland-c6-coefficient", property="W02", stubs=True,
  flags="-DEXT_GDIMENSION=2",
  edits=[("include/physics/kernels.h", '''  double sigma = wendland_c6_sigma[1] / hd1;
  double dWdr = -22. * rh * rh4 * rh3 * (1 + rh * (7 + rh * 16));''',
  '''  double sigma = wendland_c6_sigma[1] / hd1;
  double dWdr = -22. * rh * rh4 * rh3 * (1 + rh * (7 + rh * 15));''')],
  needs="the Wendland C6 kernel in 2D",
  breaks="the gradient is not the derivative of the kernel",
  demo='''#include "user.h"
#include "params.h"
#include "kernels.h"
#include <cmath>
int main() {
  for(double r = .1; r < .95; r += .1) {
    double e = 1e-5, w = (kernels::kernel<param::wendland_c6, 2>(r + e, 1.) - kernels::kernel<param::wendland_c6, 2>(r - e, 1.)) / (2 * e);
    point_t p(0.);
    p[0] = r;
    if(std::fabs(w - kernels::kernel_gradient<param::wendland_c6, 2>(p, 1.)[0]) > 1e-6) return 1;
  }
  return 0;
}'''),
 dict(name="w01-selector-c4", property="W01", stubs=True, flags="-DEXT_GDIMENSION=3",
  edits=[("include/physics/kernels.h", "      sph_kernel_gradient = kernel_gradient<wendland_c4, gdimension>;",
          "      sph_kernel_gradient = kernel_gradient<wendland_c6, gdimension>;")],
  needs="selecting the Wendland C4 kernel",
  breaks="the installed gradient belongs to another kernel than the installed kernel",
  demo='''#include "user.h"
#include "params.h"
#include "kernels.h"
#include <cmath>
int main() {
  param::_sph_kernel = param::wendland_c4;
  kernels::select();
  double e = 1e-5, r = .4;
  double w = (kernels::sph_kernel_function(r + e, 1.) - kernels::sph_kernel_function(r - e, 1.)) / (2 * e);
  point_t p(0.);
  p[0] = r;
  return std::fabs(w - kernels::sph_kernel_gradient(p, 1.)[0]) > 1e-6;
}'''),
]
for b in BUGS:
    if b["name"] == "t01-sym4-order":
        b["edits"] = [("include/tensor.h", "          0, 1, 3, 6, 1, 2, 4, 7, 3, 4, 5, 8, 6, 7, 8, 9};\n\n        return data_[remap[ind]];",
                       "          0, 1, 3, 6, 1, 2, 4, 7, 3, 4, 5, 8, 6, 8, 8, 9};\n\n        return data_[remap[ind]];")]
        b["name"] = "t01-named-ty"
        b["needs"] = "the named element ty of a symmetric 4x4 tensor"
        b["breaks"] = "ty is stored in another place than yt and overwrites tz"
        b["demo"] = '''#include "tensor.h"
using namespace flecsi;
using namespace tensor_indices;
int main() {
  tensor_u<double, symmetry_type::symmetric, 4, 4> t(0.);
  t[tz] = 3.;
  t[ty] = 5.;
  return t(1, 3) == 5. && t(3, 1) == 5. && t(2, 3) == 3. ? 0 : 1;
}'''
