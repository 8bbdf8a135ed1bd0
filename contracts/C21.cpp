// Contracts: spatial transforms (scipp/core/spatial_transforms.h) as combined by the element operations.
#include "verif.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/geometric_operations.h"
#include "scipp/core/eigen.h"
#include "scipp/core/spatial_transforms.h"
using namespace scipp;
using namespace scipp::core;
namespace el = scipp::core::element;
using V3 = Eigen::Vector3d;
struct KQ { using T = Quaternion; static T get(const double *p) { return Quaternion(Eigen::Quaterniond(p[3], p[0], p[1], p[2])); } };
struct KT { using T = Translation; static T get(const double *p) { return Translation(V3(p[0], p[1], p[2])); } };
struct KM { using T = Eigen::Matrix3d; static T get(const double *p) { T m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = p[3 * i + j]; return m; } };
struct KA { using T = Eigen::Affine3d; static T get(const double *p) { T a = T::Identity(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) a.matrix()(i, j) = p[4 * i + j]; return a; } };
static void put(const V3 &v, double *o) { o[0] = v[0]; o[1] = v[1]; o[2] = v[2]; }
template <class X> V3 app(const X &t, const V3 &v) {
  if constexpr (std::is_same_v<X, Eigen::Affine3d> || std::is_same_v<X, Translation>) return el::apply_spatial_transformation(t, v);
  else return el::multiply(t, v);
}
#define APPLY(K) ENTRY void apply_##K(const double *p, const double *v, double *o) { put(app(K::get(p), V3(v[0], v[1], v[2])), o); }
APPLY(KQ) APPLY(KT) APPLY(KM) APPLY(KA)
#define PAIR(K, L) ENTRY void mul_##K##_##L(const double *p, const double *q, const double *v, double *o) { put(app(el::multiply(K::get(p), L::get(q)), V3(v[0], v[1], v[2])), o); }
#define PAIRS(K) PAIR(K, KQ) PAIR(K, KT) PAIR(K, KM) PAIR(K, KA)
PAIRS(KQ) PAIRS(KT) PAIRS(KM) PAIRS(KA)
#define ASP(K, L) ENTRY void asp_##K##_##L(const double *p, const double *q, const double *v, double *o) { put(app(el::apply_spatial_transformation(K::get(p), L::get(q)), V3(v[0], v[1], v[2])), o); }
ASP(KT, KT) ASP(KT, KA) ASP(KA, KA) ASP(KA, KT)
// lib/variable/inv.cpp applies .inverse() to these types
#define INV(K) ENTRY void inv_##K(const double *p, const double *v, double *o) { auto t = K::get(p); put(app(typename K::T(t.inverse()), app(t, V3(v[0], v[1], v[2]))), o); } \
  ENTRY void invl_##K(const double *p, const double *v, double *o) { auto t = K::get(p); put(app(t, app(typename K::T(t.inverse()), V3(v[0], v[1], v[2]))), o); }
INV(KQ) INV(KT) INV(KM) INV(KA)
ENTRY void imul_KM_KM(const double *p, const double *q, const double *v, double *o) { auto a = KM::get(p); el::multiply_equals(a, KM::get(q)); put(app(a, V3(v[0], v[1], v[2])), o); }
// rotations need not be normalised: the product with the inverse is the identity rotation nevertheless
static void putq(const Quaternion &q, double *o) { o[0] = q.quat().x(); o[1] = q.quat().y(); o[2] = q.quat().z(); o[3] = q.quat().w(); }
ENTRY void qinv_r(const double *p, double *o) { auto q = KQ::get(p); putq(el::multiply(q, q.inverse()), o); }
ENTRY void qinv_l(const double *p, double *o) { auto q = KQ::get(p); putq(el::multiply(q.inverse(), q), o); }
ENTRY double qget(const double *p, int i) { auto q = KQ::get(p); return q(i); }
ENTRY double tget(const double *p, int i) { auto q = KT::get(p); return q(i); }
ENTRY bool qeq(const double *p, const double *q) { return KQ::get(p) == KQ::get(q); }
ENTRY bool qne(const double *p, const double *q) { return KQ::get(p) != KQ::get(q); }
ENTRY bool teq(const double *p, const double *q) { return KT::get(p) == KT::get(q); }
ENTRY bool tne(const double *p, const double *q) { return KT::get(p) != KT::get(q); }
ENTRY bool aeq(const double *p, const double *q) { return numeric::operator==(KA::get(p), KA::get(q)); }
ENTRY bool ane(const double *p, const double *q) { return numeric::operator!=(KA::get(p), KA::get(q)); }
ENTRY void qdefault(const double *v, double *o) { put(app(Quaternion(), V3(v[0], v[1], v[2])), o); }
ENTRY void tdefault(const double *v, double *o) { put(app(Translation(), V3(v[0], v[1], v[2])), o); }
ENTRY double vdot(const double *a, const double *b) { return el::dot(V3(a[0], a[1], a[2]), V3(b[0], b[1], b[2])); }
ENTRY void vcross(const double *a, const double *b, double *o) { put(el::cross(V3(a[0], a[1], a[2]), V3(b[0], b[1], b[2])), o); }
ENTRY double vnorm2(const double *a) { double n = el::norm(V3(a[0], a[1], a[2])); return n * n; }
ENTRY void vadd(const double *a, const double *b, double *o) { put(el::add(V3(a[0], a[1], a[2]), V3(b[0], b[1], b[2])), o); }
ENTRY void vsub(const double *a, const double *b, double *o) { put(el::subtract(V3(a[0], a[1], a[2]), V3(b[0], b[1], b[2])), o); }
ENTRY void vneg(const double *a, double *o) { put(el::negative(V3(a[0], a[1], a[2])), o); }
ENTRY void vscale_l(double s, const double *a, double *o) { put(el::multiply(s, V3(a[0], a[1], a[2])), o); }
ENTRY void vscale_r(double s, const double *a, double *o) { put(el::multiply(V3(a[0], a[1], a[2]), s), o); }
ENTRY void vscale_i(int64_t s, const double *a, double *o) { put(el::multiply(s, V3(a[0], a[1], a[2])), o); }
ENTRY void vdiv(double s, const double *a, double *o) { put(el::divide(V3(a[0], a[1], a[2]), s), o); }
ENTRY void position(double x, double y, double z, double *o) { put(el::geometry::position(x, y, z), o); }
ENTRY void components(const double *a, double *o) { V3 v(a[0], a[1], a[2]); o[0] = el::geometry::x(v); o[1] = el::geometry::y(v); o[2] = el::geometry::z(v); }
