// Contracts: element buffers are values. x, y: contents given by the caller, n, m: their lengths.
#include <cstdint>
#include <stdexcept>
#include <vector>
#include "verif.h"
#include "scipp/core/element_array.h"
using namespace scipp::core;
namespace {
template <class T> void out(const element_array<T> &a, T *o) { for (const T *p = a.begin(); p != a.end(); ++p) *o++ = *p; }
template <class T> int64_t flags(const element_array<T> &a) { return (a ? 1 : 0) + (a.empty() ? 2 : 0) + (a.begin() == a.end() ? 4 : 0); }
template <class T> void info(const element_array<T> &a, int64_t *i) { i[0] = a.size(); i[1] = flags(a); }
// kind 0: holds x; 1: never given a size; 2: empty
template <class T> element_array<T> given(const T *x, int64_t n, int kind) { return kind == 1 ? element_array<T>() : kind == 2 ? element_array<T>(0) : element_array<T>(x, x + n); }
} // namespace
#define CUT int64_t cut, bool swp
#define SET verif_cut = cut; verif_swap = swp
#define ONE verif_cut = 0; verif_swap = false
#define BUF(S, T) \
  ENTRY void fill_##S(CUT, int64_t n, T v, T *o, int64_t *i) { SET; const element_array<T> a(n, v); info(a, i); out(a, o); } \
  ENTRY void zeros_##S(CUT, int64_t n, T *o, int64_t *i) { SET; const element_array<T> a(n); info(a, i); out(a, o); } \
  ENTRY void range_##S(CUT, int64_t n, const T *x, T *o, int64_t *i) { SET; const element_array<T> a(x, x + n); info(a, i); out(a, o); } \
  ENTRY void vec_##S(CUT, int64_t n, const T *x, T *o, int64_t *i) { SET; const std::vector<T> c(x, x + n); const element_array<T> a(c); info(a, i); out(a, o); } \
  ENTRY void list_##S(const T *x, T *o, int64_t *i) { ONE; const element_array<T> a{x[0], x[1], x[2]}; info(a, i); out(a, o); } \
  ENTRY void raw_##S(int64_t n, int64_t *i) { const element_array<T> a(n, init_for_overwrite); info(a, i); i[2] = a.end() - a.begin(); } \
  ENTRY void none_##S(int64_t *i) { const element_array<T> a; info(a, i); } \
  ENTRY void copy_##S(CUT, int64_t n, const T *x, int64_t k, T v, T *o, T *p, int64_t *i) { SET; element_array<T> a(x, x + n); element_array<T> b(a); b.data()[k] = v; info(a, i); info(b, i + 2); out(a, o); out(b, p); } \
  ENTRY void copyw_##S(int64_t n, const T *x, int64_t k, T v, T *o, T *p, int64_t *i) { ONE; element_array<T> a(x, x + n); element_array<T> b(a); a.begin()[k] = v; info(a, i); info(b, i + 2); out(a, o); out(b, p); } \
  ENTRY void assign_##S(int64_t n, const T *x, int64_t m, const T *y, int64_t k, T v, T *o, T *p, int64_t *i) { ONE; element_array<T> a(x, x + n), b(y, y + m); b = a; b.data()[k] = v; info(a, i); info(b, i + 2); out(a, o); out(b, p); } \
  ENTRY void copyn_##S(int kind, int64_t n, const T *x, T *o, T *p, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind); element_array<T> b(a); info(a, i); info(b, i + 2); out(a, o); out(b, p); } \
  ENTRY void assignn_##S(int kind, int kind2, int64_t n, const T *x, int64_t m, const T *y, T *o, T *p, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind), b = given<T>(y, m, kind2); b = a; info(a, i); info(b, i + 2); out(a, o); out(b, p); } \
  ENTRY void self_##S(int kind, int64_t n, const T *x, T *o, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind); const auto &b = a; a = b; info(a, i); out(a, o); } \
  ENTRY void move_##S(int kind, int64_t n, const T *x, T *o, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind); element_array<T> b(std::move(a)); info(a, i); info(b, i + 2); i[4] = a.data() == nullptr; out(b, o); } \
  ENTRY void moveto_##S(int kind, int kind2, int64_t n, const T *x, int64_t m, const T *y, T *o, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind), b = given<T>(y, m, kind2); b = std::move(a); info(a, i); info(b, i + 2); i[4] = a.data() == nullptr; out(b, o); } \
  ENTRY void reset_##S(int kind, int64_t n, const T *x, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind); a.reset(); info(a, i); } \
  ENTRY void resize_##S(int kind, int64_t n, const T *x, int64_t m, T *o, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind); a.resize(m); info(a, i); out(a, o); } \
  ENTRY void rawresize_##S(int kind, int64_t n, const T *x, int64_t m, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind); a.resize(m, init_for_overwrite); info(a, i); i[2] = a.end() - a.begin(); } \
  ENTRY void reuse_##S(int kind, int64_t n, const T *x, int64_t m, const T *y, T *o, int64_t *i) { ONE; element_array<T> a = given<T>(x, n, kind); a.resize(m, init_for_overwrite); for (int64_t k = 0; k < m; ++k) a.data()[k] = y[k]; info(a, i); out(a, o); }
BUF(l, int64_t) BUF(i, int32_t) BUF(d, double) BUF(b, uint8_t)
