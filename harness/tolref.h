// reference for the comparison of two contents with a tolerance
#ifndef TOLREF_H
#define TOLREF_H
#include "tfx.h"
#include <cerrno>
namespace vf {
// clear numbers only: [+-]digits[.digits][e[+-]digits], surrounded by blanks
inline bool numberText(const str &s, bool integer) {
  size_t i = 0, n = s.size(); while (i < n && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t')) ++i;
  if (i < n && (s[i] == '-' || s[i] == '+')) ++i;
  size_t d = 0; while (i < n && isdigit((unsigned char)s[i])) ++i, ++d;
  if (!integer) { if (i < n && s[i] == '.') { ++i; while (i < n && isdigit((unsigned char)s[i])) ++i, ++d; } }
  if (!d) return false;
  if (!integer && i < n && (s[i] == 'e' || s[i] == 'E')) { size_t j = i + 1; if (j < n && (s[j] == '-' || s[j] == '+')) ++j; size_t e = 0; while (j < n && isdigit((unsigned char)s[j])) ++j, ++e; if (!e) return false; i = j; }
  while (i < n && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t')) ++i;
  return i == n;
}
enum Verdict { NO = 0, YES = 1, OPEN = 2 };
inline Verdict accepts(Meas::Kind k, const str &a, const str &b, bool tolerant, double tol) {
  if (!tolerant || tol == 0) return a == b ? YES : NO;
  if (k == Meas::BOOL) {
    bool na = a == "0" || a == "1", nb = b == "0" || b == "1";
    return (na && nb) ? (a == b ? YES : NO) : a == b ? YES : NO;
  }
  bool integer = k == Meas::INT;
  if (!numberText(a, integer) || !numberText(b, integer)) return a == b ? YES : NO;
  if (integer) {
    errno = 0; __int128 u = strtol(a.c_str(), 0, 10), v = strtol(b.c_str(), 0, 10); if (errno) return a == b ? YES : OPEN;
    __int128 D = u > v ? u - v : v - u; __float128 d = D;
    __float128 mu = u < 0 ? -u : u, mv = v < 0 ? -v : v, B = (mu > mv ? mu : mv) * (__float128)std::fabs(tol);
    if (D == 0) return YES;
    __float128 m = (__float128)1e-12L; if (d <= B * (1 - m)) return YES; if (d > B * (1 + m)) return NO; return OPEN;
  }
  bool fl = k == Meas::FLOAT; __float128 u, v, eps, mx, m;
  errno = 0;
  if (fl) { float x = strtof(a.c_str(), 0), y = strtof(b.c_str(), 0); if (std::isinf(x) || std::isinf(y)) return a == b ? YES : OPEN; u = x; v = y; eps = FLT_EPSILON; mx = FLT_MAX; m = (__float128)1e-6L; if ((errno == ERANGE)) { /* denormals and underflow */ if (x == 0 || y == 0 || std::fabs(x) < FLT_MIN || std::fabs(y) < FLT_MIN) { /* keep */ } } }
  else { double x = strtod(a.c_str(), 0), y = strtod(b.c_str(), 0); if (std::isinf(x) || std::isinf(y)) return a == b ? YES : OPEN; u = x; v = y; eps = DBL_EPSILON; mx = DBL_MAX; m = (__float128)1e-14L; }
  __float128 mu = u < 0 ? -u : u, mv = v < 0 ? -v : v, D = u > v ? u - v : v - u;
  if (mu < eps && mv < eps) return YES;
  if (D == 0) return YES;
  if (D > mx) return OPEN;           // the difference is not a number of the type
  __float128 B = (mu > mv ? mu : mv) * (__float128)std::fabs(tol);
  if (B < (__float128)1e-290L && B > 0 && D < (__float128)1e-290L) return OPEN;
  if (D <= B * (1 - m)) return YES;
  if (D > B * (1 + m)) return NO;
  return OPEN;
}
inline testutil::NumericData *newNumeric(Meas::Kind k) {
  switch (k) { case Meas::INT: return new testutil::IntegerNumeric; case Meas::FLOAT: return new testutil::FloatNumeric; case Meas::DOUBLE: return new testutil::DoubleNumeric; default: return new testutil::BooleanNumeric; }
}
}
#endif
