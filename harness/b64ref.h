#ifndef B64REF_H
#define B64REF_H
#include "common.h"
namespace vf {
static const char *const B64A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
inline str refEncode(const str &s, bool lines) {
  str o; unsigned long acc = 0; int bits = 0;
  for (unsigned char ch : s) { acc = (acc << 8 | ch) & 0xffffff; bits += 8; while (bits >= 6) { bits -= 6; o += B64A[acc >> bits & 63]; } }
  if (bits) o += B64A[(acc << (6 - bits)) & 63];
  while (o.size() % 4) o += '=';
  if (lines) { str p; for (size_t i = 0; i < o.size(); i += 72) { if (i) p += '\n'; p += o.substr(i, 72); } return p; }
  return o;
}
// valid: the bytes.  What follows a padded group is not read
inline bool refDecode(const str &s, bool ignore, str &out) {
  out.clear(); unsigned v[4]; int n = 0, pad = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if (ch == ' ' || (ch >= 9 && ch <= 13)) continue;
    if (ch == '=') { if (n < 2) return false; ++pad; }
    else { const char *p = ch ? strchr(B64A, ch) : 0; if (!p) { if (ignore) continue; return false; } if (pad) return false; v[n++] = (unsigned)(p - B64A); }
    if (n + pad == 4) {
      out += (char)(v[0] << 2 | v[1] >> 4); if (pad < 2) out += (char)(v[1] << 4 | v[2] >> 2); if (pad < 1) out += (char)(v[2] << 6 | v[3]);
      if (pad) return true; n = 0;
    }
  }
  return n + pad == 0;
}
inline str bytes(Rng &r, size_t n) { str s; int m = (int)r.below(5); for (size_t i = 0; i < n; ++i) s += m == 0 ? (char)r.next() : m == 1 ? '\0' : m == 2 ? '\xff' : m == 3 ? (char)(0x80 | r.next()) : (char)i; return s; }
// exactly sized, on the heap
struct Exact { unsigned char *p; size_t n; explicit Exact(size_t k, int fill = 0xA5) : p((unsigned char *)malloc(k ? k : 1)), n(k) { if (!k) { free(p); p = (unsigned char *)malloc(1) + 1; } if (k) memset(p, fill, k); } explicit Exact(const str &s) : Exact(s.size()) { if (n) memcpy(p, s.data(), n); } ~Exact() { free(n ? p : p - 1); } };
}
#endif
