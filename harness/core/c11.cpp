// C11: base64 validation and decoding agree, are exact, and reject bad input
#include "b64ref.h"
#include "TestingFramework/tfBase64.h"
using namespace vf;
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  testutil::Base64 reused;
  cases([&](Rng &r, long k) {
    str s; int style = (int)r.below(8);
    auto any = [&] { return (char)r.next(); };
    auto al = [&] { return B64A[r.below(64)]; };
    if (k < 256 * 4) { char ch = (char)(k / 4); s = str("QUJDRA=="); s.insert((size_t)r.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8}), 1, ch); }
    else if (style == 0) { int n = (int)r.below(12); for (int i = 0; i < n; ++i) s += any(); }
    else if (style == 1) { int n = (int)r.below(14); for (int i = 0; i < n; ++i) s += r.chance(25) ? '=' : r.chance(10) ? ' ' : al(); }
    else if (style == 2) { int n = (int)r.below(10); for (int i = 0; i < n; ++i) s += r.pick(std::vector<char>{'A', '/', '=', '\n'}); }
    else {
      s = refEncode(bytes(r, r.below(4000) == 0 ? r.below(c.thorough ? 2000000 : 250000) : r.chance(5) ? r.below(5000) : r.below(90)), r.chance(50));
      if (style <= 6) { int e = r.range(0, 3); for (int i = 0; i < e; ++i) { size_t p = r.chance(50) && s.size() > 5 ? s.size() - r.below(5) : r.below(s.size() + 1); switch (r.below(7)) { case 0: s.insert(p, 1, any()); break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: s.insert(p, 1, r.pick(std::vector<char>{' ', '\t', '\n', '\v', '\f', '\r'})); break; case 3: s.insert(p, 1, '='); break; case 4: if (p < s.size()) s[p] = any(); break; case 5: s.resize(p); break; default: s += refEncode(bytes(r, r.below(6)), false); } } }
    }
    bool ignore = r.chance(35); testutil::Base64 fresh; testutil::Base64 &d = r.chance(50) ? reused : fresh;
    switch (r.below(2)) { case 0: d.SetIgnoreInvalids(ignore); break; default: if (ignore) d.IgnoreInvalidsOn(); else d.IgnoreInvalidsOff(); }
    if (d.GetIgnoreInvalids() != ignore) VIOL("getIgnore", "ignoring is " << d.GetIgnoreInvalids());
    str want; bool ok = refDecode(s, ignore, want); size_t na = 0; for (char ch : s) if (ch && strchr(B64A, ch)) ++na;
    if (!ok) want.clear();
    auto what = [&] { return jsonq(cut(s, 300)) + (ignore ? " ignoring others" : "") + ", valid: " + (ok ? "yes, " + std::to_string(want.size()) + " bytes" : "no"); };
    size_t n = 0; try { n = d.IsBase64(s); } catch (...) { VIOL("isBase64Throws", what()); }
    if (n != want.size()) VIOL(ok ? "count" : "accepted", "IsBase64 is " << n << " for " << what());
    Exact o(ok ? want.size() : na * 3 / 4); size_t m = 0; bool threw = false;
    try { m = d.Decode(s, o.p); } catch (std::exception &) { threw = true; } catch (...) { threw = true; }
    if (threw == ok) VIOL(ok ? "decodeThrows" : "decodeAccepts", what());
    else if (ok && (m != want.size() || (m && memcmp(o.p, want.data(), m)))) VIOL("decoded", "decoded " << m << " bytes: " << what());
    c.count(ok ? "valid" : "invalid"); if (ignore) c.count("ignoring"); c.nontrivial(s + (ignore ? "I" : "S")); if (k < 3 * c.shards) c.sample(what());
    if (k % 64 == 0) leakcheck("leak", what(), [&] { testutil::Base64 q; q.IsBase64(s); try { Exact z(na); q.Decode(s, z.p); } catch (...) {} });
  });
  c.finish(); return 0;
}
