// C10: base64 encoding is exact for every byte sequence
#include "b64ref.h"
#include "TestingFramework/tfBase64.h"
using namespace vf;
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  testutil::Base64 reused;
  cases([&](Rng &r, long k) {
    size_t n = k < 700 ? (size_t)k : r.chance(2) ? r.below(c.thorough ? 2000000 : r.chance(10) ? 300000 : 60000) : r.chance(50) ? r.below(20) : 54 * r.below(12) + r.below(5) + (r.chance(50) ? 0 : 52);
    str in = bytes(r, n); bool lines = r.chance(65), dflt = r.chance(30); if (dflt) lines = true;
    testutil::Base64 fresh; testutil::Base64 &e = r.chance(50) && !dflt ? reused : fresh;
    if (fresh.GetAddNewLines() != true || fresh.GetIgnoreInvalids() != false) VIOL("defaults", "lines " << fresh.GetAddNewLines() << " ignore " << fresh.GetIgnoreInvalids());
    if (!dflt) { switch (r.below(2)) { case 0: e.SetAddNewLines(lines); break; default: if (lines) e.NewLinesOn(); else e.NeLinesOff(); } if (e.GetAddNewLines() != lines) VIOL("getLines", "lines " << e.GetAddNewLines()); }
    Exact b(in); str got = e.Encode(b.p, n), want = refEncode(in, lines);
    auto what = [&] { return std::to_string(n) + " bytes, lines " + (lines ? "on" : "off") + ", got " + jsonq(cut(got, 300)) + " and not " + jsonq(cut(want, 300)); };
    if (got != want) VIOL("encode", what());
    if (n && memcmp(b.p, in.data(), n)) VIOL("input", "the input was changed");
    // and back, in a buffer of just that size
    Exact o(n); size_t dn = e.IsBase64(got); if (dn != n) VIOL("isBase64", "counted " << dn << " for " << what());
    else { size_t m = 0; try { m = e.Decode(got, o.p); } catch (std::exception &x) { VIOL("decodeThrows", x.what() << ": " << what()); m = n + 1; } if (m != n || (n && memcmp(o.p, in.data(), n))) VIOL("roundTrip", "decoded " << m << " bytes: " << what()); }
    str e2 = e.Encode(b.p, n); if (e2 != got) VIOL("again", "encoded again differs: " << what());
    c.count("bytes", n); c.count(lines ? "with_lines" : "without_lines"); c.nontrivial(in + (lines ? "L" : "N")); if (k < 3 * c.shards) c.sample(what());
    if (k % 32 == 0) leakcheck("leak", what(), [&] { testutil::Base64 q; str s = q.Encode(b.p, n); q.Decode(s, o.p); });
  });
  c.finish(); return 0;
}
