// C13: two measurements are equal exactly if name, type and data are equal
#include "tfx.h"
#include "b64ref.h"
using namespace vf;
static const std::vector<str> TY = {"text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean"};
struct O { std::unique_ptr<testutil::Measurement> m; str name, type, data, how; bool readable; };
static str space(Rng &r, const str &s) { str o; for (char ch : s) { if (r.chance(4)) o += r.pick(std::vector<char>{' ', '\n', '\t', '\r'}); o += ch; } return o; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3; mkdir("adir", 0755);
  cases([&](Rng &r, long k) {
    std::vector<str> names = {anyname(r, 8), printable(r, 8)}, datas; names.push_back(names[0] + " ");
    str d = r.chance(10) ? bytes(r, r.below(c.thorough ? 300000 : 9000)) : r.chance(50) ? content(r, 40) : bytes(r, r.below(30)); datas.push_back(d);
    if (!d.empty()) { str x = d; x[r.below(x.size())] ^= 1 << r.below(8); datas.push_back(x); datas.push_back(d.substr(0, d.size() - 1)); }
    datas.push_back(d + str(1, r.chance(50) ? '\0' : '\n')); if (r.chance(30)) datas.push_back(""); if (r.chance(30)) datas.push_back(refEncode(d, r.chance(30)));
    { str x; for (char ch : d) { if (ch == '\n') x += '\r'; x += ch; } if (x != d) datas.push_back(x); x = d; for (char &ch : x) ch = (char)(isalpha((unsigned char)ch) ? ch ^ 32 : ch); if (x != d) datas.push_back(x); if (r.chance(20)) { datas.push_back(" " + d); datas.push_back("0" + d); datas.push_back(d + ".0"); } }
    if (r.chance(30)) { size_t z = d.find('\0'); if (z != str::npos && z + 1 < d.size()) { str x = d; x[x.size() - 1] ^= 1; datas.push_back(x); } }
    int n = r.range(3, 8); std::vector<O> os;
    bool onetype = r.chance(70); str ty0 = r.pick(TY);
    for (int i = 0; i < n; ++i) {
      O o; o.name = r.chance(75) ? names[0] : r.pick(names); o.type = onetype || r.chance(70) ? ty0 : r.pick(TY); o.data = r.chance(55) ? datas[0] : r.pick(datas); o.readable = true;
      int how = (int)r.below(8);
      if (how < 3) { std::unique_ptr<testutil::DataMeasurement> q(testutil::CreateDataMeasurement(o.type)); o.how = "plain"; if (how == 2) { Exact e(o.data); q->SetContentAsData(e.p, e.n); } else q->SetContent(o.data); o.m = std::move(q); }
      else if (how < 5) { std::unique_ptr<testutil::DataMeasurement> q(testutil::CreateDataMeasurement(o.type)); o.how = "base64"; q->SetAttributeEncoding("base64"); if (how == 4 || o.data.empty()) { Exact e(o.data); q->SetContentAsData(e.p, e.n); } else q->SetContent(space(r, refEncode(o.data, r.chance(50)))); o.m = std::move(q); }
      else { std::unique_ptr<testutil::MeasurementFile> q(new testutil::MeasurementFile); o.how = "file"; str f = "f" + std::to_string(i); if (how == 7 && r.chance(40)) { o.readable = false; o.how = "missing file"; f = r.chance(30) ? "missing" : r.chance(50) ? "missing/f" : "adir"; } else writefile(f, o.data); q->SetAttributeType(o.type); q->SetFileName(f); o.m = std::move(q); }
      o.m->SetAttributeName(o.name); os.push_back(std::move(o));
    }
    Capture ce(std::cerr);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      O &a = os[i], &b = os[j]; bool want = a.readable && b.readable && a.name == b.name && a.type == b.type && a.data == b.data;
      str ca = a.m->GetContent(), cb = b.m->GetContent();
      bool got = r.chance(50) ? *a.m == *b.m : a.m->IsEqual(*b.m), got2 = *a.m == *b.m, back = *b.m == *a.m;
      auto what = [&] { return a.how + " " + jsonq(a.name) + " " + a.type + " " + jsonq(cut(a.data, 150)) + " and " + b.how + " " + jsonq(b.name) + " " + b.type + " " + jsonq(cut(b.data, 150)); };
      if (got != want) VIOL(want ? "unequal" : "equal", what() << " compare as " << (got ? "equal" : "unequal"));
      if (back != got) VIOL("symmetry", what() << ": " << got << " and back " << back);
      if (got2 != got) VIOL("again", what() << ": " << got << " then " << got2);
      if (a.m->GetContent() != ca || b.m->GetContent() != cb || a.m->GetAttributeName() != a.name || b.m->GetAttributeName() != b.name) VIOL("changed", what());
      c.count(want ? "equal." + a.how + "." + b.how : "unequal"); c.nontrivial(what()); if (k < 2 * c.shards && i == 0) c.sample(what() + (want ? ": equal" : ": unequal"));
    }
    int fd0 = openfds(); *os[0].m == *os[n - 1].m; if (openfds() != fd0) VIOL("openFiles", "a comparison leaves files open");
    if (k % 8 == 0) leakcheck("leak", os[0].how + "/" + os[n - 1].how, [&] { for (auto &x : os) { *os[0].m == *x.m; *x.m == *os[n - 1].m; } ce.b.str(""); });
  });
  c.finish(); return 0;
}
