// C30: separate objects can be used from different threads at the same time
#include "tfx.h"
#include "b64ref.h"
#include "diffref.h"
#include "TestingFramework/tfBase64.h"
#include "TestingFramework/tfDiff.h"
#include <thread>
#include <atomic>
#include <cerrno>
#include <sched.h>
using namespace vf; using namespace testutil;
static void nap(Rng &r) { switch (r.below(8)) { case 0: sched_yield(); break; case 1: usleep(r.below(60)); break; default: break; } }
// every task gives a text that depends on its seed alone; the file names are its own
static str task(uint64_t seed, const str &dir, bool delays) {
  Rng r(seed), d(seed ^ 0xabcdef); std::ostringstream o; int kind = (int)r.below(8); str id = std::to_string(seed);
  auto w = [&] { if (delays) nap(d); };
  switch (kind) {
    case 0: { for (int i = 0; i < 4; ++i) { Base64 e; e.SetAddNewLines(r.chance(50)); str b = bytes(r, r.below(200)), x = e.Encode(b.data(), b.size()); w(); std::vector<char> q(e.IsBase64(x) + 1); w(); size_t n = e.Decode(x, q.data()); o << x << n << (str(q.data(), n) == b) << "\n"; try { e.Decode(x + "*", q.data()); } catch (std::exception &z) { o << z.what(); } } break; }
    case 1: { str a, b; for (int i = 0; i < 12; ++i) { a += (char)('a' + r.below(3)); a += '\n'; b += (char)('a' + r.below(3)); b += '\n'; } Diff(a, b, o); w(); std::ostringstream p; Diff(b, a, p); o << p.str(); break; }
    case 2: { for (int i = 0; i < 5; ++i) { std::unique_ptr<DataMeasurement> m(CreateDataMeasurement(r.pick(std::vector<str>{"text/plain", "text/string", "numeric/integer", "numeric/double", "numeric/boolean", "numeric/float"}))); m->SetAttributeName(printable(r, 10)); w(); if (r.chance(50)) m->SetAttributeEncoding("base64"); str b = bytes(r, r.below(90)); m->SetContentAsData(b.data(), b.size()); w(); o << m->GetContentAsDataSize() << (b == str((const char *)m->GetContentAsData(), m->GetContentAsDataSize())); if (m->GetAttributeEncoding() == "base64") o << *m; std::unique_ptr<DataMeasurement> n(CreateDataMeasurement(m->GetAttributeType())); n->SetAttributeName(m->GetAttributeName()); n->SetContent(m->GetContent()); w(); o << (*m == *n); } break; }
    case 3: { DoubleNumeric a, b; for (int i = 0; i < 6; ++i) { a.SetValue(anydouble(r)); b.SetValue(a.GetValue() * (1 + 1e-9)); w(); o << a << b << a.IsEqualTolerant(b, 1e-8); FloatNumeric f; f.SetValue(anyfloat(r)); IntegerNumeric g; g.SetValue(anylong(r)); BooleanNumeric h; h.SetValue(r.chance(50)); o << f << g << h << g.GetValue() << h.GetValue(); } break; }
    case 4: { str f = dir + "/f" + id; fileutil::PathName p(f); for (int i = 0; i < 4; ++i) { o << p.Exists() << p.IsFile() << p.IsDirectory() << p.IsReadable() << p.Extension() << p.Tail().GetPathName().size(); w(); fileutil::PathName q(dir); q.Append(p.Tail()); o << (q.GetPathName() == f) << fileutil::PathName("f" + id).SearchPathList(fileutil::GetPathListFromColonSeparatedList("x:" + dir + ":y")).GetPathName().size() << fileutil::PathName(dir + "/list").SearchDirectory().size(); writefile(f, "x"); w(); o << p.IsFile(); unlink(f.c_str()); } break; }
    case 5: { MeasurementFile a, b; str f = dir + "/m" + id; writefile(f, content(r, 300)); writefile(f + "b", r.chance(50) ? readfile(f) : content(r, 300)); a.SetAttributeType("text/plain"); b.SetAttributeType("text/plain"); a.SetAttributeName("n"); b.SetAttributeName("n"); a.SetFileName(f); b.SetFileName(f + "b"); w(); o << (a == b) << (b == a) << (a == a); unlink(f.c_str()); w(); unlink((f + "b").c_str()); break; }
    default: { // comparing runs, with their own files
      std::vector<Meas> ms = anySet(r, 6), base = ms; for (auto &m : base) { if (r.chance(20)) m.name += "x"; if (r.chance(20)) m.text += "y\nz"; if (r.chance(20)) m.l ^= 1; } std::vector<Entry> es; for (auto &m : base) es.push_back(entryOf(m)); str bl = dir + "/b" + id, out = dir + "/o" + id, doc = plainXml(es); if (r.chance(10)) doc.resize(r.below(doc.size())); writefile(bl, doc);
      T t; t.SetRelativeTolerance(1e-6); int ex = r.chance(15); t.body = [&](T &x, int, char **) { for (auto &m : ms) { w(); x.make(m); } if (ex) throw std::runtime_error("in a thread"); return 0; };
      int ret = runMain(t, {"p", "-P", dir, "-I", bl, "-O", out}); o << ret << "|"; for (int x : t.results) o << x; o << "|" << readfile(out); unlink(bl.c_str()); unlink(out.c_str()); }
  }
  return o.str();
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  if (!freopen("/dev/null", "w", stderr)) {} // what the runs say, in any order
  mkdir("list", 0755); for (int i = 0; i < 20; ++i) writefile("list/" + std::to_string(i), "");
  std::set<str> interleavings;
  cases([&](Rng &r, long k) {
    int nt = r.range(2, 8), per = r.range(2, 6); std::vector<std::vector<uint64_t> > seeds(nt); std::vector<std::vector<str> > got(nt), want(nt);
    uint64_t base = r.next() | 1; bool same = r.chance(30);
    for (int i = 0; i < nt; ++i) for (int j = 0; j < per; ++j) { uint64_t s = base + (same ? 0 : i * 1000) + j; if (same) s = base + j; seeds[i].push_back(s); }
    // in threads, each with a directory of its own
    std::atomic<int> ready(0), order(0); std::vector<std::vector<int> > ord(nt);
    for (int i = 0; i < nt; ++i) { mkdir(("t" + std::to_string(i)).c_str(), 0755); for (auto d : {"/list"}) { str l = "t" + std::to_string(i) + d; mkdir(l.c_str(), 0755); for (int q = 0; q < 5; ++q) writefile(l + "/" + std::to_string(q), ""); } }
    std::vector<std::thread> th;
    for (int i = 0; i < nt; ++i) th.push_back(std::thread([&, i] { str dir = "t" + std::to_string(i); ++ready; while (ready < nt) sched_yield(); for (uint64_t s : seeds[i]) { ord[i].push_back(order.fetch_add(1, std::memory_order_relaxed)); got[i].push_back(task(s, dir, true)); } }));
    for (auto &x : th) x.join();
    for (int i = 0; i < nt; ++i) for (uint64_t s : seeds[i]) want[i].push_back(task(s, "t" + std::to_string(i), false));
    str il; std::vector<int> who(nt * per); for (int i = 0; i < nt; ++i) for (int o : ord[i]) who[o] = i; for (int x : who) il += (char)('0' + x); interleavings.insert(il); c.nontrivial(il + std::to_string(base));
    for (int i = 0; i < nt; ++i) for (int j = 0; j < per; ++j) { if (got[i][j] != want[i][j]) VIOL("result", "task " << seeds[i][j] << " gave " << jsonq(cut(got[i][j], 500)) << " among threads and " << jsonq(cut(want[i][j], 500)) << " alone"); c.count("tasks"); }
    c.count("threads", nt); if (k < 3 * c.shards) c.sample(std::to_string(nt) + " threads, order of the starts " + il);
    for (int i = 0; i < nt; ++i) rmtree(c.scratch + "/t" + std::to_string(i));
  });
  c.count("distinct_orders_of_starts", interleavings.size());
  c.finish(); return 0;
}
