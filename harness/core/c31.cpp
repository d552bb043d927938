// C31: random programs over the whole public interface, for the sanitizers and memcheck
#include "tfx.h"
#include "TestingFramework/tfDiff.h"
#include "TestingFramework/tfBase64.h"
#ifdef VF_ALLOC // allocations fail, which ends an operation with std::bad_alloc
#include "allocfail.h"
#define VF_TRY try
#define VF_CATCH catch (const std::bad_alloc &) { }
#else
#define VF_TRY
#define VF_CATCH
#endif
using namespace vf;
using namespace testutil;
struct Cnt : MeasurementVisitor { str seen; using MeasurementVisitor::Visit; void Visit(Measurement &m) { seen += m.GetContent(); } };
static str program(uint64_t seed, int steps, const str &dir, bool report) {
  Rng r(seed); Ctx &c = Ctx::get(); str digest; uint64_t h = 7;
  auto eat = [&](const str &s) { h = vf::hash(s, h); };
  std::vector<std::unique_ptr<Measurement> > ms; std::vector<fileutil::PathName> pn; fileutil::PathList pl; std::vector<std::unique_ptr<T> > tests;
  static const std::vector<str> types = {"text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean"};
  auto someText = [&]() -> str { switch (r.below(4)) { case 0: return std::to_string(anylong(r)); case 1: return content(r, 80); case 2: { str s; int n = (int)r.below(9); for (int i = 0; i < n; ++i) s += str(1, "ab"[r.below(2)]) + "\n"; return s; } default: return r.chance(10) ? content(r, 5000) : printable(r, 30); } };
  for (int st = 0; st < steps; ++st) {
    int op = (int)r.below(17); if (report) c.count("op" + std::to_string(op));
    digest += (char)('a' + op);
    VF_TRY { switch (op) {
      case 0: { str t = r.pick(types); ms.push_back(std::unique_ptr<Measurement>(CreateDataMeasurement(t))); if (r.chance(80)) { ms.back()->SetAttributeName(printable(r, 12)); ms.back()->SetContent(someText()); } break; }
      case 1: { MeasurementFile *f = new MeasurementFile; ms.push_back(std::unique_ptr<Measurement>(f)); if (r.chance(80)) { f->SetAttributeType(r.pick(std::vector<str>{"text/plain", "image/png", "image/jpeg", "numeric/double"})); f->SetAttributeName(printable(r, 9)); f->SetFileName(r.chance(60) ? dir + "/f" + std::to_string(r.below(3)) : printable(r, 9)); } break; }
      case 2: if (!ms.empty()) { Measurement &m = *ms[r.below(ms.size())]; std::ostringstream os; os << m; eat(os.str()); } break;
      case 3: if (ms.size() > 1) { Measurement &a = *ms[r.below(ms.size())], &b = *ms[r.below(ms.size())]; if (a.GetElementTypeName() == b.GetElementTypeName() && a.GetAttributeType() == b.GetAttributeType()) { try { eat(std::to_string(a == b)); eat(std::to_string(a.IsEqual(b))); } catch (std::exception &e) { eat("x"); } } } break;
      case 4: if (ms.size() > 1) { CompareVisitor v; Measurement &a = *ms[r.below(ms.size())], &b = *ms[r.below(ms.size())]; v.SetBaselineMeasurement(&b); if (r.chance(60)) v.SetTolerance(r.unit()); try { a.AcceptVisitor(v); eat(std::to_string(v.GetResult())); } catch (std::exception &e) { eat("x"); } } break;
      case 5: if (ms.size() > 1) { size_t i = r.below(ms.size()), j = r.below(ms.size()); if (i != j) { DifferenceVisitor v; std::ostringstream os; v.SetBaselineMeasurement(ms[j].get()); v.SetOutStream(os); ms[i]->AcceptVisitor(v); eat(os.str()); } } break;
      case 6: if (!ms.empty()) { Cnt v; ms[r.below(ms.size())]->AcceptVisitor(v); eat(v.seen); } break;
      case 7: if (!ms.empty()) { DataMeasurement *d = dynamic_cast<DataMeasurement *>(ms[r.below(ms.size())].get()); if (!d) break; switch (r.below(4)) { case 0: d->SetAttributeEncoding(r.chance(50) ? "base64" : "none"); break; case 1: { str b = someText(); d->SetContentAsData(b.data(), b.size()); break; } default: try { size_t n = d->GetContentAsDataSize(); const void *p = d->GetContentAsData(); eat(str((const char *)p, n)); } catch (std::exception &) { eat("x"); } } } break;
      case 8: { str a = someText(), b = someText(); std::ostringstream os; Diff(a, b, os); eat(os.str()); break; }
      case 9: { str a = someText(); Base64 e; if (r.chance(40)) e.SetIgnoreInvalids(r.chance(50)); if (r.chance(40)) e.SetAddNewLines(r.chance(50)); str x = e.Encode((const unsigned char *)a.data(), a.size()); eat(x); if (r.chance(40) && !x.empty()) x[r.below(x.size())] = (char)r.below(256); size_t n = e.IsBase64(x); eat(std::to_string(n)); if (n) { std::vector<unsigned char> o(n); e.Decode(x, o.data()); eat(str((char *)o.data(), n)); } break; }
      case 10: { fileutil::PathName p; if (r.chance(80)) p = fileutil::PathName(r.chance(50) ? dir + "/" + printable(r, 6) : printable(r, 12)); pn.push_back(p); break; }
      case 11: if (!pn.empty()) { fileutil::PathName &a = pn[r.below(pn.size())], &b = pn[r.below(pn.size())]; switch (r.below(9)) { case 0: eat(a.DirectoryName().GetPathName()); break; case 1: eat(a.Tail().GetPathName()); break; case 2: { fileutil::PathName q(a); eat(q.Append(b).GetPathName()); break; } case 3: eat(std::to_string(a.Exists() * 4 + a.IsReadable() * 2 + a.IsWritable()) + std::to_string(a.IsExecutable())); break; case 4: eat(std::to_string(a.IsDirectory() * 2 + a.IsFile())); break; case 5: pl.push_back(a); break; case 6: eat(a.Extension() + a.GetNativePathName()); break; case 7: a = b; break; default: eat(std::to_string((int)a.GetPathType()) + (a.IsNativeFormat() ? "n" : "m")); } } break;
      case 12: { std::string f = "f" + std::to_string(r.below(5)); fileutil::PathList l = pl; l.push_back(fileutil::PathName(dir)); fileutil::PathName fp(f); eat(fp.SearchPathList(l).GetPathName()); eat(fileutil::GetCurrentDirectory().GetPathName()); fileutil::PathList q = fileutil::GetPathListFromColonSeparatedList(printable(r, 9) + ":" + dir + ":" + printable(r, 5)); eat(std::to_string(q.size())); if (r.chance(20)) { fileutil::PathList w = fileutil::PathName(dir).SearchDirectory(); eat(w.empty() ? "none" : "some"); } break; }
      case 13: if (ms.size() > 3) ms.erase(ms.begin() + r.below(ms.size())); break;
      case 14: { tests.push_back(std::unique_ptr<T>(new T)); if (tests.size() > 3) tests.erase(tests.begin()); break; }
      default: { // a run
          if (tests.empty()) tests.push_back(std::unique_ptr<T>(new T));
          T &t = *tests[r.below(tests.size())]; int n = (int)r.below(6); std::vector<Meas> v; for (int i = 0; i < n; ++i) { v.push_back(anyMeas(r, true)); if (v.back().isfile() && r.chance(70)) v.back().text = dir + "/f" + std::to_string(r.below(3)); }
          int thr = r.chance(20) ? (int)r.below(n + 1) : -1; const str bl = dir + "/base.xml", out = dir + "/out.xml";
          std::vector<str> args = {"p"}; if (r.chance(60)) { args.push_back("-O"); args.push_back(out); }
          if (r.chance(60)) { std::vector<Entry> es; for (auto &m : v) if (r.chance(85)) { es.push_back(entryOf(m)); if (r.chance(20)) es.back().content = someText(); if (r.chance(8)) es.back().type = r.pick(types); } str x = plainXml(es); if (r.chance(12)) x.resize(r.below(x.size())); writefile(bl, x); args.push_back("-I"); args.push_back(bl); if (r.chance(80)) { args.push_back("-P"); args.push_back(dir); } }
          else { t.SetInFileName(""); t.SetOutFileName(""); }
          if (r.chance(10)) args.push_back(r.pick(std::vector<str>{"-R", "-O", "-I", "-P", "x"}));
          if (r.chance(30)) t.SetRelativeTolerance(r.unit());
          t.body = [&](T &s, int, char **) { for (int i = 0; i < n; ++i) { if (thr == i) throw std::runtime_error("x"); s.make(v[i]); } if (thr == n) throw 5; return 0; };
          Capture co(std::cout), ce(std::cerr); int ret = runMain(t, args); eat(std::to_string(ret)); }
    } } VF_CATCH
  }
  eat(digest); char b[20]; snprintf(b, sizeof b, "%016lx", (unsigned long)h); return digest + " " + b;
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  for (int i = 0; i < 3; ++i) writefile(c.scratch + "/f" + std::to_string(i), i == 0 ? "3.5" : i == 1 ? "" : "line\nline <&>\n");
#ifdef VF_ALLOC
  cases([&](Rng &r, long k) {
    uint64_t s = r.next(); int steps = r.range(5, 60), pm = r.pick(std::vector<int>{1, 3, 10, 50, 300});
    auto once = [&]() -> long { long live = A.live; { Capture ce(std::cerr); A.n = A.hits = 0; A.x = s; A.permille = pm; A.armed = true; str d; try { d = program(s, steps, c.scratch, false); } catch (const std::bad_alloc &) { } A.armed = false; } return A.live - live; };
    once(); long hits = A.hits; c.count("allocations_failed", hits); if (!hits) return; c.nontrivial(s); c.count("programs_with_failures");
    if (c.thorough && once() > 0 && once() > 0 && once() > 0) VIOL("leakWithoutMemory", "every execution of program " << s << " of " << steps << " steps leaves memory behind, with " << pm << " of 1000 allocations failing");
  });
#else
  cases([&](Rng &r, long k) {
    uint64_t s = r.next(); int steps = r.range(10, 90); Capture ce(std::cerr);
    str a = program(s, steps, c.scratch, true); c.nontrivial(a); c.sample(a);
    if (k % 4 == 0) { // what is not a function of the program came from memory that was never set
      str b = program(s, steps, c.scratch, false); c.count("repeated"); if (a != b) VIOL("leftover", "two executions of the same program have different results: " << a << " and " << b); }
    if (k % 6 == 0) leakcheck("leak", "program " + std::to_string(s) + ": " + a, [&] { program(s, steps, c.scratch, false); ce.b.str(""); });
  });
#endif
  c.finish(); return 0;
}
