// C25: composite measurements record and compare every component
#include "itkx.h"
#include "tolref.h"
using namespace vf;
struct Comp { std::function<int(R &)> make; std::vector<Meas> parts; str show; };
static void part(Comp &c, const str &n, bool integer, long l, double d, int tol) { Meas m; m.kind = integer ? Meas::INT : Meas::DOUBLE; m.name = n; m.l = l; m.d = d; m.tol = tol < 0 ? (integer ? 0 : 1) : tol; c.parts.push_back(m); }
static str ix(const str &n, unsigned i) { return n + "_" + std::to_string(i); }
static double dbl(Rng &r) { return r.chance(70) ? anydouble(r) : (double)r.range(-1000, 1000); }
template <class T> static T val(Rng &r) { return (T)(std::numeric_limits<T>::is_integer ? (double)r.range(0, 120) : dbl(r)); }
template <> float val<float>(Rng &r) { return anyfloat(r); }
template <> int val<int>(Rng &r) { return (int)anylong(r); }
template <> short val<short>(Rng &r) { return (short)anylong(r); }
template <> unsigned char val<unsigned char>(Rng &r) { return (unsigned char)anylong(r); }
template <> double val<double>(Rng &r) { return dbl(r); }
template <unsigned D> static itk::Size<D> aSize(Rng &r) { itk::Size<D> s; for (unsigned i = 0; i < D; ++i) s[i] = r.chance(60) ? r.below(2000) : r.chance(50) ? 100000 + r.below(1L << (17 + r.below(40))) : (unsigned long)anylong(r) >> 1; return s; }
template <unsigned D> static itk::Index<D> aIndex(Rng &r) { itk::Index<D> s; for (unsigned i = 0; i < D; ++i) s[i] = r.chance(60) ? anylong(r) : (r.chance(50) ? -1 : 1) * (long)(100000 + r.below(1L << (17 + r.below(40)))); return s; }
template <unsigned D> static Comp dim(Rng &r, const str &n, int t, int what) {
  Comp c; c.show = "<" + std::to_string(D) + "> " + jsonq(n) + (t < 0 ? "" : t ? "~" : "=");
  switch (what) {
    case 0: { auto x = aSize<D>(r); for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), true, x[i], 0, t); c.make = [=](R &q) { return q.size(x, n, t); }; c.show = "Size" + c.show; break; }
    case 1: { auto x = aIndex<D>(r); for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), true, x[i], 0, t); c.make = [=](R &q) { return q.index(x, n, t); }; c.show = "Index" + c.show; break; }
    case 2: { auto x = aIndex<D>(r); auto s = aSize<D>(r); itk::ImageRegion<D> g(x, s); for (unsigned i = 0; i < D; ++i) part(c, ix(n + " Index", i), true, x[i], 0, t); for (unsigned i = 0; i < D; ++i) part(c, ix(n + " Size", i), true, s[i], 0, t); c.make = [=](R &q) { return q.region(g, n, t); }; c.show = "Region" + c.show; break; }
    case 3: { itk::Point<double, D> x; for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), false, 0, x[i] = val<double>(r), t); c.make = [=](R &q) { return q.point(x, n, t); }; c.show = "Point" + c.show; break; }
    case 4: { itk::Point<float, D> x; for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), false, 0, x[i] = val<float>(r), t); c.make = [=](R &q) { return q.point(x, n, t); }; c.show = "Point float" + c.show; break; }
    case 5: { itk::Vector<double, D> x; for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), false, 0, x[i] = val<double>(r), t); c.make = [=](R &q) { return q.vector(x, n, t); }; c.show = "Vector" + c.show; break; }
    case 6: { itk::Vector<int, D> x; for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), false, 0, x[i] = val<int>(r), t); c.make = [=](R &q) { return q.vector(x, n, t); }; c.show = "Vector int" + c.show; break; }
    case 7: { itk::Vector<float, D> x; for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), false, 0, x[i] = val<float>(r), t); c.make = [=](R &q) { return q.vector(x, n, t); }; c.show = "Vector float" + c.show; break; }
    case 8: { itk::FixedArray<double, D> x; for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), false, 0, x[i] = val<double>(r), t); c.make = [=](R &q) { return q.array(x, n, t); }; c.show = "FixedArray" + c.show; break; }
    case 9: { itk::FixedArray<unsigned char, D> x; for (unsigned i = 0; i < D; ++i) part(c, ix(n, i), false, 0, x[i] = val<unsigned char>(r), t); c.make = [=](R &q) { return q.array(x, n, t); }; c.show = "FixedArray uchar" + c.show; break; }
    case 10: { itk::FixedArray<short, D + 8> x; for (unsigned i = 0; i < D + 8; ++i) part(c, ix(n, i), false, 0, x[i] = val<short>(r), t); c.make = [=](R &q) { return q.array(x, n, t); }; c.show = "FixedArray short+8" + c.show; break; }
    case 11: { itk::Matrix<double, D, D> x; for (unsigned i = 0; i < D; ++i) for (unsigned j = 0; j < D; ++j) part(c, ix(ix(n, i), j), false, 0, x[i][j] = val<double>(r), t); c.make = [=](R &q) { return q.matrix(x, n, t); }; c.show = "Matrix" + c.show; break; }
    case 12: { itk::Matrix<float, D, D + 1> x; for (unsigned i = 0; i < D; ++i) for (unsigned j = 0; j < D + 1; ++j) part(c, ix(ix(n, i), j), false, 0, x[i][j] = val<float>(r), t); c.make = [=](R &q) { return q.matrix(x, n, t); }; c.show = "Matrix D,D+1" + c.show; break; }
    default: { itk::Matrix<double, D + 2, D> x; for (unsigned i = 0; i < D + 2; ++i) for (unsigned j = 0; j < D; ++j) part(c, ix(ix(n, i), j), false, 0, x[i][j] = val<double>(r), t); c.make = [=](R &q) { return q.matrix(x, n, t); }; c.show = "Matrix D+2,D" + c.show; break; }
  }
  return c;
}
static Comp any(Rng &r) {
  str n = anyname(r, 12); int t = r.chance(50) ? -1 : (int)r.below(2), w = (int)r.below(14);
  switch (r.below(5)) { case 0: return dim<1>(r, n, t, w); case 1: return dim<2>(r, n, t, w); case 2: return dim<4>(r, n, t, w); default: return dim<3>(r, n, t, w); }
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3;
  cases([&](Rng &r, long k) {
    std::vector<Comp> v; int n = r.range(1, 6); for (int i = 0; i < n; ++i) v.push_back(any(r)); std::vector<Meas> all; str show;
    for (auto &x : v) { all.insert(all.end(), x.parts.begin(), x.parts.end()); show += x.show + " "; }
    std::vector<int> got; str out;
    { R t; t.body = [&](R &q, int, char **) { for (auto &x : v) got.push_back(x.make(q)); return 0; }; Capture a(std::cout), b(std::cerr); int ret = runMain(t, {"p", "-O", "out.xml"}); if (ret) VIOL("recordReturn", "recording returned " << ret << ": " << show); }
    for (size_t i = 0; i < got.size(); ++i) if (got[i]) VIOL("recordValue", v[i].show << " returned " << got[i] << " when recording");
    out = readfile("out.xml"); XmlDoc d = parseXml(out); std::vector<Node> el; if (d.ok) for (auto &x : d.root.kids) el.push_back(x);
    if (!d.ok) VIOL("malformed", d.error << " " << show << jsonq(cut(out)));
    else if (el.size() != all.size()) VIOL("count", el.size() << " measurements recorded, expected " << all.size() << ": " << show << jsonq(cut(out, 1500)));
    else for (size_t i = 0; i < all.size(); ++i) if (el[i].tag != "DartMeasurement" || el[i].a("name") != all[i].name || el[i].a("type") != all[i].type() || el[i].text != all[i].content()) { VIOL("component", "recorded " << el[i].a("name") << " " << el[i].a("type") << " " << el[i].text << ", expected " << all[i].show() << ": " << show); break; }
    c.count("components", all.size());
    // compare with an edited recording
    std::vector<Meas> base = all; int rate = (int)r.pick(std::vector<int>{0, 0, 5, 20, 60});
    double tol = r.pick(std::vector<double>{1e-6, 1e-6, 1e-3, 1e-4, 0, 1e-10}); bool onlyin = r.chance(25);
    for (auto &m : base) if (onlyin || r.chance(rate)) switch (onlyin ? 5 : r.below(7)) {
      case 0: m.name += "x"; break;
      case 1: { size_t p = m.name.rfind('_'); m.name = m.name.substr(0, p + 1) + "9" + m.name.substr(p + 1); break; }
      case 2: m.l = (long)((unsigned long)m.l + 1); m.d = std::nextafter(m.d, 1e300); break;
      case 3: m.l = anylong(r); m.d = dbl(r); break;
      case 4: m.kind = m.kind == Meas::INT ? Meas::DOUBLE : Meas::INT; break;
      case 5: case 6: { double f = tol * (r.chance(50) ? 1 : -1) * (onlyin || r.chance(60) ? 0.5 : 1.7); m.d *= 1 + f; long e = (long)((double)m.l * f); if (std::labs(m.l) < 1L << 62) m.l += e; break; }
    }
    if (r.chance(10) && !base.empty()) base.resize(r.below(base.size()));
    if (r.chance(10)) { size_t i = r.below(base.size() + 1); base.insert(base.begin() + i, anyMeas(r)); }
    std::vector<Entry> es; for (auto &m : base) es.push_back(entryOf(m)); writefile("base.xml", plainXml(es));
    std::vector<int> bad, open; size_t at = 0; int total = 0; bool anyopen = false;
    for (auto &x : v) { int b = 0, o = 0; for (auto &m : x.parts) { Verdict q = NO; if (at < base.size() && base[at].name == m.name && str(base[at].type()) == m.type()) q = accepts(m.kind, base[at].content(), m.content(), m.tolerant(), tol); ++at; if (q == NO) ++b; if (q == OPEN) ++o; } bad.push_back(b); open.push_back(o); total += b; if (o) anyopen = true; }
    got.clear(); R t; t.SetRelativeTolerance(tol); t.body = [&](R &q, int, char **) { for (auto &x : v) got.push_back(x.make(q)); return 0; };
    int ret; { Capture a(std::cout), b(std::cerr); ret = runMain(t, {"p", "-I", "base.xml"}); }
    for (size_t i = 0; i < got.size(); ++i) { if (!open[i] && got[i] != bad[i]) VIOL("verdict", v[i].show << " returned " << got[i] << ", " << bad[i] << " components differ, tolerance " << tol << ": " << show); }
    if (!anyopen && ret != total) VIOL("mismatches", "Main returned " << ret << ", expected " << total << ", tolerance " << tol << ": " << show);
    c.count(total ? "comparisons_with_mismatches" : "comparisons_without");
    c.nontrivial(out + plainXml(es)); if (k < 3 * c.shards) c.sample(show);
  });
  c.finish(); return 0;
}
