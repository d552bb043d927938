// C04: a tolerant comparison accepts exactly the numbers within the tolerance
#include "tolref.h"
using namespace vf;
static str fmt(const char *f, long double v) { char b[100]; snprintf(b, sizeof b, f, v); return b; }
static str numtext(Rng &r, Meas::Kind k, double v, long l) {
  if (k == Meas::INT) { str s = std::to_string(l); int w = (int)r.below(8); if (w == 0 && l >= 0) s = "+" + s; if (w == 1) s = " " + s; if (w == 2) s += " "; if (w == 3) s += "\n"; return s; }
  if (k == Meas::BOOL) return l & 1 ? "1" : "0";
  int p = k == Meas::FLOAT ? 9 : 17; char f[16]; 
  snprintf(f, sizeof f, r.chance(70) ? "%%.%dLg" : "%%.%dLe", (int)r.range(1, p)); str s = fmt(f, v);
  if (r.chance(5)) s = " " + s; if (r.chance(5)) s += " "; return s;
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  const str bl = c.scratch + "/base.xml";
  static const std::vector<str> junk = {"", "nan", "inf", "-inf", "-nan", "NaN", "abc", "1x", "1 2", "--1", "x1", ",", "true", "1,5", "- 1", "1.5.2", "e5", " "};
  cases([&](Rng &r, long k) {
    typedef std::pair<Meas, str> P; // test measurement, baseline content
    std::vector<Meas> test; std::vector<str> base; std::vector<double> tols; std::vector<bool> tolset;
    int n = r.range(1, 12); double cur = (double)(std::numeric_limits<float>::epsilon() * 64);
    std::vector<Verdict> want;
    for (int i = 0; i < n; ++i) {
      Meas m; m.kind = (Meas::Kind)r.range(Meas::INT, Meas::BOOL); m.name = "n" + std::to_string(i); m.tol = r.chance(80) ? 1 : (int)r.range(-1, 0);
      static const std::vector<double> tv = {0., -0., 1e-3, -1e-3, .1, .5, 1., 2., 1e-7, 1e-10, 1e-15, 1e-300, 1e300, 1e-19, 0.25, 5e-324, -2.};
      double tol = r.chance(70) ? r.pick(tv) : std::pow(10., r.range(-17, 1)) * r.unit();
      bool set = r.chance(60); if (set) cur = tol;
      tols.push_back(cur); tolset.push_back(set);
      m.l = anylong(r); m.f = anyfloat(r); m.d = anydouble(r); m.b = r.chance(50);
      if (r.chance(15)) { m.f = (float)(r.pick(std::vector<double>{FLT_EPSILON, -FLT_EPSILON, FLT_EPSILON * .99, FLT_EPSILON * 1.01, -FLT_EPSILON * .5, 1e-8, 0., 1e-30})); m.d = r.pick(std::vector<double>{DBL_EPSILON, -DBL_EPSILON, DBL_EPSILON * .99, DBL_EPSILON * 1.01, -DBL_EPSILON * .3, 1e-17, 0., 1e-200}); m.l = r.range(-1, 1); }
      double v = m.kind == Meas::FLOAT ? m.f : m.d; long l = m.l; double t = std::fabs(cur);
      // near the border of what is accepted, on either side
      str bt;
      int how = (int)r.below(12);
      if (how == 0) bt = r.pick(junk);
      else if (how == 1) bt = m.content();
      else {
        double q = r.pick(std::vector<double>{.5, .9, .999, .99999, 1.00001, 1.001, 1.1, 2., 10., 0.});
        double sg = r.chance(50) ? 1 : -1, nv = r.chance(50) ? v * (1 + sg * t * q) : v / (1 + sg * t * q);
        if (how == 2) nv = -v; if (how == 3) nv = m.kind == Meas::FLOAT ? anyfloat(r) : anydouble(r); if (how == 4) nv = 0; if (how == 5) nv = r.pick(std::vector<double>{1e-8, DBL_EPSILON, FLT_EPSILON, -1e-17, 1e-9});
        long double ln = (long double)l * (1 + sg * (long double)t * q); if (ln > 9.2e18L) ln = 9.2e18L; if (ln < -9.2e18L) ln = -9.2e18L;
        long nl = (long)ln; if (how == 2) nl = l == LONG_MIN ? l : -l; if (how == 3) nl = anylong(r); if (how == 6) nl = l == LONG_MAX ? l : l + 1; if (how == 7) nl = r.chance(50) ? LONG_MIN : LONG_MAX; if (how == 8) nl = (long)(unsigned)l;
        bt = numtext(r, m.kind, nv, m.kind == Meas::BOOL ? (long)r.below(2) : nl);
        if (m.kind == Meas::INT && how == 9) bt = std::to_string(l) + ".5";
      }
      test.push_back(m); base.push_back(bt);
      want.push_back(accepts(m.kind, bt, m.content(), m.tolerant(), cur));
      // directly, in both directions
      std::unique_ptr<testutil::NumericData> A(newNumeric(m.kind)), B(newNumeric(m.kind));
      A->SetContent(bt); str mt = r.chance(50) ? m.content() : r.chance(50) ? r.pick(junk) : numtext(r, m.kind, v, l); B->SetContent(mt); A->SetAttributeName("x"); B->SetAttributeName("x");
      double dt = r.chance(80) ? cur : tol;
      if (dt != 0) {
        Verdict w = accepts(m.kind, bt, mt, true, dt); bool ab = A->IsEqualTolerant(*B, dt), ba = B->IsEqualTolerant(*A, dt);
        char tb[40]; snprintf(tb, sizeof tb, "%.17g", dt);
        if (ab != ba) VIOL("symmetry", m.type() << " " << jsonq(bt) << " and " << jsonq(mt) << " tolerance " << tb << ": " << ab << " and " << ba);
        if (w != OPEN && ab != (w == YES)) VIOL(str("direct.") + m.type(), m.type() << " " << jsonq(bt) << " and " << jsonq(mt) << " tolerance " << tb << ": " << ab << " and not " << (w == YES));
        if (A->GetContent() != bt || B->GetContent() != mt) VIOL("changed", "a comparison changes " << jsonq(bt) << " or " << jsonq(mt));
        // another type is never equal
        Meas::Kind ok = (Meas::Kind)r.range(Meas::INT, Meas::BOOL);
        if (ok != m.kind) { std::unique_ptr<testutil::NumericData> C(newNumeric(ok)); C->SetContent(bt); if (A->IsEqualTolerant(*C, dt)) VIOL("otherType", m.type() << " equals another type with " << jsonq(bt)); }
        // the visitor, as used for a comparison
        testutil::CompareVisitor cv; cv.SetBaselineMeasurement(A.get()); cv.SetTolerance(dt); 
        if (cv.GetTolerance() != dt) VIOL("visitorTolerance", "tolerance " << tb << " is reported as " << cv.GetTolerance());
        B->AcceptVisitor(cv); if (w != OPEN && cv.GetResult() != (w == YES)) VIOL(str("visitor.") + m.type(), jsonq(bt) << " and " << jsonq(mt) << " tolerance " << tb);
        // the same visitor, with another tolerance
        if (r.chance(50)) { double t2 = r.chance(50) ? 0. : r.chance(30) ? -0. : r.pick(tv); cv.SetTolerance(t2); if (cv.GetTolerance() != t2) VIOL("visitorTolerance", "tolerance " << t2 << " is reported as " << cv.GetTolerance() << " after " << tb); Verdict w2 = accepts(m.kind, bt, mt, true, t2); B->AcceptVisitor(cv); if (w2 != OPEN && cv.GetResult() != (w2 == YES)) VIOL(str("visitorAgain.") + m.type(), jsonq(bt) << " and " << jsonq(mt) << " tolerance " << t2 << " after " << tb); }
        cv.SetToleranceOff(); if (cv.GetTolerance() != 0) VIOL("toleranceOff", "tolerance is " << cv.GetTolerance() << " when off"); B->AcceptVisitor(cv); if (cv.GetResult() != (bt == mt)) VIOL("exact", jsonq(bt) << " and " << jsonq(mt) << " without tolerance: " << cv.GetResult());
        c.count(w == YES ? "direct_accepted" : w == NO ? "direct_rejected" : "direct_open");
      }
    }
    std::vector<Entry> es; for (int i = 0; i < n; ++i) { Entry e = entryOf(test[i]); e.content = base[i]; es.push_back(e); }
    writefile(bl, plainXml(es));
    T t; t.body = [&](T &s, int, char **) { for (int i = 0; i < n; ++i) { if (tolset[i]) { s.SetRelativeTolerance(tols[i]); } if (s.GetRelativeTolerance() != tols[i]) VIOL("getTolerance", s.GetRelativeTolerance() << " and not " << tols[i]); s.make(test[i]); } return 0; };
    int ret; { Capture a(std::cout), b(std::cerr); ret = runMain(t, {"p", "-I", bl}); }
    int bad = 0; bool open = false;
    for (int i = 0; i < n && i < (int)t.results.size(); ++i) {
      char tb[40]; snprintf(tb, sizeof tb, "%.17g", tols[i]);
      if (want[i] == OPEN) { open = true; c.count("open"); if (t.results[i]) ++bad; continue; }
      if (want[i] == NO) ++bad;
      if ((t.results[i] == 0) != (want[i] == YES)) VIOL(str("run.") + test[i].type(), test[i].show() << " against " << jsonq(base[i]) << " tolerance " << tb << ": returned " << t.results[i] << ", to be accepted: " << (want[i] == YES));
      c.count(want[i] == YES ? "accepted" : "rejected"); c.nontrivial(test[i].show() + base[i] + tb);
      if (k < 2 * c.shards) c.sample(test[i].show() + " against " + jsonq(base[i]) + " tolerance " + tb + (want[i] == YES ? " accepted" : " rejected"));
    }
    if ((int)t.results.size() != n) VIOL("notRun", "test not run"); else if (ret != bad) VIOL("return", "returned " << ret << " and not " << bad);
    (void)open;
  });
  c.finish(); return 0;
}
