// C33: a visitor is handed each measurement once, as exactly its own kind
#include "tfx.h"
using namespace vf; using namespace testutil;
enum K { MEAS, MFILE, DATA, TEXT, PLAIN, STRING, NUM, INTEGER, FLOAT_, DOUBLE_, BOOL_, NK };
static const char *NAME[] = {"Measurement", "MeasurementFile", "DataMeasurement", "TextData", "PlainText", "StringText", "NumericData", "IntegerNumeric", "FloatNumeric", "DoubleNumeric", "BooleanNumeric"};
static const int UP[] = {-1, MEAS, MEAS, DATA, TEXT, TEXT, DATA, NUM, NUM, NUM, NUM};
struct Hit { int kind; const void *object; };
// handles the kinds of the mask itself, and leaves all others to the framework
class V : public MeasurementVisitor {
public:
  unsigned mask; std::vector<Hit> hits; int depth; V(unsigned m) : mask(m), depth(0) {}
  ~V() {}
#define H(X, k) virtual void Visit(X &m) { if (++depth > 100) { VIOL("endless", "a visit does not end at " << NAME[k]); _exit(3); } if (mask >> k & 1) { Hit h; h.kind = k; h.object = dynamic_cast<void *>(&m); hits.push_back(h); } else MeasurementVisitor::Visit(m); --depth; }
  H(Measurement, MEAS) H(MeasurementFile, MFILE) H(DataMeasurement, DATA) H(TextData, TEXT) H(PlainText, PLAIN) H(StringText, STRING) H(NumericData, NUM) H(IntegerNumeric, INTEGER) H(FloatNumeric, FLOAT_) H(DoubleNumeric, DOUBLE_) H(BooleanNumeric, BOOL_)
#undef H
};
// a visitor written the way a user would: few kinds, everything else inherited
class OnlyBase : public MeasurementVisitor { public: long n; const void *o; OnlyBase() : n(0), o(0) {} ~OnlyBase() {} using MeasurementVisitor::Visit; void Visit(Measurement &m) { ++n; o = dynamic_cast<void *>(&m); } };
class OnlyNumbers : public MeasurementVisitor { public: long n; OnlyNumbers() : n(0) {} ~OnlyNumbers() {} using MeasurementVisitor::Visit; void Visit(NumericData &) { ++n; } };
class OnlyText : public MeasurementVisitor { public: long n, p; OnlyText() : n(0), p(0) {} ~OnlyText() {} using MeasurementVisitor::Visit; void Visit(TextData &) { ++n; } void Visit(PlainText &m) { ++p; MeasurementVisitor::Visit(m); } };
// kinds of the user
struct MyText : public TextData { str t; const str &GetAttributeType() const { return t; } };
struct MyPlain : public PlainText {};
struct MyNumber : public NumericData { str t; const str &GetAttributeType() const { return t; } bool IsEqualTolerant(const NumericData &, double) { return false; } };
struct MyData : public DataMeasurement { str t, c; const str &GetAttributeType() const { return t; } void SetContent(const str &s) { c = s; } const str &GetContent() const { return c; } };
struct MyMeas : public Measurement { str t, c, e; const str &GetElementTypeName() const { return e; } const str &GetAttributeType() const { return t; } void SetContent(const str &s) { c = s; } const str &GetContent() const { return c; } bool IsEqual(Measurement &) { return false; } void PrintStartTag(std::ostream &o) const { o << "<x>"; } };
struct MyInteger : public IntegerNumeric {}; struct MyFile : public MeasurementFile {};
struct MyOwn : public StringText { void AcceptVisitor(MeasurementVisitor &v) { v.Visit(static_cast<TextData &>(*this)); } };
struct O { std::unique_ptr<Measurement> m; int kind; str how; };
static O object(Rng &r) {
  O o; static const std::vector<str> TY = {"text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean"}; static const int TK[] = {PLAIN, STRING, INTEGER, FLOAT_, DOUBLE_, BOOL_};
  switch (r.below(16)) {
    case 0: o.m.reset(new PlainText); o.kind = PLAIN; o.how = "PlainText"; break; case 1: o.m.reset(new StringText); o.kind = STRING; o.how = "StringText"; break; case 2: o.m.reset(new IntegerNumeric); o.kind = INTEGER; o.how = "IntegerNumeric"; break;
    case 3: o.m.reset(new FloatNumeric); o.kind = FLOAT_; o.how = "FloatNumeric"; break; case 4: o.m.reset(new DoubleNumeric); o.kind = DOUBLE_; o.how = "DoubleNumeric"; break; case 5: o.m.reset(new BooleanNumeric); o.kind = BOOL_; o.how = "BooleanNumeric"; break;
    case 6: o.m.reset(new MeasurementFile); o.kind = MFILE; o.how = "MeasurementFile"; break;
    case 7: o.m.reset(new MyText); o.kind = TEXT; o.how = "user text"; break; case 8: o.m.reset(new MyNumber); o.kind = NUM; o.how = "user number"; break; case 9: o.m.reset(new MyData); o.kind = DATA; o.how = "user data"; break; case 10: o.m.reset(new MyMeas); o.kind = MEAS; o.how = "user measurement"; break;
    case 11: o.m.reset(new MyPlain); o.kind = PLAIN; o.how = "derived from PlainText"; break; case 12: o.m.reset(new MyInteger); o.kind = INTEGER; o.how = "derived from IntegerNumeric"; break; case 13: if (r.chance(50)) { o.m.reset(new MyFile); o.kind = MFILE; o.how = "derived from MeasurementFile"; } else { o.m.reset(new MyOwn); o.kind = TEXT; o.how = "user text that is visited as TextData"; } break;
    default: { int t = (int)r.below(6); o.m.reset(CreateDataMeasurement(TY[t])); o.kind = TK[t]; o.how = "made for " + TY[t]; }
  }
  if (r.chance(30)) { if (StringText *s = dynamic_cast<StringText *>(o.m.get())) { if (o.how == "StringText") o.m.reset(new StringText(*s)); } else if (MeasurementFile *f = dynamic_cast<MeasurementFile *>(o.m.get())) { if (o.how == "MeasurementFile") o.m.reset(new MeasurementFile(*f)); } }
  if (MeasurementFile *f = dynamic_cast<MeasurementFile *>(o.m.get())) if (r.chance(80)) { f->SetAttributeType(r.chance(30) ? printable(r, 12) : r.pick(std::vector<str>{"text/plain", "image/png", "image/jpeg", "image/itk", "text/string", "numeric/integer", "numeric/double", "link/url", ""})); o.how += " of " + f->GetAttributeType(); }
  o.m->SetAttributeName(printable(r, 10)); o.m->SetContent(content(r, 20)); return o;
}
static str print(const Measurement &m) { std::ostringstream o; o << m; return o.str(); }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3;
  cases([&](Rng &r, long k) {
    int n = r.range(1, 12); std::vector<O> v; for (int i = 0; i < n; ++i) v.push_back(object(r));
    unsigned mask = r.chance(20) ? (1u << NK) - 1 : r.chance(30) ? 1u << r.below(NK) : (unsigned)r.below(1u << NK); V vis(mask); OnlyBase ob; OnlyNumbers on; OnlyText ot; str h; long nums = 0, texts = 0, plains = 0, total = 0;
    int visits = r.range(1, 20);
    for (int q = 0; q < visits; ++q) {
      O &o = v[r.below(n)]; str before = print(*o.m); vis.hits.clear(); int want = o.kind; while (want >= 0 && !(mask >> want & 1)) want = UP[want];
      DataMeasurement *d = dynamic_cast<DataMeasurement *>(o.m.get()); MeasurementVisitor &mv = vis; if (d && r.chance(50)) d->AcceptVisitor(mv); else o.m->AcceptVisitor(mv);
      str what = o.how + ", the visitor handles"; for (int i = 0; i < NK; ++i) if (mask >> i & 1) what += str(" ") + NAME[i];
      if (want < 0) { if (!vis.hits.empty()) VIOL("visited", "visited as " << NAME[vis.hits[0].kind] << ": " << what); }
      else if (vis.hits.size() != 1) VIOL("times", "visited " << vis.hits.size() << " times: " << what);
      else if (vis.hits[0].kind != want) VIOL("kind", "visited as " << NAME[vis.hits[0].kind] << " and not as " << NAME[want] << ": " << what);
      else if (vis.hits[0].object != dynamic_cast<void *>(o.m.get())) VIOL("object", "another object was visited: " << what);
      o.m->AcceptVisitor(ob); o.m->AcceptVisitor(on); o.m->AcceptVisitor(ot); ++total; if (o.kind >= NUM) ++nums; if (o.kind == TEXT || o.kind == PLAIN || o.kind == STRING) ++texts; if (o.kind == PLAIN) ++plains;
      if (ob.o != dynamic_cast<void *>(o.m.get())) VIOL("object", "a visitor of all measurements got another object than " << o.how);
      if (print(*o.m) != before) VIOL("changed", "the visit changed " << before << " to " << print(*o.m));
      h += o.how + ";"; c.count("visits." + o.how.substr(0, o.how.find(" of ")));
    }
    if (ob.n != total) VIOL("base", "a visitor of all measurements was called " << ob.n << " times of " << total << ": " << h);
    if (on.n != nums) VIOL("numbers", "a visitor of numbers was called " << on.n << " times of " << nums << ": " << h);
    if (ot.n != texts || ot.p != plains) VIOL("texts", "a visitor of texts was called " << ot.n << " times of " << texts << ", with plain text " << ot.p << " of " << plains << ": " << h);
    if (r.chance(5)) for (auto t : {"", "text", "text/", "Text/plain", "text/plain ", "numeric", "numeric/int", "image/png", "image/itk", "numeric/Float"}) { std::unique_ptr<DataMeasurement> x(CreateDataMeasurement(t)); if (x && x->GetAttributeType() != t) VIOL("made", "type " << jsonq(t) << " gives a " << x->GetAttributeType()); }
    c.nontrivial(h + std::to_string(mask)); if (k < 3 * c.shards) c.sample(h + " mask " + std::to_string(mask));
  });
  c.finish(); return 0;
}
