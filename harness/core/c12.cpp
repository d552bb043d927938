// C12: measurement objects are independent values whose views stay in sync
#include "tfx.h"
#include "tolref.h"
#include "b64ref.h"
#include <cerrno>
using namespace vf;
typedef std::unique_ptr<testutil::Measurement> MP;
static bool isPrintable(const str &s) { for (unsigned char ch : s) if ((ch < 32 && ch != '\n' && ch != '\t' && ch != '\r') || ch > 126) return false; return true; }
struct Mod { int kind; str name, type, content, enc, comp; bool escp; const unsigned char *ptr; str ptrbytes; Mod() : kind(0), enc("none"), comp("none"), escp(true), ptr(0) {} };
static const char *KT[] = {"text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean", "file"};
static testutil::Measurement *make(int k) { if (k == 6) return new testutil::MeasurementFile; return testutil::CreateDataMeasurement(KT[k]); }
static testutil::Measurement *copyOf(testutil::Measurement *m, int k) {
  switch (k) { case 0: return new testutil::PlainText(*(testutil::PlainText *)m); case 1: return new testutil::StringText(*(testutil::StringText *)m); case 2: return new testutil::IntegerNumeric(*(testutil::IntegerNumeric *)m); case 3: return new testutil::FloatNumeric(*(testutil::FloatNumeric *)m); case 4: return new testutil::DoubleNumeric(*(testutil::DoubleNumeric *)m); case 5: return new testutil::BooleanNumeric(*(testutil::BooleanNumeric *)m); default: return new testutil::MeasurementFile(*(testutil::MeasurementFile *)m); }
}
static void assign(testutil::Measurement *a, testutil::Measurement *b, int k) {
  switch (k) { case 0: *(testutil::PlainText *)a = *(testutil::PlainText *)b; break; case 1: *(testutil::StringText *)a = *(testutil::StringText *)b; break; case 2: *(testutil::IntegerNumeric *)a = *(testutil::IntegerNumeric *)b; break; case 3: *(testutil::FloatNumeric *)a = *(testutil::FloatNumeric *)b; break; case 4: *(testutil::DoubleNumeric *)a = *(testutil::DoubleNumeric *)b; break; case 5: *(testutil::BooleanNumeric *)a = *(testutil::BooleanNumeric *)b; break; default: *(testutil::MeasurementFile *)a = *(testutil::MeasurementFile *)b; }
}
static void history(uint64_t seed, bool report, int steps) {
  Rng r(seed); Ctx &c = Ctx::get(); std::vector<MP> obj; std::vector<Mod> mod; str log;
  auto viol = [&](const str &key, const str &d) { if (report) VIOL(key, d << " after " << (log.size() > 1500 ? "..." + log.substr(log.size() - 1500) : log)); };
  auto data = [&](size_t i, str &d) -> bool { // the data the model knows
    const Mod &m = mod[i];
    if (m.enc != "base64") { d = m.content; return true; } // unsupported encodings and compressions leave the content as it is
    { if (m.content.empty()) { d = ""; return true; } return refDecode(m.content, false, d) && !d.empty(); }
  };
  auto check = [&](size_t i, bool deep) {
    testutil::Measurement *o = obj[i].get(); Mod &m = mod[i]; str id = "object " + std::to_string(i) + " (" + KT[m.kind] + ")";
    if (o->GetAttributeName() != m.name) viol("name", id + " has name " + jsonq(o->GetAttributeName()) + " and not " + jsonq(m.name));
    str ty = m.kind == 6 ? m.type : str(KT[m.kind]); if (o->GetAttributeType() != ty) viol("type", id + " has type " + jsonq(o->GetAttributeType()) + " and not " + jsonq(ty));
    if (o->GetContent() != m.content) viol("content", id + " has content " + jsonq(cut(o->GetContent())) + " and not " + jsonq(cut(m.content)));
    if (o->GetApplyEscapeSequences() != m.escp) viol("escapes", id + " escapes " + std::to_string(o->GetApplyEscapeSequences()));
    if (m.ptr && memcmp(m.ptr, m.ptrbytes.data(), m.ptrbytes.size())) viol("dataChanged", id + ": its data was changed by an operation on something else");
    if (m.kind == 6) { if (((testutil::MeasurementFile *)o)->GetFileName() != m.content) viol("fileName", id + " has file name " + jsonq(((testutil::MeasurementFile *)o)->GetFileName())); }
    else {
      testutil::DataMeasurement *d = (testutil::DataMeasurement *)o;
      if (d->GetAttributeEncoding() != m.enc) viol("encoding", id + " has encoding " + d->GetAttributeEncoding() + " and not " + m.enc);
      if (d->GetAttributeCompression() != m.comp) viol("compression", id + " has compression " + d->GetAttributeCompression());
      if (d->GetDefaultAttributeEncoding() != "none" || d->GetDefaultAttributeCompression() != "none") viol("defaults", id);
    }
    if (!deep) return;
    if (m.kind >= 2 && m.kind <= 5) {
      errno = 0;
      size_t b = m.content.find_first_not_of(" \t\n\v\f\r"); // white space in front is skipped; without a number there, the value is 0
      if (b == str::npos || !strchr("0123456789+-.", m.content[b])) {
        double v = 1; switch (m.kind) { case 2: v = ((testutil::IntegerNumeric *)o)->GetValue(); break; case 3: v = ((testutil::FloatNumeric *)o)->GetValue(); break; case 4: v = ((testutil::DoubleNumeric *)o)->GetValue(); break; default: v = ((testutil::BooleanNumeric *)o)->GetValue(); }
        if (v != 0) viol("noNumber", id + " has value " + std::to_string(v) + " for " + jsonq(cut(m.content))); if (report) c.count("value_without_number");
      }
      if (m.kind == 2 && numberText(m.content, true)) { long v = strtol(m.content.c_str(), 0, 10); if (!errno && ((testutil::IntegerNumeric *)o)->GetValue() != v) viol("value", id + " has value " + std::to_string(((testutil::IntegerNumeric *)o)->GetValue()) + " for " + jsonq(m.content)); }
      if (m.kind == 3 && numberText(m.content, false)) { float v = strtof(m.content.c_str(), 0); if (!std::isinf(v) && ((testutil::FloatNumeric *)o)->GetValue() != v) viol("value", id + " has value " + std::to_string(((testutil::FloatNumeric *)o)->GetValue()) + " for " + jsonq(m.content)); }
      if (m.kind == 4 && numberText(m.content, false)) { double v = strtod(m.content.c_str(), 0); if (!std::isinf(v) && ((testutil::DoubleNumeric *)o)->GetValue() != v) viol("value", id + " has value " + std::to_string(((testutil::DoubleNumeric *)o)->GetValue()) + " for " + jsonq(m.content)); }
      if (m.kind == 5 && (m.content == "0" || m.content == "1") && ((testutil::BooleanNumeric *)o)->GetValue() != (m.content == "1")) viol("value", id + " for " + jsonq(m.content));
    }
    if (m.kind != 6) {
      testutil::DataMeasurement *d = (testutil::DataMeasurement *)o; str want; bool known = data(i, want);
      if (r.chance(60)) {
        size_t n; const void *p; if (r.chance(50)) { n = d->GetContentAsDataSize(); p = d->GetContentAsData(); } else { p = d->GetContentAsData(); n = d->GetContentAsDataSize(); }
        if (known) { if (n != want.size()) viol("dataSize", id + " has " + std::to_string(n) + " bytes of data and not " + std::to_string(want.size())); else { if (n && memcmp(p, want.data(), n)) viol("data", id + " has other data"); if (n) { m.ptr = (const unsigned char *)p; m.ptrbytes = want; } } if (report) c.count("data_read." + m.enc + (m.comp != "none" ? ".compressed" : "")); }
      }
    }
    if (r.chance(30) && isPrintable(m.name) && isPrintable(m.content) && isPrintable(ty)) {
      std::ostringstream os; if (r.chance(50)) os << *o; else o->Print(os); const char *tag = m.kind == 6 ? "DartMeasurementFile" : "DartMeasurement";
      if (m.escp) { XmlDoc x = parseXml(os.str()); if (!x.ok || x.root.tag != tag || x.root.a("name") != m.name || x.root.a("type") != ty || x.root.text != m.content || ([&] { bool h; str e = x.root.a("encoding", &h); return h ? e : str("none"); })() != m.enc || (x.root.a("compression").empty() ? "none" : x.root.a("compression")) != m.comp) viol("print", id + " prints " + jsonq(cut(os.str()))); }
      else { str w = str("<") + tag + " name=\"" + m.name + "\" type=\"" + ty + "\"" + (m.enc != "none" ? " encoding=\"" + m.enc + "\"" : "") + (m.comp != "none" ? " compression=\"" + m.comp + "\"" : "") + ">" + m.content + "</" + tag + ">"; if (os.str() != w) viol("printRaw", id + " prints " + jsonq(cut(os.str())) + " and not " + jsonq(cut(w))); }
      if (report) c.count("printed");
    }
  };
  for (int st = 0; st < steps; ++st) {
    if (obj.empty() || (obj.size() < 7 && r.chance(12))) { int kk = (int)r.below(7); obj.push_back(MP(make(kk))); Mod m; m.kind = kk; mod.push_back(m); log += "new " + std::to_string(obj.size() - 1) + ":" + KT[kk] + "; "; check(obj.size() - 1, true); continue; }
    size_t i = r.below(obj.size()); testutil::Measurement *o = obj[i].get(); Mod &m = mod[i]; testutil::DataMeasurement *d = m.kind == 6 ? 0 : (testutil::DataMeasurement *)o; str is = std::to_string(i);
    switch (r.below(12)) {
      case 0: { m.name = r.chance(20) ? "" : anyname(r, 20); o->SetAttributeName(m.name); log += "name " + is + "; "; break; }
      case 1: { if (m.kind >= 2 && m.kind <= 4 && r.chance(60)) m.content = std::to_string(r.range(-99999, 99999)); else m.content = r.chance(30) ? refEncode(bytes(r, r.below(60)), r.chance(50)) : content(r, 60); o->SetContent(m.content); m.ptr = 0; log += "content " + is + " " + jsonq(cut(m.content, 30)) + "; "; break; }
      case 2: { // own content, by reference
          o->SetContent(o->GetContent()); m.ptr = 0; log += "content " + is + " to itself; "; break; }
      case 3: if (m.kind == 2) { long v = anylong(r); ((testutil::IntegerNumeric *)o)->SetValue(v); m.content = std::to_string(v); } else if (m.kind == 3) { Meas q; q.kind = Meas::FLOAT; q.f = anyfloat(r); ((testutil::FloatNumeric *)o)->SetValue(q.f); m.content = q.content(); } else if (m.kind == 4) { Meas q; q.kind = Meas::DOUBLE; q.d = anydouble(r); ((testutil::DoubleNumeric *)o)->SetValue(q.d); m.content = q.content(); } else if (m.kind == 5) { bool v = r.chance(50); ((testutil::BooleanNumeric *)o)->SetValue(v); m.content = v ? "1" : "0"; } else if (m.kind == 6) { m.content = printable(r, 20); ((testutil::MeasurementFile *)o)->SetFileName(m.content); m.type = r.pick(std::vector<str>{"text/plain", "image/png", "x"}); ((testutil::MeasurementFile *)o)->SetAttributeType(m.type); } else break; m.ptr = 0; log += "value " + is + "; "; break;
      case 4: if (d) { m.enc = r.chance(45) ? "none" : r.chance(85) ? "base64" : r.pick(std::vector<str>{"other", "", "Base64", "hex", "None", "a \"&<b>"}); d->SetAttributeEncoding(m.enc); m.ptr = 0; log += "encoding " + is + " " + m.enc + "; "; } break;
      case 5: if (d && r.chance(20)) { m.comp = r.chance(70) ? "none" : r.chance(80) ? "gzip" : "\"<&"; d->SetAttributeCompression(m.comp); m.ptr = 0; log += "compression " + is + " " + m.comp + "; "; } break;
      case 6: { m.escp = r.chance(60); if (r.chance(50)) o->SetApplyEscapeSequences(m.escp); else if (m.escp) o->ApplyEscapeSequencesOn(); else o->ApplyEscapeSequencesOff(); break; }
      case 7: case 8: if (d && (m.enc == "none" || m.enc == "base64")) { // set as data, also its own or another's
          str b; int how = (int)r.below(4); size_t j = r.below(obj.size()); const void *src = 0; size_t n = 0; std::unique_ptr<Exact> ex;
          if (how < 2) { b = bytes(r, r.chance(20) ? 0 : r.below(80)); ex.reset(new Exact(b)); src = ex->p; n = b.size(); log += "data " + is + " " + std::to_string(n) + " bytes; "; }
          else { if (how == 2) j = i; testutil::DataMeasurement *q = dynamic_cast<testutil::DataMeasurement *>(obj[j].get()); if (!q) break; n = q->GetContentAsDataSize(); src = q->GetContentAsData(); if (n && r.chance(40)) { size_t off = r.below(n); src = (const char *)src + off; n = r.below(n - off + 1); } b.assign((const char *)src, n); log += "data " + is + " from " + std::to_string(j) + " " + std::to_string(n) + " bytes; "; }
          d->SetContentAsData(src, n); m.ptr = 0;
          if (m.enc == "none") m.content = b;
          else { str back; if (!refDecode(d->GetContent(), false, back) || back != b) viol("setData", "object " + is + " set to " + std::to_string(b.size()) + " bytes has content " + jsonq(cut(d->GetContent()))); m.content = d->GetContent(); }
          { if (d->GetContentAsDataSize() != b.size() || (b.size() && memcmp(d->GetContentAsData(), b.data(), b.size()))) viol("readBack", "object " + is + ": the data set does not read back"); }
          if (report) c.count("data_set." + m.enc); } break;
      case 9: { size_t j = r.below(obj.size()); // copy
          testutil::Measurement *cp = copyOf(obj[j].get(), mod[j].kind); Mod mm = mod[j]; mm.ptr = 0;
          if (obj.size() < 7) { obj.push_back(MP(cp)); mod.push_back(mm); log += "copy " + std::to_string(j) + " to " + std::to_string(obj.size() - 1) + "; "; } else { obj[i].reset(cp); mod[i] = mm; log += "copy " + std::to_string(j) + " over " + is + "; "; }
          if (report) c.count("copies"); break; }
      case 10: { size_t j = r.chance(20) ? i : r.below(obj.size()); if (mod[j].kind != m.kind) break; Mod mm = mod[j]; assign(o, obj[j].get(), m.kind); mm.ptr = 0; m = mm; log += "assign " + std::to_string(j) + " to " + is + "; "; if (report) c.count(i == j ? "self_assignments" : "assignments"); break; }
      default: if (obj.size() > 1 && r.chance(40)) { obj.erase(obj.begin() + i); mod.erase(mod.begin() + i); log += "delete " + is + "; "; } break;
    }
    size_t deep = r.below(obj.size()); for (size_t q = 0; q < obj.size(); ++q) check(q, q == deep);
    if (report) c.count("operations");
  }
  if (report) { c.nontrivial(log); c.sample(log); }
}
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  cases([&](Rng &r, long k) {
    uint64_t s = r.next(); int steps = r.chance(5) ? 400 : r.range(5, 60);
    Capture ce(std::cerr);
    history(s, true, steps);
    if (k % 8 == 0) leakcheck("leak", "history " + std::to_string(s), [&] { history(s, false, steps); ce.b.str(""); });
  });
  c.finish(); return 0;
}
