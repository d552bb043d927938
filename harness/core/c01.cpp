// C01: a recording is well-formed XML holding exactly the measurements made
#include "tfx.h"
#include <cerrno>
using namespace vf;

static str g_host = "host"; static int g_hostmode = 0;
extern "C" int gethostname(char *b, size_t n) {
  if (g_hostmode == 1) { memset(b, 1, n); errno = ENAMETOOLONG; return -1; } // what the buffer holds then is not specified
  size_t l = g_host.size(); size_t k = l < n ? l : n;
  memcpy(b, g_host.data(), k); if (k < n) b[k] = 0;     // not terminated if it does not fit
  return 0;
}
static str hostname(Rng &r) {
  static const std::vector<str> v = {"host", "a--b", "--", "---", "----x", "-", "a-", "", "localhost.localdomain", "x<y>&z", "a--", "--a", "-->", "--><output>"};
  if (r.chance(60)) return r.pick(v);
  str s; int n = r.chance(20) ? r.range(200, 300) : r.range(0, 70);
  for (int i = 0; i < n; ++i) s += r.chance(30) ? '-' : (char)('a' + r.below(26));
  return s;
}

int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv);
  if (chdir(c.scratch.c_str())) return 3;
  cases([&](Rng &r, long k) {
    g_host = hostname(r); g_hostmode = r.chance(10);
    std::vector<Meas> ms = anySet(r, 8, true);
    for (auto &m : ms) if (m.isfile()) { str p = printable(r, 12); if (r.chance(60)) p = printable(r, 8) + "/" + p; if (r.chance(20)) p = "/" + p; m.text = p; }
    bool tofile = r.chance(50); str f = c.scratch + "/rec.xml";
    int tret = r.chance(70) ? 0 : r.range(-3, 300), expect = r.chance(70) ? 0 : r.chance(50) ? tret : r.range(-3, 3);
    std::vector<str> args = {"prog"};
    if (expect != 0 || r.chance(20)) { args.push_back("-R"); args.push_back(std::to_string(expect)); }
    if (tofile) { args.push_back("-O"); args.push_back(f); unlink(f.c_str()); if (r.chance(30)) writefile(f, str(r.below(5000), 'x')); }
    Outcome o;
    auto act = [&] { o = runSet(ms, args, tret); };
    if (k % 8 == 0) { size_t z = 0; (void)z; leakcheck("leak", "recording " + show(ms), [&] { Outcome x = runSet(ms, args, tret); }); if (tofile) unlink(f.c_str()); }
    act();
    str text = tofile ? readfile(f) : o.cout;
    str what = show(ms) + " host=" + jsonq(g_host) + (tofile ? " to file" : " to stdout");
    if (o.escaped) { VIOL("exception", "an exception left Main: " << what); return; }
    int want = tret != expect ? tret : 0;
    if (o.ret != want) VIOL("return", "test returned " << tret << ", expected " << expect << ", Main returned " << o.ret << " and not " << want << ": " << what);
    if (tofile && !o.cout.empty()) VIOL("stdout", "output to standard output as well: " << jsonq(o.cout) << ": " << what);
    XmlDoc d = parseXml(text);
    if (!d.ok) { VIOL("malformed", d.error << " in " << jsonq(cut(text, 1500)) << " for " << what); return; }
    if (d.root.tag != "output") VIOL("root", "root is " << d.root.tag);
    if (!blank(d.root.text)) VIOL("strayText", "text between elements " << jsonq(d.root.text) << " for " << what);
    if (d.root.kids.size() != ms.size()) { VIOL("number", d.root.kids.size() << " elements for " << ms.size() << " measurements: " << what); return; }
    for (size_t i = 0; i < ms.size(); ++i) {
      const Node &n = d.root.kids[i]; const Meas &m = ms[i];
      if (n.tag != m.tag()) VIOL("tag", "element " << i << " is " << n.tag << " for " << m.show());
      if (n.a("name") != m.name) VIOL("name", "element " << i << " has name " << jsonq(n.a("name")) << " for " << m.show());
      if (n.a("type") != m.type()) VIOL("type", "element " << i << " has type " << jsonq(n.a("type")) << " for " << m.show());
      if (n.attr.size() != 2) VIOL("attributes", "element " << i << " has " << n.attr.size() << " attributes for " << m.show());
      if (!n.kids.empty()) VIOL("nested", "element " << i << " has nested elements for " << m.show());
      if (n.text != m.content()) VIOL("content." + str(m.type()), "element " << i << " has content " << jsonq(n.text) << " and not " << jsonq(m.content()) << " for " << m.show());
      c.count(str("elements.") + m.type());
      c.nontrivial(m.type() + m.name + "|" + m.content());
    }
    c.count(tofile ? "to_file" : "to_stdout");
    if (k < 3 * c.shards) c.sample(what);
  });
  c.finish(); return 0;
}
