#include "h.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <memory>
#include <sys/stat.h>
#include "ElementsKernel/Exception.h"
#include "XYDataset/AsciiParser.h"
#include "XYDataset/CachedProvider.h"
#include "XYDataset/FileSystemProvider.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/XYDataset.h"
using namespace Euclid::XYDataset;
typedef Elements::Exception Ex;
using VS = std::vector<std::string>;
using H::str;
static std::string word(bool slash, int maxlen = 4) {
  static const char a[] = "abcZ. -_0"; std::string s; size_t n = H::below(maxlen + 1);
  auto& p = H::strs(); if (!p.empty() && H::below(6) == 0) { s = p[H::below(p.size())]; if (!slash) s.erase(std::remove(s.begin(), s.end(), '/'), s.end()); return s; }
  for (size_t i = 0; i < n; ++i) s += slash && H::below(3) == 0 ? '/' : a[H::below(sizeof a - 1)];
  return s;
}
static std::string join(const VS& g, const std::string& n) { std::string t; for (auto& x : g) t += x + "/"; return t + n; }
static bool badw(const std::string& s) { return s.empty() || s.find('/') != std::string::npos; }
static VS split(const std::string& t) { VS r{""}; for (char c : t) if (c == '/') r.push_back(""); else r.back() += c; return r; }
static void names() {
  for (long k = 0; k < H::scale(20000, 400000); ++k) {
    VS g; for (size_t i = H::below(4); i > 0; --i) { auto w = word(H::below(12) == 0); if (w.empty() && H::below(6)) w = "g"; g.push_back(w); }
    if (H::below(4) == 0) for (auto& w : g) w = H::below(2) ? "a" : "b";
    std::string n = word(H::below(12) == 0); if (n.empty() && H::below(6)) n = "n";
    H::input("QualifiedName(" + str(g) + ", " + n + ")", !g.empty());
    bool bad = badw(n); for (auto& x : g) bad |= badw(x);
    H::throws<Ex>([&] {
      QualifiedName q{g, n}; if (bad) return;
      H::check(q.groups() == g && q.datasetName() == n, "parts of the name"); H::eq(q.qualifiedName(), join(g, n), "text of the name");
      QualifiedName t{join(g, n)}; H::check(t.groups() == g && t.datasetName() == n && t.qualifiedName() == join(g, n), "parts of the name from its text");
      H::check(t == q && !(t != q) && t.hash() == q.hash() && !(t < q) && !(q < t) && std::hash<QualifiedName>()(t) == q.hash(), "equal texts give equal names");
      std::ostringstream o; o << q; H::eq(o.str(), join(g, n), "streamed name");
      VS g2 = g; std::string n2 = n;
      switch (H::below(6)) { case 4: if (!g2.empty()) { size_t i = H::below(g2.size()); n2 = g2[i]; g2.resize(i); } break; case 0: g2.push_back(n); n2 = "x"; break; case 1: if (!g2.empty()) { n2 = g2.back(); g2.pop_back(); } break; case 2: n2 += "y"; break; case 3: g2 = VS(g.rbegin(), g.rend()); break; default: g2.push_back("b"); }
      QualifiedName u{g2, n2}; if (H::below(2)) u.hash();
      bool same = join(g2, n2) == join(g, n);
      H::input("names " + join(g, n) + " and " + join(g2, n2));
      H::check((u == q) == same && (u != q) == !same && (q == u) == same, "equality of names");
      H::check(same ? !(u < q) && !(q < u) : (u < q) != (q < u), "exactly one of two different names is first");
      H::eq(QualifiedName::AlphabeticalComparator()(q, u), join(g, n) < join(g2, n2), "alphabetical order");
      auto belongs = [](VS a, VS gg, std::string gn) { gg.push_back(gn); return a.size() >= gg.size() && std::equal(gg.begin(), gg.end(), a.begin()); };
      H::eq(q.belongsInGroup(u), belongs(g, g2, n2), "belongsInGroup"); H::eq(u.belongsInGroup(q), belongs(g2, g, n), "belongsInGroup"); H::eq(q.belongsInGroup(q), false, "a name in itself");
      QualifiedName w{VS(g), "w"}; QualifiedName c{w}; c.hash(); c = q; H::check(c == q && c.hash() == q.hash(), "assigned name");
      std::map<QualifiedName, int> m; m[q] = 1; m[u] = 2; H::check(m.at(q) == (same ? 2 : 1) && m.at(u) == 2 && m.size() == (same ? 1u : 2u), "names as map keys");
    }, bad, "QualifiedName(groups, name)");
    std::string t = word(true, 8); auto parts = split(t); bad = false; for (auto& x : parts) bad |= x.empty();
    H::input("QualifiedName(" + t + ")");
    H::throws<Ex>([&] { QualifiedName q{t}; if (bad) return; H::eq(q.qualifiedName(), t, "text"); H::eq(q.datasetName(), parts.back(), "name"); auto gg = parts; gg.pop_back(); H::check(q.groups() == gg, "groups"); }, bad, "QualifiedName(text)");
  }
}
static void sets() {
  for (long k = 0; k < H::scale(3000, 50000); ++k) {
    size_t n = H::below(7), m = H::below(5) ? n : H::below(7); std::vector<double> x(n), y(m);
    for (auto& v : x) v = H::below(5); for (auto& v : y) v = H::unit();
    H::input("XYDataset x=" + str(x) + " y=" + str(y), n > 1);
    H::throws<Ex>([&] {
      auto d = XYDataset::factory(x, y); if (n != m) return;
      std::vector<std::pair<double, double>> p; for (size_t i = 0; i < n; ++i) p.emplace_back(x[i], y[i]);
      auto e = XYDataset::factory(p); XYDataset f{p}, c{d};
      for (auto* s : {&d, &e, &f, &c}) { H::eq(s->size(), n, "size"); H::check(std::vector<std::pair<double, double>>(s->begin(), s->end()) == p, "pairs in order"); if (n) H::check(s->front() == p.front() && s->back() == p.back(), "first and last pair"); }
    }, n != m, "factory(x, y)");
  }
}
struct Fake : XYDatasetProvider {
  std::map<std::string, std::vector<std::pair<double, double>>> d; std::map<std::string, int> gets, lists; 
  std::vector<QualifiedName> listContents(const std::string& g) override { ++lists[g]; std::vector<QualifiedName> r; for (auto& x : d) if (x.first.compare(0, g.size(), g) == 0) r.emplace_back(x.first); return r; }
  std::unique_ptr<XYDataset> getDataset(const QualifiedName& q) override { ++gets[q.qualifiedName()]; auto i = d.find(q.qualifiedName()); return i == d.end() ? nullptr : std::unique_ptr<XYDataset>(new XYDataset(i->second)); }
  std::string getParameter(const QualifiedName& q, const std::string& k) override { return q.qualifiedName() + "|" + k; }
};
static void cache() {
  VS all{"a", "b", "g/a", "g/b", "g/h/a", "h/a", "z/z"};
  for (long k = 0; k < H::scale(600, 10000); ++k) {
    auto f = std::make_shared<Fake>();
    for (auto& n : all) if (H::below(2)) for (size_t i = H::below(4) + 1; i > 0; --i) f->d[n].emplace_back(i, H::below(9));
    CachedProvider c{f}; std::string hist = "cache over " + std::to_string(f->d.size()) + " sets:";
    for (int j = 0; j < 25; ++j) {
      auto n = all[H::below(all.size())]; hist += " " + n; H::input(hist, j > 2);
      QualifiedName q{n}; if (H::below(2)) q.hash();
      if (H::below(3)) { auto p = c.getDataset(q); auto i = f->d.find(n); H::check((p != nullptr) == (i != f->d.end()), "cached set is there exactly when the provider has it"); if (p) { H::check(std::vector<std::pair<double, double>>(p->begin(), p->end()) == i->second, "cached set equals the original"); } H::check(f->gets[n] <= 1, "the provider is asked once per name"); }
      else { std::string g = H::below(3) ? n.substr(0, 1) : ""; auto l = c.listContents(g); Fake tmp; tmp.d = f->d; auto e = tmp.listContents(g); H::check(l == e, "cached listing equals the original"); H::check(f->lists[g] <= 1, "the provider is asked once per group"); }
      H::eq(c.getParameter(q, "K"), n + "|K", "parameter of the provider");
    }
  }
}
static void rmtree(const std::string& d) { if (d.compare(0, 10, "/tmp/vxyd.") == 0) { if (system(("rm -rf -- '" + d + "'").c_str())) {} } }
struct Tree { std::string root, log; std::map<std::string, std::vector<std::pair<double, double>>> data; VS order; int uniq = 0; };
static void fill(Tree& t, const std::string& rel, int depth) {
  std::string dir = t.root + "/" + rel; struct Ent { std::string n; bool d; }; std::vector<Ent> es; std::set<std::string> used;
  for (size_t i = H::below(depth ? 4 : 5) + 1; i > 0; --i) { std::string n(1, "abcdmz"[H::below(6)]); if (H::below(3) == 0) n += std::to_string(H::below(3)); bool d = depth < 2 && H::below(3) == 0; if (!used.insert(n).second) continue; es.push_back({d ? n : n + ".txt", d}); }
  std::sort(es.begin(), es.end(), [](const Ent& a, const Ent& b) { return a.n < b.n; });
  std::vector<Ent> ord, rest = es;
  if (H::below(2)) {
    std::ofstream o(dir + "order.txt"); o << "# order of things\n";
    for (size_t i = H::below(es.size() + 1); i > 0; --i) { size_t j = H::below(rest.size()); ord.push_back(rest[j]); o << (H::below(2) ? "  " : "") << rest[j].n << (H::below(2) ? (H::below(2) ? " # here\n" : "#here\n") : (H::below(3) ? "\n" : " \t\n")); rest.erase(rest.begin() + j); if (H::below(4) == 0) o << "nothing" << i << "\n\n"; }
  }
  for (auto& r : rest) ord.push_back(r);
  t.log += " " + rel + "{"; for (auto& e : ord) t.log += e.n + " "; t.log += "}";
  for (auto& e : ord) {
    if (e.d) { mkdir((dir + e.n).c_str(), 0700); fill(t, rel + e.n + "/", depth + 1); continue; }
    std::ofstream o(dir + e.n); std::string name = e.n.substr(0, e.n.size() - 4);
    int kind = H::below(6);
    if (kind == 5) { o << "this is not a data set\n"; continue; }
    if (kind == 4) { o << "1 2 3\n4 5 6\n"; continue; }
    if (kind == 1) { name = "N" + std::to_string(t.uniq++); static const char *head[] = {"# NAME : ", "#NAME:", "  #  NAME :\t"}, *tail[] = {"\n", " \n", "\t \n"}; o << head[H::below(3)] << name << tail[H::below(3)]; }
    if (kind == 2) { name = "O" + std::to_string(t.uniq++); o << "\n# " << name << "\n"; }
    if (kind == 3) o << "# some comment with several words\n";
    o << "# P : v" << e.n << "\n";
    std::vector<std::pair<double, double>> d; for (size_t i = H::below(4) + 1; i > 0; --i) { d.emplace_back((double)H::below(100), H::below(100) / 8.0); o << d.back().first << (H::below(2) ? " " : "  ") << d.back().second << "\n"; if (H::below(5) == 0) o << "\n"; }
    std::string q = rel + name; if (t.data.count(q)) { o.close(); std::ofstream x(dir + e.n); x << "again\n"; continue; }
    t.data[q] = d; t.order.push_back(q); t.data["P:" + q] = {}; t.log += " (" + q + ":" + e.n + ")"; t.data[std::string("F:") + q + ":v" + e.n] = {};
  }
}
static void files() {
  char tmpl[] = "/tmp/vxyd.XXXXXX"; std::string base = mkdtemp(tmpl);
  for (long k = 0; k < H::scale(120, 1500); ++k) {
    Tree t; t.root = base + "/" + std::to_string(k); mkdir(t.root.c_str(), 0700); fill(t, "", 0);
    H::input("directory" + t.log, t.order.size() > 2);
    std::string slashes[] = {"", "/", "//"};
    FileSystemProvider p{t.root + slashes[H::below(3)], std::unique_ptr<FileParser>(new AsciiParser)};
    std::set<std::string> groups{""}; for (auto& q : t.order) { size_t i = 0; while ((i = q.find('/', i + 1)) != std::string::npos) groups.insert(q.substr(0, i)); }
    groups.insert("nowhere"); groups.insert("a"); 
    for (auto& g : groups) for (auto& a : {g, g + "/", "/" + g, "//" + g + "//"}) {
      VS e, r; for (auto& q : t.order) if (g.empty() || q.compare(0, g.size() + 1, g + "/") == 0) e.push_back(q);
      for (auto& q : p.listContents(a)) r.push_back(q.qualifiedName());
      if (r != e) { std::string w = "listing of group '" + a + "' is " + str(r) + " expected " + str(e); rmtree(base); H::fail(w); }
    }
    for (auto& q : t.order) {
      auto d = p.getDataset(QualifiedName{q});
      bool ok = d && std::vector<std::pair<double, double>>(d->begin(), d->end()) == t.data[q];
      bool pv = t.data.count("F:" + q + ":" + p.getParameter(QualifiedName{q}, "P")) != 0;
      if (!ok || !pv) { rmtree(base); H::fail((ok ? "parameter of " : "data set of ") + q); }
    }
    if (p.getDataset(QualifiedName{"not/there"})) { rmtree(base); H::fail("a data set for an unknown name"); }
    rmtree(t.root);
  }
  bool thrown = false; try { FileSystemProvider p{base + "/none", std::unique_ptr<FileParser>(new AsciiParser)}; } catch (const Ex&) { thrown = true; }
  rmtree(base);
  H::input("missing root"); H::check(thrown, "a missing root directory is refused");
}
int main(int argc, char** argv) {
  return H::run(argc, argv, [](const std::string&) { names(); sets(); cache(); files(); });
}
