#include "h.h"
#include <limits>
#include <memory>
#include "ElementsKernel/Exception.h"
#include "Table/AsciiReader.h"
#include "Table/AsciiWriter.h"
using namespace Euclid::Table;
namespace N = Euclid::NdArray;
typedef Elements::Exception Ex;
typedef std::string S;
static const char* COMMENTS[] = {"#", "//", "%%", "#!"};
static S text(bool name, const S& comment) {
  static const char* parts[] = {"a", "B", "xyz", "1", "-2.5", " ", "  ", "\"", "\\", ",", "(", ")", "-", "'", "<2>", "\t", ".", "true", "\\\"", "int", "=", ";", "e9"};
  for (;;) {
    S t; for (size_t i = 0, k = 1 + H::below(H::below(3) ? 2 : 5); i < k; ++i) t += parts[H::below(name && H::below(3) ? 6 : 23)];
    if (t.find(comment) != S::npos || t.find("Column:") == 0) continue;
    if (t.find_first_not_of(" \t") == S::npos) continue;
    return t;
  }
}
static S trimmed(S t) { size_t a = t.find_first_not_of(" \t"), b = t.find_last_not_of(" \t"); return a == S::npos ? S() : t.substr(a, b - a + 1); }
static const std::type_index TYPES[] = {typeid(bool), typeid(int32_t), typeid(int64_t), typeid(float), typeid(double), typeid(S), typeid(std::vector<bool>), typeid(std::vector<int32_t>), typeid(std::vector<int64_t>),
  typeid(std::vector<float>), typeid(std::vector<double>), typeid(N::NdArray<int32_t>), typeid(N::NdArray<int64_t>), typeid(N::NdArray<float>), typeid(N::NdArray<double>)};
template <typename T> T num();
template <> bool num<bool>() { return H::below(2); }
template <> int32_t num<int32_t>() { static const int32_t e[] = {INT32_MIN, INT32_MAX, 0, -1, 1}; return H::below(3) ? int32_t(H::below(2001)) - 1000 : e[H::below(5)]; }
template <> int64_t num<int64_t>() { static const int64_t e[] = {INT64_MIN, INT64_MAX, 0, -1, (1LL << 53) + 1}; return H::below(3) ? int64_t(H::below(2001)) - 1000 : e[H::below(5)]; }
template <> double num<double>() {
  static const double e[] = {0., 0.1, 1. / 3, 1e-300, -1e300, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.123, 1e22, -1., 3e-5, HUGE_VAL, -HUGE_VAL};
  return H::below(2) ? e[H::below(13)] : H::below(2) ? (H::unit() - .5) * 100 : double(H::below(100));
}
template <> float num<float>() { static const float e[] = {0.f, 0.1f, 1.f / 3, 1e-30f, 3.4028235e38f, 16777217.f, 1234567.9f}; return H::below(2) ? e[H::below(7)] : float(H::unit() * 10); }
template <typename T> Row::cell_type vec() { std::vector<T> v; for (size_t i = 0, k = H::below(5); i < k; ++i) v.push_back(num<T>()); return v; }
template <typename T> Row::cell_type arr() {
  std::vector<size_t> sh; size_t n = 1; for (size_t i = 0, k = 1 + H::below(3); i < k; ++i) { sh.push_back(1 + H::below(3)); n *= sh.back(); }
  std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(num<T>());
  return N::NdArray<T>(sh, v);
}
static Row::cell_type cell(size_t t, const S& c) {
  switch (t) {
  case 0: return num<bool>(); case 1: return num<int32_t>(); case 2: return num<int64_t>(); case 3: return num<float>(); case 4: return num<double>(); case 5: return text(false, c);
  case 6: return vec<bool>(); case 7: return vec<int32_t>(); case 8: return vec<int64_t>(); case 9: return vec<float>(); case 10: return vec<double>();
  case 11: return arr<int32_t>(); case 12: return arr<int64_t>(); case 13: return arr<float>(); default: return arr<double>();
  }
}
struct Show : boost::static_visitor<S> {
  template <typename T> S operator()(const T& v) const { std::ostringstream o; o.precision(17); o << v; return o.str(); }
  S operator()(const S& v) const { return "'" + v + "'"; }
  template <typename T> S operator()(const std::vector<T>& v) const { S r = "["; for (auto x : v) r += (*this)(x) + " "; return r + "]"; }
  template <typename T> S operator()(const N::NdArray<T>& v) const { S r = "<"; for (auto x : v.shape()) r += std::to_string(x) + " "; r += ">"; for (auto& x : v) r += (*this)(T(x)) + " "; return r; }
};
static S show(const Row::cell_type& c) { return boost::apply_visitor(Show{}, c); }
static Table draw(const S& comment, std::vector<ColumnDescription>& desc) {
  std::vector<size_t> ty; std::set<S> seen; desc.clear();
  for (size_t i = 0, k = 1 + H::below(5); i < k; ++i) {
    S n; do n = text(true, comment); while (seen.count(n));
    seen.insert(n); ty.push_back(H::below(2) ? H::below(6) : H::below(15));
    S unit = H::below(2) ? S() : trimmed(text(true, comment)), de = H::below(2) ? S() : trimmed(text(false, comment) + " " + text(false, comment));
    desc.emplace_back(n, TYPES[ty.back()], unit, de);
  }
  auto info = std::make_shared<ColumnInfo>(desc);
  std::vector<Row> rows;
  for (size_t r = 0, k = 1 + H::below(6); r < k; ++r) { std::vector<Row::cell_type> v; for (size_t t : ty) v.push_back(cell(t, comment)); rows.emplace_back(v, info); }
  return Table(rows);
}
static void sameRow(const Row& a, const Row& b, const S& w) {
  H::check(a.size() == b.size(), w + ": number of cells");
  for (size_t i = 0; i < a.size(); ++i) H::check(a[i] == b[i], w + ", column " + std::to_string(i) + ": wrote " + show(a[i]) + ", read " + show(b[i]));
}
static void sameInfo(const std::vector<ColumnDescription>& d, const ColumnInfo& i, bool all) {
  H::check(i.size() == d.size(), "number of columns read: " + std::to_string(i.size()));
  for (size_t k = 0; k < d.size(); ++k) {
    auto& c = i.getDescription(k);
    H::check(c.name == d[k].name, "name of column " + std::to_string(k) + ": wrote '" + d[k].name + "', read '" + c.name + "'");
    H::check(c.type == d[k].type, "type of column " + d[k].name);
    if (all) {
      H::check(c.unit == d[k].unit, "unit of column " + d[k].name + ": wrote '" + d[k].unit + "', read '" + c.unit + "'");
      H::check(c.description == d[k].description, "description of column " + d[k].name + ": wrote '" + d[k].description + "', read '" + c.description + "'");
    }
  }
}
static void roundTrip(long n) {
  for (long it = 0; it < n; ++it) {
    S comment = COMMENTS[H::below(4)];
    std::vector<ColumnDescription> desc; Table t = draw(comment, desc);
    bool showInfo = H::below(5) > 0, com = H::below(2);
    std::stringstream s;
    size_t cut = H::below(2) ? t.size() : 1 + H::below(t.size());
    {
      AsciiWriter w(s); w.setCommentIndicator(comment).showColumnInfo(showInfo);
      if (com) w.addComment("a comment\nof two lines");
      std::vector<Row> a(t.begin(), t.begin() + cut), b(t.begin() + cut, t.end());
      H::input("table of " + std::to_string(t.size()) + " rows about to be written with comment indicator " + comment, t.size() > 1);
      w.addData(Table(a)); if (b.size()) w.addData(Table(b));
      std::vector<ColumnDescription> other = desc; other.back().name += "x";
      std::vector<Row::cell_type> v(t[0].begin(), t[0].end()); auto oi = std::make_shared<ColumnInfo>(other); Table bad(std::vector<Row>{Row(v, oi)});
      S before = s.str(); H::throws<Ex>([&] { w.addData(bad); }, true, "appending a table of other columns"); H::check(s.str() == before, "a refused table was written");
      H::throws<Ex>([&] { w.addComment("late"); }, true, "a comment after the data"); H::throws<Ex>([&] { w.setCommentIndicator("x"); }, true, "a new comment indicator after the data");
    }
    S txt = s.str();
    if (H::below(6) == 0) txt.resize(txt.size() - 1);   // no newline at the end
    H::input("text:\n" + txt.substr(0, 1500), t.size() > 1);
    std::stringstream in(txt);
    AsciiReader r(in); r.setCommentIndicator(comment);
    std::vector<std::type_index> ty; std::vector<S> nm; for (auto& d : desc) { ty.push_back(d.type); nm.push_back(d.name); }
    if (!showInfo) r.fixColumnTypes(ty);
    if (H::below(4) == 0) r.fixColumnNames(nm);
    if (H::below(3) == 0) { S c = r.getComment(); if (com) H::check(c == "a comment\nof two lines", "comment read: " + c); }
    size_t pos = 0; bool first = true;
    while (true) {
      if (H::below(2)) H::check(r.rowsLeft() == t.size() - pos, "rows left after " + std::to_string(pos) + ": " + std::to_string(r.rowsLeft()));
      if (H::below(2)) H::check(r.hasMoreRows() == (pos < t.size()), "more rows after " + std::to_string(pos));
      if (first || H::below(4) == 0) sameInfo(desc, r.getInfo(), showInfo);
      if (pos == t.size()) { H::throws<Ex>([&] { r.read(); }, true, "reading after the last row"); break; }
      first = false;
      long k = H::below(3) ? 1 + H::below(3) : -1;
      if (H::below(3) == 0) { r.skip(k); pos = k < 0 ? t.size() : std::min(t.size(), pos + k); continue; }
      Table p = r.read(k);
      size_t e = k < 0 ? t.size() : std::min(t.size(), pos + k);
      H::check(p.size() == e - pos, "rows read from " + std::to_string(pos) + ": " + std::to_string(p.size()));
      for (size_t i = 0; i < p.size(); ++i) sameRow(t[pos + i], p[i], "row " + std::to_string(pos + i));
      pos = e;
    }
  }
}
/// cells written by hand: the value read is the one the text denotes, or the line is refused
static void cells() {
  struct C { size_t t; const char* text; bool good; Row::cell_type v; };
  std::vector<C> cs = {
    {0, "true", true, true}, {0, "t", true, true}, {0, "yes", true, true}, {0, "y", true, true}, {0, "1", true, true}, {0, "false", true, false}, {0, "f", true, false}, {0, "no", true, false}, {0, "n", true, false}, {0, "0", true, false},
    {0, "2", false, {}}, {0, "tru", false, {}}, {0, "10", false, {}}, {0, "-1", false, {}}, {0, "off", false, {}}, {1, "12", true, int32_t(12)}, {1, "-12", true, int32_t(-12)}, {1, "1.5", false, {}}, {1, "12a", false, {}}, {1, "2147483648", false, {}}, {1, "a", false, {}},
    {1, "0x10", false, {}}, {1, "--1", false, {}}, {1, "1e3", false, {}}, {2, "9223372036854775807", true, int64_t(INT64_MAX)}, {2, "9223372036854775808", false, {}}, {2, "1.0", false, {}}, {2, "4294967296", true, int64_t(1LL << 32)}, {3, "0.5", true, 0.5f}, {3, "1e40x", false, {}}, {4, "1e-3", true, 1e-3}, {4, "1,5", false, {}}, {4, "1.5.2", false, {}},
    {4, "12345678901234567890", true, 12345678901234567890.}, {4, "-.5", true, -.5}, {4, "five", false, {}}, {6, "1,0,true", true, std::vector<bool>{true, false, true}}, {6, "1,2", false, {}}, {7, "1,2,-3", true, std::vector<int32_t>{1, 2, -3}}, {7, "7", true, std::vector<int32_t>{7}}, {7, "1,,2", false, {}}, {7, "1,2,", false, {}}, {7, ",1", false, {}},
    {7, "1,2.5", false, {}}, {7, "1;2", false, {}}, {8, "5000000000,1", true, std::vector<int64_t>{5000000000, 1}}, {9, "0.5,0.25", true, std::vector<float>{.5f, .25f}}, {10, "0.1,1e5", true, std::vector<double>{.1, 1e5}}, {10, "0.1,,1", false, {}}, {11, "<2>1,2", true, N::NdArray<int32_t>({2}, {1, 2})}, {11, "<2,1>1,2", true, N::NdArray<int32_t>({2, 1}, {1, 2})},
    {11, "<2>1", false, {}}, {11, "<2>1,2,3", false, {}}, {11, "2>1,2", false, {}}, {11, "<2", false, {}}, {11, "<-1,-1>1", false, {}}, {11, "<-1>1", false, {}}, {11, "<a>1", false, {}}, {14, "<1,2>.5,1", true, N::NdArray<double>({1, 2}, {.5, 1.})}, {5, "abc", true, S("abc")}, {5, "\"a b\"", true, S("a b")}, {5, "\"a \\\"b\\\"\"", true, S("a \"b\"")}};
  const char* kw[15][2] = {{"bool", "boolean"}, {"int", "int32"}, {"long", "int64"}, {"float", "float"}, {"double", "double"}, {"string", "string"}, {"[bool]", "[boolean]"}, {"[int]", "[int32]"}, {"[long]", "[int64]"}, {"[float]", "[float]"}, {"[double]", "[double]"}, {"[int+]", "[int32+]"}, {"[long+]", "[int64+]"}, {"[float+]", "[float+]"}, {"[double+]", "[double+]"}};
  for (auto& c : cs) for (int col = 0; col < 2; ++col) for (int form = 0; form < 2; ++form) {
    S line = col ? S("7  ") + c.text : S(c.text) + "\t7 ";
    S txt = S("# Column: ") + (col ? "A int" : S("X ") + kw[c.t][form]) + "\n# Column: " + (col ? S("X ") + kw[c.t][form] : "A int") + "\n# " + (col ? "A X" : "X A") + "\n\n" + line + "\n";
    H::input("cell " + S(c.text) + " of type " + kw[c.t][form], true);
    std::stringstream in(txt); AsciiReader r(in); bool threw = false;
    try {
      Table t = r.read();
      H::check(c.good, "a malformed cell was read as " + show(t[0][col]));
      H::check(t.size() == 1 && t[0][col] == c.v && t[0][1 - col] == Row::cell_type(int32_t(7)), "value read: " + show(t[0][col]));
    } catch (const std::exception& e) { threw = true; }
    H::check(threw == !c.good, "a good cell was refused");
  }
}
/// texts by hand: comments, blank lines, lines of other lengths, anywhere
static void lines(long n) {
  for (long it = 0; it < n; ++it) {
    S comment = COMMENTS[H::below(3)], txt; size_t cols = 1 + H::below(3);
    std::vector<std::vector<S>> rows; int bad = -1;
    bool names = H::below(2);
    if (names) { txt += comment; for (size_t i = 0; i < cols; ++i) txt += " n" + std::to_string(i); txt += "\n"; }
    for (size_t i = 0, k = 1 + H::below(9); i < k; ++i) {
      int w = H::below(12);
      if (w == 0) txt += "\n";
      else if (w == 1) txt += "   \t \n";
      else if (w == 2 && rows.size()) txt += "  " + comment + " remark 1 2 3\n";
      else {
        size_t c = cols; if (rows.size() && bad < 0 && H::below(12) == 0) { c = H::below(2) ? cols + 1 : cols - 1; if (c) bad = rows.size(); else c = cols; }
        std::vector<S> r; S l = H::below(3) ? "" : "  ";
        for (size_t j = 0; j < c; ++j) { r.push_back("v" + std::to_string(H::below(100))); l += r.back() + (H::below(2) ? " " : "\t  "); }
        if (H::below(5) == 0) l += comment + "rest " + comment;
        rows.push_back(r); txt += l + "\n";
      }
    }
    if (H::below(3) == 0 && txt.size() && txt.back() == '\n') txt.resize(txt.size() - 1);
    H::input("text:\n" + txt, rows.size() > 1);
    std::stringstream in(txt); AsciiReader r(in); r.setCommentIndicator(comment);
    if (rows.empty()) { H::throws<Ex>([&] { r.read(); }, true, "a text without data"); continue; }
    size_t pos = 0;
    while (pos < rows.size()) {
      H::check(r.rowsLeft() == rows.size() - pos && r.hasMoreRows(), "rows left after " + std::to_string(pos));
      long k = H::below(4) ? 1 + H::below(2) : -1; size_t e = k < 0 ? rows.size() : std::min(rows.size(), pos + k);
      if (H::below(3) == 0) { r.skip(k); pos = e; continue; }
      if (bad >= int(pos) && bad < int(e)) { H::throws<std::exception>([&] { r.read(k); }, true, "a line with another number of cells"); break; }
      Table t = r.read(k); H::check(t.size() == e - pos, "rows read");
      for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < cols; ++j) H::check(t[i][j] == Row::cell_type(rows[pos + i][j]), "cell " + std::to_string(j) + " of row " + std::to_string(pos + i) + ": " + show(t[i][j]));
      if (names) H::check(r.getInfo().getDescription(cols - 1).name == "n" + std::to_string(cols - 1), "names of the columns");
      pos = e;
    }
    if (pos == rows.size()) H::check(!r.hasMoreRows() && r.rowsLeft() == 0, "rows after the last");
  }
}
static void refusals() {
  auto rd = [](const S& t, std::function<void(AsciiReader&)> f = nullptr) { std::stringstream in(t); AsciiReader r(in); if (f) f(r); r.read(); };
  H::input("malformed headers", true);
  H::throws<Ex>([&] { rd("# Column: A int\n# Column: A int\n1 2\n"); }, true, "two descriptions of one column");
  H::throws<Ex>([&] { rd("# A A\n1 2\n"); }, true, "two columns of one name");
  H::throws<Ex>([&] { rd("# Column: A integer\n1\n"); }, true, "an unknown type");
  H::throws<Ex>([&] { rd("# A B\n\n"); }, true, "no data");
  H::throws<Ex>([&] { rd("1 2\n", [](AsciiReader& r) { r.fixColumnNames({"a"}); }); }, true, "fewer names than columns");
  H::throws<Ex>([&] { rd("1 2\n", [](AsciiReader& r) { r.fixColumnTypes({typeid(int32_t), typeid(int32_t), typeid(int32_t)}); }); }, true, "more types than columns");
  H::throws<Ex>([&] { rd("1 2\n", [](AsciiReader& r) { r.fixColumnNames({"a", "a"}); }); }, true, "two fixed names alike");
  std::stringstream in("# Column: \"a b\" int (km / s) - the speed\n# Column: c double\n\n1 2\n"); AsciiReader r(in); auto& i = r.getInfo();
  H::check(i.getDescription(0).name == "a b" && i.getDescription(0).type == typeid(int32_t) && i.getDescription(1).name == "c" && i.getDescription(1).type == typeid(double), "names come from the descriptions when no line repeats them");
}
int main(int c, char** v) {
  return H::run(c, v, [](const std::string&) { cells(); refusals(); lines(H::scale(400, 20000)); roundTrip(H::scale(600, 40000)); });
}
