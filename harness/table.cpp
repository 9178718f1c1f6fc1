#include "h.h"
#include <algorithm>
#include <memory>
#include "ElementsKernel/Exception.h"
#include "Table/ColumnInfo.h"
#include "Table/Row.h"
#include "Table/Table.h"
using namespace Euclid::Table;
typedef Elements::Exception Ex;
typedef Row::cell_type Cell;
static const std::type_index TYPES[] = {typeid(bool), typeid(int32_t), typeid(int64_t), typeid(float), typeid(double), typeid(std::string), typeid(std::vector<bool>), typeid(std::vector<int32_t>), typeid(std::vector<int64_t>), typeid(std::vector<float>), typeid(std::vector<double>), typeid(Euclid::NdArray::NdArray<int32_t>), typeid(Euclid::NdArray::NdArray<int64_t>), typeid(Euclid::NdArray::NdArray<float>), typeid(Euclid::NdArray::NdArray<double>)};
static const char* NAMES[] = {"a", "b", "A", "a ", "ab", "x y", "c1", "c2", "c10", "#c", "\"q\"", "-", "0", "tab\tin"};
static const char* BADTEXT[] = {"", "\n", "a\nb", "a\r", "\va", "x\f", "two\nlines\n"};
static const char* TEXTS[] = {"a", "some text", " ", "\t", "\"", "#", "0", "nan", "a,b", "\\v"};
static bool bad(const std::string& s) { return s.empty() || s.find_first_of("\n\r\v\f") != std::string::npos; }
template <typename F> static void refuses(F f, const std::string& w) { H::throws<Ex>(f, true, w.c_str()); }
static std::string q(const std::string& s) { std::string o = "'"; for (char c : s) if (c < 32) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; return o + "'"; }
static Cell make(int t, int k) {
  switch (t) {
  case 0: return Cell(bool(k & 1)); case 1: return Cell(int32_t(k)); case 2: return Cell(int64_t(k)); case 3: return Cell(float(k)); case 4: return Cell(double(k));
  case 5: return Cell(std::string("t") + std::to_string(k));
  case 6: return Cell(std::vector<bool>(k % 3, true)); case 7: return Cell(std::vector<int32_t>(k % 3, k)); case 8: return Cell(std::vector<int64_t>(k % 3, k)); case 9: return Cell(std::vector<float>(k % 3, k)); case 10: return Cell(std::vector<double>(k % 3, k));
  case 11: return Cell(Euclid::NdArray::NdArray<int32_t>({size_t(1 + k % 2)})); case 12: return Cell(Euclid::NdArray::NdArray<int64_t>({size_t(1 + k % 2)})); case 13: return Cell(Euclid::NdArray::NdArray<float>({size_t(1 + k % 2)})); default: return Cell(Euclid::NdArray::NdArray<double>({size_t(1 + k % 2)}));
  }
}
static bool same(const ColumnDescription& a, const ColumnDescription& b) { return a.name == b.name && a.type == b.type && a.unit == b.unit; }
static void columns(const ColumnInfo& ci, const std::vector<ColumnDescription>& d) {
  H::check(ci.size() == d.size(), "number of columns");
  for (size_t i = 0; i < d.size(); ++i) {
    H::check(same(ci.getDescription(i), d[i]) && ci.getDescription(i).description == d[i].description, "column " + std::to_string(i) + " is not the one declared there");
    auto f = ci.find(d[i].name);
    H::check(f && *f == i, "column " + q(d[i].name) + (f ? " found at " + std::to_string(*f) : " not found") + ", declared at " + std::to_string(i));
    H::check(same(ci.getDescription(d[i].name), d[i]) && ci.getDescription(d[i].name).description == d[i].description, "column " + q(d[i].name) + " by name is another one");
  }
  for (auto n : NAMES) {
    bool in = std::any_of(d.begin(), d.end(), [&](const ColumnDescription& c) { return c.name == n; });
    if (in) continue;
    H::check(!ci.find(n), "column " + q(n) + " found, none has that name");
    refuses([&] { ci.getDescription(std::string(n)); }, "a name that no column has");
  }
  for (size_t i : {d.size(), d.size() + 1, size_t(-1)}) refuses([&] { ci.getDescription(i); }, "a position past the last column");
}
static void rowcheck(const Row& r, const std::vector<Cell>& v, const std::vector<ColumnDescription>& d) {
  H::check(r.size() == d.size() && size_t(r.end() - r.begin()) == d.size(), "number of cells");
  for (size_t i = 0; i < d.size(); ++i) {
    H::check(r[i].type() == v[i].type() && r[i] == v[i], "cell " + std::to_string(i) + " is not the one given");
    H::check(std::type_index(r[i].type()) == d[i].type, "type of cell " + std::to_string(i));
    H::check(&r[i] == &r[d[i].name] && &r[i] == &*(r.begin() + i), "cell " + std::to_string(i) + " by name, by position and by iteration differ");
  }
  for (auto n : NAMES) if (std::none_of(d.begin(), d.end(), [&](const ColumnDescription& c) { return c.name == n; })) refuses([&] { r[std::string(n)]; }, "a name that no column has");
  for (size_t i : {d.size(), d.size() + 1, size_t(-1)}) refuses([&] { r[i]; }, "a position past the last cell");
}
static std::vector<ColumnDescription> draw(int n) {
  std::vector<ColumnDescription> d;
  int few = H::below(2) ? 2 + H::below(2) : 15, off = H::below(16 - few);  // half of the time few types, so that neighbours agree
  for (int i = 0; i < n; ++i) d.emplace_back(NAMES[H::below(14)], TYPES[off + H::below(few)], H::below(2) ? "" : "mag", "d" + std::to_string(i));
  return d;
}
static std::string show(const std::vector<ColumnDescription>& d) { std::string s; for (auto& c : d) s += q(c.name) + ":" + c.type.name() + ":" + c.unit + " "; return s; }
static int typeNo(const ColumnDescription& c) { return std::find(TYPES, TYPES + 15, c.type) - TYPES; }
static void descriptions() {
  for (int w = 0; w < 2; ++w) for (std::string n : w ? std::vector<std::string>(BADTEXT, BADTEXT + 7) : std::vector<std::string>(NAMES, NAMES + 14)) {
    H::input("column description of name " + q(n));
    if (bad(n)) { refuses([&] { ColumnDescription c(n); }, "a name that is empty or has vertical white space"); continue; }
    ColumnDescription c(n, typeid(int32_t), "u", "d"), e(n), g(n, typeid(int32_t), "u", "other"), k(n, typeid(int64_t), "u", "d"), m(n, typeid(int32_t), "", "d"), o(n + "x", typeid(int32_t), "u", "d");
    H::check(c.name == n && c.type == typeid(int32_t) && c.unit == "u" && c.description == "d", "fields of the description");
    H::check(e.name == n && e.type == typeid(std::string) && e.unit == "" && e.description == "", "defaults of the description");
    H::check(c == c && c == g && !(c != g) && c != k && !(c == k) && c != m && !(c == m) && c != o && !(c == o), "equality of descriptions");
  }
}
static void sets(long count) {
  H::input("no columns"); refuses([] { ColumnInfo c(std::vector<ColumnDescription>{}); }, "no columns");
  for (long it = 0; it < count; ++it) {
    auto d = draw(1 + H::below(7));
    if (H::below(3)) { std::vector<ColumnDescription> u; for (auto& c : d) if (std::none_of(u.begin(), u.end(), [&](const ColumnDescription& x) { return x.name == c.name; })) u.push_back(c); d = u; }
    H::input("columns " + show(d), d.size() > 1);
    bool dup = false;
    for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < i; ++j) dup |= d[i].name == d[j].name;
    if (dup) { refuses([&] { ColumnInfo c(d); }, "two columns of one name"); continue; }
    auto ci = std::make_shared<ColumnInfo>(d);
    columns(*ci, d);
    // equality
    auto d2 = d; size_t at = H::below(d.size());
    switch (H::below(5)) {
    case 0: break; case 1: d2[at].unit += "x"; break; case 2: d2[at].type = TYPES[(typeNo(d2[at]) + 1) % 15]; break; case 3: d2[at].name = "other"; break; case 4: if (d2.size() > 1) d2.pop_back(); else d2.emplace_back("other"); break;
    }
    if (H::below(3) == 0) d2[H::below(d2.size())].description += "!";
    bool eq = d.size() == d2.size() && std::equal(d.begin(), d.end(), d2.begin(), same);
    auto ci2 = std::make_shared<ColumnInfo>(d2);
    H::check((*ci == *ci2) == eq && (*ci != *ci2) == !eq && (*ci2 == *ci) == eq, "equality with the columns " + show(d2));
    // rows
    std::vector<Row> rows; std::vector<std::vector<Cell>> vals;
    bool other = false;
    for (size_t r = 0, nr = 1 + H::below(4); r < nr; ++r) {
      std::vector<Cell> v; for (auto& c : d) v.push_back(make(typeNo(c), H::below(5)));
      bool ok = true; std::string what = "good";
      size_t k = H::below(d.size());
      switch (H::below(10)) {
      case 0: v.pop_back(); ok = false; what = "a cell less"; break;
      case 1: v.push_back(make(H::below(15), 1)); ok = false; what = "a cell more"; break;
      case 2: { int t = H::below(2) ? H::below(15) : typeNo(d[H::below(d.size())]); if (t != typeNo(d[k])) { v[k] = make(t, 1); ok = false; what = "a cell of the wrong type"; } break; }
      case 3: if (d[k].type == typeid(std::string)) { v[k] = std::string(BADTEXT[H::below(7)]); ok = false; what = "an unusable text"; } break;
      case 4: if (d[k].type == typeid(std::string)) v[k] = std::string(TEXTS[H::below(10)]); break;
      }
      H::input("row (" + what + " at " + std::to_string(k) + ") of columns " + show(d), d.size() > 1);
      if (!ok) { refuses([&] { Row x(v, ci); }, "a row with " + what + " is accepted"); continue; }
      std::shared_ptr<ColumnInfo> use = ci; std::vector<ColumnDescription> ud = d;
      if (H::below(4) == 0 && std::equal(d.begin(), d.end(), d2.begin(), d2.end(), [](const ColumnDescription& a, const ColumnDescription& b) { return a.type == b.type; })) { use = ci2; ud = d2; other |= !eq && !rows.empty() && *rows[0].getColumnInfo() == *ci; }
      Row x(v, use);
      H::check(x.getColumnInfo() == use, "columns of the row");
      rowcheck(x, v, ud); rows.push_back(x); vals.push_back(v);
    }
    H::input("row without columns"); refuses([&] { Row x(std::vector<Cell>{Cell(1)}, nullptr); }, "a row without columns");
    if (rows.empty()) { refuses([&] { Table t(rows); }, "a table without rows"); continue; }
    bool mixed = false;
    for (auto& r : rows) { bool e = r.size() == rows[0].size(); for (size_t i = 0; e && i < r.size(); ++i) e = same(r.getColumnInfo()->getDescription(i), rows[0].getColumnInfo()->getDescription(i)); mixed |= !e; }
    H::input("table of " + std::to_string(rows.size()) + (mixed ? " rows of different columns, " : " rows, ") + "columns " + show(d), rows.size() > 1);
    if (mixed) { refuses([&] { Table t(rows); }, "a table of rows with different columns"); continue; }
    Table t(rows);
    H::check(t.size() == rows.size() && size_t(t.end() - t.begin()) == rows.size(), "number of rows");
    H::check(*t.getColumnInfo() == *rows[0].getColumnInfo(), "columns of the table");
    for (size_t i = 0; i < rows.size(); ++i) {
      H::check(*t[i].getColumnInfo() == *t.getColumnInfo(), "row of other columns");
      for (size_t c = 0; c < rows[i].size(); ++c) H::check(t[i][c] == vals[i][c] && (*(t.begin() + i))[c] == vals[i][c], "cell of row " + std::to_string(i));
    }
    for (size_t i : {t.size(), t.size() + 1, size_t(-1)}) refuses([&] { t[i]; }, "a position past the last row");
  }
}
int main(int c, char** v) { return H::run(c, v, [](const std::string&) {

  descriptions();
  sets(H::scale(1500, 60000));
});
}
