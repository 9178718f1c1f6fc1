#include "h.h"
#include <algorithm>
#include <limits>
#include <map>
#include <memory>
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Real.h"
#include "SourceCatalog/Catalog.h"
#include "SourceCatalog/CatalogFromTable.h"
#include "SourceCatalog/SourceAttributes/Coordinates.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/PhotometryAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshift.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/TableRowAttribute.h"
#include "SourceCatalog/SourceAttributes/TableRowAttributeFromRow.h"
using namespace Euclid::SourceCatalog;
namespace T = Euclid::Table;
typedef Elements::Exception Ex;
typedef std::string S;
template <typename F> static void refuses(F f, bool should, const S& w) { H::throws<Ex>(f, should, w.c_str()); }
static const char* TXT[] = {"a", "A", "b", "1", "01", "-3", "id 7", "x", "y", "long identifier"};
static Source::id_type drawId() {
  switch (H::below(5)) {
  case 0: return Source::id_type(S(TXT[H::below(10)]));
  case 1: { static const int64_t big[] = {0, 1, -1, 1LL << 40, (1LL << 53) + 1, 1LL << 53, INT64_MAX, INT64_MIN, 1LL << 32, (1LL << 32) + 1}; return Source::id_type(big[H::below(10)]); }
  default: return Source::id_type(int64_t(H::below(12)) - 3);
  }
}
static S show(const Source::id_type& i) { std::ostringstream o; o << (i.which() ? "'" : "") << i << (i.which() ? "'" : ""); return o.str(); }
static void catalogues(long n) {
  for (long it = 0; it < n; ++it) {
    size_t k = H::below(9);
    std::vector<Source::id_type> ids; bool dup = false;
    while (ids.size() < k) { auto i = drawId(); bool d = std::count(ids.begin(), ids.end(), i); if (d && H::below(8)) continue; dup |= d; ids.push_back(i); }
    S d = "catalogue of"; for (auto& i : ids) d += " " + show(i);
    H::input(d, k > 1);
    std::vector<Source> src; std::vector<std::shared_ptr<Coordinates>> co;
    for (size_t i = 0; i < k; ++i) { co.push_back(std::make_shared<Coordinates>(i + 0.25, -double(i))); src.emplace_back(ids[i], std::vector<std::shared_ptr<Attribute>>{co[i]}); }
    if (dup) { refuses([&] { Catalog c(src); }, true, "two sources of one identifier"); continue; }
    Catalog c(src);
    H::check(c.size() == k && size_t(c.end() - c.begin()) == k, "number of sources");
    size_t i = 0;
    for (auto& s : c) { H::check(s.getId() == ids[i] && s.getAttribute<Coordinates>() == co[i], "source number " + std::to_string(i) + " in the order of the catalogue"); ++i; }
    for (i = 0; i < k; ++i) { auto f = c.find(ids[i]); H::check(f && f->getId() == ids[i] && f->getAttribute<Coordinates>() == co[i], "source of identifier " + show(ids[i])); }
    for (int j = 0; j < 12; ++j) { auto x = drawId(); if (!std::count(ids.begin(), ids.end(), x)) H::check(!c.find(x), "identifier " + show(x) + ", which no source has, was found"); }
  }
}
struct Other : Attribute {};
struct DeepCoordinates : Coordinates { DeepCoordinates(double a, double b) : Coordinates(a, b) {} };
static void sources(long n) {
  for (long it = 0; it < n; ++it) {
    std::vector<std::shared_ptr<Attribute>> a; S d; int firstC = -1, firstZ = -1, firstD = -1;
    for (size_t i = 0, k = H::below(6); i < k; ++i) {
      int t = H::below(5); d += "CzoDn"[t];
      if (t == 0) a.push_back(std::make_shared<Coordinates>(i, i)); else if (t == 1) a.push_back(std::make_shared<SpectroscopicRedshift>(i, 2. * i)); else if (t == 2) a.push_back(std::make_shared<Other>()); else if (t == 3) a.push_back(std::make_shared<DeepCoordinates>(i, i)); else a.push_back(nullptr);
      if ((t == 0 || t == 3) && firstC < 0) firstC = i;
      if (t == 1 && firstZ < 0) firstZ = i;
      if (t == 3 && firstD < 0) firstD = i;
    }
    H::input("source with attributes " + d, a.size() > 1);
    Source s(Source::id_type(int64_t(it)), a);
    H::check(s.getId() == Source::id_type(int64_t(it)), "identifier of the source");
    H::check(s.getAttribute<Coordinates>() == (firstC < 0 ? nullptr : a[firstC]), "coordinates of the source are not its first coordinates");
    H::check(s.getAttribute<DeepCoordinates>() == (firstD < 0 ? nullptr : a[firstD]), "derived attribute of the source");
    H::check(s.getAttribute<SpectroscopicRedshift>() == (firstZ < 0 ? nullptr : a[firstZ]), "redshift of the source");
    H::check(!s.getAttribute<Photometry>(), "an attribute the source does not have");
    if (firstZ >= 0) { auto z = s.getAttribute<SpectroscopicRedshift>(); H::check(z->getValue() == firstZ && z->getError() == 2. * firstZ, "values of the redshift"); }
    Coordinates c(it + .5, -it); H::check(c.getRa() == it + .5 && c.getDec() == -it, "values of the coordinates");
  }
}
static const char* FIL[] = {"u", "g", "r", "i", "z", "Y", "survey/u", "survey/g", "U"};
static void photometries(long n) {
  for (long it = 0; it < n; ++it) {
    auto f = std::make_shared<std::vector<S>>(); std::vector<FluxErrorPair> v;
    size_t k = H::below(8); bool rep = H::below(4) == 0;
    while (f->size() < k) { S x = FIL[H::below(9)]; if (!rep && std::count(f->begin(), f->end(), x)) continue; f->push_back(x); }
    size_t m = H::below(6) ? k : H::below(9);
    for (size_t i = 0; i < m; ++i) v.emplace_back(double(H::below(5)), double(H::below(3)), H::below(4) == 0, H::below(3) == 0);
    H::input("photometry of filters " + H::str(*f) + " and " + std::to_string(m) + " fluxes", k > 1);
    if (m != k) { refuses([&] { Photometry p(f, v); }, true, "as many fluxes as filters"); continue; }
    Photometry p(f, v);
    const Photometry& cp = p;
    H::check(p.size() == k && p.getFilterNames() == f, "filters of the photometry");
    size_t i = 0;
    auto same = [](const FluxErrorPair& a, const FluxErrorPair& b) { return a.flux == b.flux && a.error == b.error && a.missing_photometry_flag == b.missing_photometry_flag && a.upper_limit_flag == b.upper_limit_flag; };
    for (auto x = cp.begin(); x != cp.end(); ++x, ++i) H::check(i < k && same(*x, v[i]) && x->flux == v[i].flux && x.filterName() == (*f)[i] && x - cp.begin() == ssize_t(i) && (x == cp.end()) == false, "iteration, entry " + std::to_string(i));
    H::check(i == k && cp.end() - cp.begin() == ssize_t(k), "iteration does not visit every filter");
    i = 0; for (auto x = p.begin(); x != p.end(); ++x, ++i) H::check(i < k && same(*x, v[i]) && x.filterName() == (*f)[i], "iteration of a photometry that may be changed");
    i = 0; for (auto x = p.cbegin(); x != p.cend(); ++x, ++i) H::check(i < k && same(*x, v[i]) && x.filterName() == (*f)[i], "constant iteration");
    for (auto name : FIL) {
      auto at = std::find(f->begin(), f->end(), name); auto got = p.find(name);
      if (at == f->end()) H::check(!got, S("filter ") + name + ", which is not there, was found");
      else H::check(got && same(*got, v[at - f->begin()]), S("flux of filter ") + name);
    }
    H::check(!p.find("") || std::count(f->begin(), f->end(), ""), "the empty filter name was found");
    if (k) { size_t j = H::below(k); (*std::next(p.begin(), 0)).flux = 77; H::check(p.find((*f)[0])->flux == 77, "a flux changed through an iterator"); (void)j; }
  }
  H::input("photometry without filter names"); refuses([] { Photometry p(nullptr, {}); }, true, "no filter names");
}
static T::Row::cell_type number(int kind, double x) {
  switch (kind) { case 0: return x; case 1: return float(x); case 2: return int32_t(x); case 3: return int64_t(x); case 4: { std::ostringstream o; o.precision(17); o << x; return o.str(); } default: return bool(x > 0); }
}
static const std::type_index KIND[] = {typeid(double), typeid(float), typeid(int32_t), typeid(int64_t), typeid(S), typeid(bool)};
static void rows(long n) {
  double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
  for (long it = 0; it < n; ++it) {
    // columns: the id at a random place, two columns per filter in a random order
    size_t nf = 1 + H::below(4), nr = 1 + H::below(3);
    std::vector<S> names{"ID", "Z", "ZE"}; for (size_t i = 0; i < nf; ++i) { names.push_back("f" + std::to_string(i)); names.push_back("e" + std::to_string(i)); }
    for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[H::below(i)]);
    std::map<S, int> kind; std::vector<T::ColumnDescription> cd; int idk = H::below(5) ? 2 + H::below(3) : H::below(6);
    for (auto& x : names) { kind[x] = x == "ID" ? idk : H::below(2) ? 0 : H::below(4) ? H::below(5) : 5; cd.emplace_back(x, KIND[kind[x]]); }
    auto ci = std::make_shared<T::ColumnInfo>(cd);
    bool miss = H::below(2), up = H::below(2); double missFlag = -99, upFlag = H::below(2) ? -1 : -99;
    std::vector<std::pair<S, std::pair<S, S>>> map; std::vector<std::pair<S, float>> lim; std::vector<std::pair<S, bool>> conv;
    for (size_t i = 0; i < nf; ++i) { S f = FIL[i]; S k = std::to_string(i); map.push_back({f, {"f" + k, "e" + k}}); lim.push_back({f, float(1 + i)}); conv.push_back({f, H::below(4) == 0}); }
    if (H::below(3) == 0) conv.clear();
    // the filters in another order than the columns
    if (nf > 1 && H::below(2)) { std::swap(map[0], map[nf - 1]); }
    std::vector<T::Row> rs; std::vector<std::map<S, double>> val; std::vector<Source::id_type> ids; bool idBad = idk != 2 && idk != 3 && idk != 4, dup = false;
    static const double F[] = {1, 2.5, 0, -3, -99, 20, 100, 7}; static const double E[] = {1, 0.5, 0, -1, -99, -2, 3, 2};
    S d;
    for (size_t r = 0; r < nr; ++r) {
      std::vector<T::Row::cell_type> cells; std::map<S, double> v;
      for (auto& x : names) {
        if (x == "ID") { int64_t k = H::below(20); Source::id_type id = idk == 4 ? Source::id_type("s" + std::to_string(k)) : Source::id_type(k); dup |= std::count(ids.begin(), ids.end(), id) > 0; ids.push_back(id); cells.push_back(idk == 4 ? T::Row::cell_type("s" + std::to_string(k)) : number(idk, k)); continue; }
        double q = x[0] == 'e' ? E[H::below(H::below(3) ? 2 : 8)] : F[H::below(H::below(3) ? 2 : 8)];
        if (kind[x] <= 1 && x[0] == 'f') { if (H::below(20) == 0) q = nan; else if (H::below(30) == 0) q = H::below(2) ? inf : -inf; }
        if (kind[x] == 2 || kind[x] == 3) q = (int)q;
        if (kind[x] == 5) q = q > 0;
        cells.push_back(number(kind[x], q)); v[x] = q; d += " " + x + "=" + std::to_string(q);
      }
      rs.emplace_back(cells, ci); val.push_back(v); d += ";";
    }
    H::input("rows" + d + (miss ? " missing" : "") + (up ? " upper" : "") + " limit flag " + std::to_string(upFlag) + " conversions " + std::to_string(conv.size()), nf > 1);
    auto pa = std::make_shared<PhotometryAttributeFromRow>(ci, map, miss, missFlag, up, lim, upFlag, conv);
    auto za = std::make_shared<SpectroscopicRedshiftAttributeFromRow>(ci, S("Z"), S("ZE")); auto z1 = std::make_shared<SpectroscopicRedshiftAttributeFromRow>(ci, S("Z"));
    refuses([&] { SpectroscopicRedshiftAttributeFromRow x(ci, S("no"), S("ZE")); }, true, "an unknown redshift column"); refuses([&] { SpectroscopicRedshiftAttributeFromRow x(ci, S("Z"), S("no")); }, true, "an unknown redshift error column");
    refuses([&] { SpectroscopicRedshiftAttributeFromRow x(ci, S("no")); }, true, "an unknown redshift column");
    { auto bad = map; size_t j = H::below(nf); (H::below(2) ? bad[j].second.first : bad[j].second.second) = "no"; refuses([&] { PhotometryAttributeFromRow x(ci, bad, miss, missFlag, up, lim, upFlag, conv); }, true, "an unknown flux or error column"); }
    refuses([&] { CatalogFromTable x(ci, "no", {}); }, true, "an unknown identifier column");
    bool anyBad = false;
    std::vector<std::vector<FluxErrorPair>> want(nr);
    for (size_t r = 0; r < nr; ++r) {
      bool bad = false;
      for (size_t i = 0; i < nf; ++i) {
        double f = val[r][map[i].second.first], e = val[r][map[i].second.second];
        if (!conv.empty() && conv[i].second) {
          if (f == missFlag || std::isnan(f)) { f = missFlag; e = 0; }
          else { f = 3.631e9 * std::pow(10, -0.4 * f); if (e != upFlag) e = 0.4 * f * e * std::log(10); }
        }
        bool mi = miss && (f == missFlag || std::isnan(f)), ul = false;
        if (std::isinf(f) || (!miss && std::isnan(f))) bad = true;
        if (mi) e = 0;
        else if (!up) bad |= e <= 0;
        else { bad |= e == 0; if (e < 0) { ul = true; bad |= f <= 0; e = std::fabs(e == upFlag ? f / lim[i].second : e); } }
        want[r].emplace_back(f, e, mi, ul);
      }
      anyBad |= bad;
      refuses([&] { pa->createAttribute(rs[r]); }, bad, "fluxes of row " + std::to_string(r));
      auto z = za->createAttribute(rs[r]); auto zz = dynamic_cast<SpectroscopicRedshift*>(z.get()); H::check(zz && (float)zz->getValue() == (float)val[r]["Z"] && (float)zz->getError() == (float)val[r]["ZE"], "redshift of row " + std::to_string(r));
      z = z1->createAttribute(rs[r]); zz = dynamic_cast<SpectroscopicRedshift*>(z.get()); H::check(zz && (float)zz->getValue() == (float)val[r]["Z"] && zz->getError() == 0, "redshift without an error column");
    }
    std::vector<std::shared_ptr<AttributeFromRow>> makers{std::make_shared<TableRowAttributeFromRow>(), za}; if (H::below(3)) makers.push_back(pa); else anyBad = false;
    bool withPhot = makers.size() == 3;
    CatalogFromTable ct(ci, "ID", makers);
    T::Table tab(rs);
    if (anyBad || idBad || dup) { refuses([&] { ct.createCatalog(tab); }, true, idBad ? "identifiers that are neither whole numbers nor text" : dup ? "an identifier used twice" : "a row that cannot be a source"); continue; }
    Catalog c = ct.createCatalog(tab);
    H::check(c.size() == nr, "number of sources");
    size_t r = 0;
    for (auto& s : c) {
      H::check(s.getId() == ids[r], "identifier of the source of row " + std::to_string(r));
      H::check(s.getAttribute<SpectroscopicRedshift>() && (float)s.getAttribute<SpectroscopicRedshift>()->getValue() == (float)val[r]["Z"], "redshift of the source of row " + std::to_string(r));
      auto tr = s.getAttribute<TableRowAttribute>(); H::check(bool(tr), "row attribute"); for (size_t k = 0; k < names.size(); ++k) if (kind[names[k]] > 1) H::check(tr->getRow()[k] == rs[r][k], "row kept with the source");
      auto p = s.getAttribute<Photometry>();
      H::check(bool(p) == withPhot, "photometry of the source");
      if (p) {
        H::check(p->size() == nf, "number of filters");
        size_t i = 0;
        for (auto x = p->cbegin(); x != p->cend(); ++x, ++i) {
          auto& w = want[r][i]; S at = "flux of filter " + map[i].first + " of row " + std::to_string(r);
          H::check(x.filterName() == map[i].first && x->missing_photometry_flag == w.missing_photometry_flag && x->upper_limit_flag == w.upper_limit_flag, at + ": name and flags");
          if (!std::isnan(w.flux)) H::near(x->flux, w.flux, at.c_str(), 1e-6); H::near(x->error, w.error, (at + ": error").c_str(), 1e-6);
        }
      }
      ++r;
    }
  }
}
int main(int c, char** v) { return H::run(c, v, [](const std::string&) {
  catalogues(H::scale(2000, 60000)); sources(H::scale(800, 20000)); photometries(H::scale(2000, 60000)); rows(H::scale(2000, 60000));
}); }
