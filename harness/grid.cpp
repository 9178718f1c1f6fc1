#include "h.h"
#include <map>
#include <memory>
#include <numeric>
#include "ElementsKernel/Exception.h"
#include "GridContainer/GridContainer.h"
using namespace Euclid::GridContainer;
typedef Elements::Exception Ex;
using H::str;
using V = std::vector<size_t>;
static double knot(size_t axis, size_t i) { return 10.0 * axis + 1.5 * i; }
static size_t position(const V& n, const V& c) { size_t p = 0, f = 1; for (size_t i = 0; i < n.size(); ++i) { p += c[i] * f; f *= n[i]; } return p; }
static V coords(const V& n, size_t p) { V c; for (auto x : n) { c.push_back(p % x); p /= x; } return c; }
static GridAxis<double> axis(size_t a, size_t n) { std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back(knot(a, i)); return {"axis" + std::to_string(a), v}; }
template <size_t N> struct Gen;
template <> struct Gen<1> { using G = GridContainer<std::vector<long>, double>; static G make(const V& n) { return G{axis(0, n[0])}; } };
template <> struct Gen<2> { using G = GridContainer<std::vector<long>, double, double>; static G make(const V& n) { return G{axis(0, n[0]), axis(1, n[1])}; } };
template <> struct Gen<3> { using G = GridContainer<std::vector<long>, double, double, double>; static G make(const V& n) { return G{std::make_tuple(axis(0, n[0]), axis(1, n[1]), axis(2, n[2]))}; } };
template <> struct Gen<4> { using G = GridContainer<std::vector<long>, double, double, double, double>; static G make(const V& n) { return G{axis(0, n[0]), axis(1, n[1]), axis(2, n[2]), axis(3, n[3])}; } };
template <class G, size_t... I> long& callm(G& g, const V& c, std::index_sequence<I...>) { return g(c[I]...); }
template <class G, size_t... I> const long& callc(const G& g, const V& c, std::index_sequence<I...>) { return g(c[I]...); }
template <class G, size_t... I> long& callat(G& g, const V& c, std::index_sequence<I...>) { return g.at(c[I]...); }
template <class G, size_t... I> const long& callatc(const G& g, const V& c, std::index_sequence<I...>) { return g.at(c[I]...); }
template <class It, size_t... I> V itcoords(const It& i, std::index_sequence<I...>) { return V{i.template axisIndex<I>()...}; }
template <class It, size_t... I> std::vector<double> itvalues(const It& i, std::index_sequence<I...>) { return {i.template axisValue<I>()...}; }
template <class G, size_t... I> V axsizes(const G& g, std::index_sequence<I...>) { return V{g.template getAxis<I>().size()...}; }
template <class G, size_t... I> std::vector<std::vector<double>> axknots(const G& g, std::index_sequence<I...>) { return {std::vector<double>(g.template getAxis<I>().begin(), g.template getAxis<I>().end())...}; }
template <class G, size_t... I> std::vector<std::string> axnames(const G& g, std::index_sequence<I...>) { return {g.template getAxis<I>().name()...}; }
template <class G, size_t... I> std::vector<std::vector<double>> tupknots(const G& g, std::index_sequence<I...>) { auto& t = g.getAxesTuple(); return {std::vector<double>(std::get<I>(t).begin(), std::get<I>(t).end())...}; }
template <size_t I, class G> struct Fix {
  static G byIndex(G& g, size_t a, size_t i, bool c) { if (a == I) { if (c) { const G& k = g; const G& s = k.template fixAxisByIndex<I>(i); return std::move(const_cast<G&>(s)); } return g.template fixAxisByIndex<I>(i); } return Fix<I - 1, G>::byIndex(g, a, i, c); }
  static G byValue(G& g, size_t a, double v, bool c) { if (a == I) { if (c) { const G& k = g; const G& s = k.template fixAxisByValue<I>(v); return std::move(const_cast<G&>(s)); } return g.template fixAxisByValue<I>(v); } return Fix<I - 1, G>::byValue(g, a, v, c); }
  template <class It> static void itIndex(It& it, size_t a, size_t i) { if (a == I) it.template fixAxisByIndex<I>(i); else Fix<I - 1, G>::itIndex(it, a, i); }
  template <class It> static void itValue(It& it, size_t a, double v) { if (a == I) it.template fixAxisByValue<I>(v); else Fix<I - 1, G>::itValue(it, a, v); }
};
template <class G> struct Fix<(size_t)-1, G> {
  static G byIndex(G& g, size_t, size_t, bool) { throw 1; } static G byValue(G& g, size_t, double, bool) { throw 1; }
  template <class It> static void itIndex(It&, size_t, size_t) {} template <class It> static void itValue(It&, size_t, double) {}
};
using F = std::map<size_t, size_t>;
static bool match(const V& c, const F& f) { for (auto& p : f) if (c[p.first] != p.second) return false; return true; }
static std::string show(const V& n, const F& f) { std::string s = "grid " + str(n) + " fixed{"; for (auto& p : f) s += std::to_string(p.first) + ":" + std::to_string(p.second) + " "; return s + "}"; }
template <size_t N, class G> void iterate(G& g, const V& n, const F& sf, const F& itf, const char* what) {
  constexpr std::make_index_sequence<N> S{};
  F all = sf; all.insert(itf.begin(), itf.end());
  V want; size_t total = 1; for (auto x : n) total *= x;
  for (size_t p = 0; p < total; ++p) if (match(coords(n, p), all)) want.push_back(p);
  H::input(show(n, sf) + " iterator " + show(n, itf) + " " + what, want.size() > 1);
  auto go = [&](auto it, auto end) {
    for (auto& f : itf) { if (H::below(2)) Fix<N - 1, G>::itIndex(it, f.first, f.second); else Fix<N - 1, G>::itValue(it, f.first, knot(f.first, f.second)); }
    V got; size_t guard = 0;
    for (; it != end && guard <= total; ++it, ++guard) {
      size_t p = *it; got.push_back(p);
      V c = itcoords(it, S); H::check(c == coords(n, p), "coordinates reported for cell " + str(coords(n, p)) + " are " + str(c));
      auto v = itvalues(it, S); for (size_t a = 0; a < N; ++a) H::eq(v[a], knot(a, c[a]), "axis value");
      auto cp = it; H::check(cp == it && !(cp != it), "copied iterator is equal");
    }
    H::check(guard <= total, "iteration ends"); H::check(it == end, "ends at end()");
    H::check(got == want, "cells visited " + str(got) + " expected " + str(want));
  };
  const G& k = g; go(g.begin(), g.end()); go(k.begin(), k.end()); go(g.cbegin(), g.cend());
  if (!want.empty() && itf.empty()) { // fixing all axes of another iterator's cell
    auto it = k.begin(); size_t steps = H::below(want.size()); while (steps--) ++it;
    auto to = k.begin(); to.fixAllAxes(it); H::eq(*to, *it, "fixAllAxes reaches the same cell"); ++to; H::check(to == k.end(), "all axes fixed leaves one cell");
    if (!all.empty()) { auto a = all.begin()->first; if (n[a] > 1) { auto i2 = k.begin(); H::throws<Ex>([&] { Fix<N - 1, G>::itIndex(i2, a, (all.begin()->second + 1) % n[a]); }, true, "fixing a fixed axis at another index"); } }
  }
  if (total) { auto a = H::below(N); auto i2 = k.begin(); if (!sf.count(a)) { H::throws<Ex>([&] { Fix<N - 1, G>::itIndex(i2, a, n[a] + H::below(3)); }, true, "iterator fixed beyond the axis"); H::throws<Ex>([&] { Fix<N - 1, G>::itValue(i2, a, knot(a, 0) - 0.25); }, true, "iterator fixed at no knot"); } }
}
template <size_t N, class G> void access(G& g, const V& n, const F& f) {
  constexpr std::make_index_sequence<N> S{};
  const G& k = g; V m = n; for (auto& p : f) m[p.first] = 1;
  H::input(show(n, f) + " access", true);
  size_t cells = 1; for (auto x : m) cells *= x;
  H::eq(g.size(), cells, "size()"); H::eq((size_t)G::axisNumber(), N, "axisNumber"); H::check(axsizes(k, S) == m, "axis sizes of the slice " + str(axsizes(k, S)));
  auto kn = axknots(k, S); auto nm = axnames(k, S); H::check(tupknots(k, S) == kn, "getAxesTuple agrees with getAxis");
  for (size_t a = 0; a < N; ++a) { H::eq(nm[a], "axis" + std::to_string(a), "axis name"); H::eq(kn[a].size(), m[a], "knots of axis"); for (size_t i = 0; i < m[a]; ++i) H::eq(kn[a][i], knot(a, f.count(a) ? f.at(a) : i), "knot of the slice"); }
  for (size_t q = 0; q < cells; ++q) {
    V c = coords(m, q), full = c; for (auto& p : f) full[p.first] = p.second;
    long want = position(n, full);
    H::input(show(n, f) + " cell " + str(c), true);
    H::eq(callc(k, c, S), want, "operator() const"); H::eq(callm(g, c, S), want, "operator()"); H::eq(callatc(k, c, S), want, "at const"); H::eq(callat(g, c, S), want, "at");
  }
  for (int j = 0; j < 6; ++j) {
    V c = coords(m, H::below(cells)); size_t a = H::below(N); c[a] = H::below(2) ? m[a] + H::below(3) : (H::below(2) ? n[a] - 1 : ~(size_t)0 - H::below(2));
    bool bad = c[a] >= m[a]; H::input(show(n, f) + " at " + str(c), true);
    H::throws<Ex>([&] { callat(g, c, S); }, bad, "at"); H::throws<Ex>([&] { callatc(k, c, S); }, bad, "at const");
  }
}
template <size_t N> void grids(long rounds) {
  using G = typename Gen<N>::G;
  for (long r = 0; r < rounds; ++r) {
    V n; for (size_t a = 0; a < N; ++a) n.push_back(1 + H::below(N > 2 ? 4 : 7)); auto pl = H::pool(1, 12); if (!pl.empty() && H::below(3) == 0) n[H::below(N)] = pl[H::below(pl.size())];
    G g = Gen<N>::make(n); long p = 0; for (auto& x : g) x = p++;
    access<N>(g, n, {}); iterate<N>(g, n, {}, {}, "whole grid");
    F itf; for (size_t a = 0; a < N; ++a) if (H::below(2)) itf[a] = H::below(n[a]);
    iterate<N>(g, n, {}, itf, "iterator with fixed axes");
    // slices of slices in random order
    std::vector<size_t> order(N); std::iota(order.begin(), order.end(), 0); for (size_t i = N; i > 1; --i) std::swap(order[i - 1], order[H::below(i)]);
    std::unique_ptr<G> cur(new G(std::move(g))); F f; size_t depth = 1 + H::below(N);
    for (size_t d = 0; d < depth; ++d) {
      size_t a = order[d], i = H::below(n[a]); bool c = H::below(2);
      H::input(show(n, f) + " fix axis " + std::to_string(a) + " at " + std::to_string(i), true);
      H::throws<Ex>([&] { Fix<N - 1, G>::byIndex(*cur, a, n[a] + H::below(2), c); }, true, "fixing beyond the axis");
      H::throws<Ex>([&] { Fix<N - 1, G>::byValue(*cur, a, knot(a, i) + 0.25, c); }, true, "fixing at a value that is not a knot");
      for (auto& p2 : f) { H::throws<Ex>([&] { Fix<N - 1, G>::byIndex(*cur, p2.first, H::below(n[p2.first]), c); }, true, "fixing a fixed axis"); H::throws<Ex>([&] { Fix<N - 1, G>::byValue(*cur, p2.first, knot(p2.first, H::below(n[p2.first])), c); }, true, "fixing a fixed axis by value"); }
      G s = H::below(2) ? Fix<N - 1, G>::byIndex(*cur, a, i, c) : Fix<N - 1, G>::byValue(*cur, a, knot(a, i), c);
      f[a] = i; access<N>(s, n, f);
      F more; for (size_t b = 0; b < N; ++b) if (!f.count(b) && H::below(3) == 0) more[b] = H::below(n[b]);
      iterate<N>(s, n, f, {}, "slice"); iterate<N>(s, n, f, more, "slice and iterator");
      // writes through the slice reach the grid
      { constexpr std::make_index_sequence<N> S{}; V z(N, 0); long& x = callm(s, z, S); V full = z; for (auto& q : f) full[q.first] = q.second; V up = full; F pf = f; pf.erase(a); for (auto& q : pf) up[q.first] = 0; x += 1000; H::eq(callc(*cur, up, S), (long)position(n, full) + 1000, "write through the slice"); x -= 1000; }
      cur.reset(new G(std::move(s)));
    }
  }
}
static void axes() {
  for (long r = 0; r < H::scale(2000, 40000); ++r) {
    size_t n = 1 + H::below(7); std::vector<double> v; double x = H::below(4); for (size_t i = 0; i < n; ++i) { v.push_back(x); x += 0.5 * (1 + H::below(4)); }
    GridAxis<double> a{"name" + std::to_string(n), v};
    H::input("axis " + str(v), n > 1);
    H::eq(a.name(), "name" + std::to_string(n), "name"); H::eq(a.size(), n, "size"); H::check(std::vector<double>(a.begin(), a.end()) == v, "knots in order"); for (size_t i = 0; i < n; ++i) H::eq(a[i], v[i], "knot");
    auto w = v; if (H::below(2)) { size_t i = H::below(n); if (H::below(2)) w[i] += 1; else w.erase(w.begin() + i); } if (H::below(6) == 0) w.push_back(99);
    GridAxis<double> b{"other", w}; H::eq(a == b, v == w, "equality of axes"); H::eq(a != b, v != w, "inequality of axes");
    std::vector<int> iv; for (auto y : v) iv.push_back((int)y); GridAxis<int> c{"i", iv}; bool same = true; for (size_t i = 0; i < n; ++i) same &= iv[i] == v[i]; H::eq(a == c, same, "equality of axes of different types");
    double q = H::below(3) ? v[H::below(n)] + (H::below(3) ? 0 : 0.25) : -1 + H::unit() * (x + 2);
    size_t e = 0; for (size_t i = 0; i < n; ++i) if (v[i] <= q) e = i;
    H::input("axis " + str(v) + " infimum of " + std::to_string(q), true); H::eq((size_t)(a.infimum(q) - a.begin()), e, "infimum");
    std::vector<double> u{1, 4}; GridContainer<std::vector<int>, double, double> g{a, GridAxis<double>{"u", u}}; auto t = g.infimum(q, 4.5); H::check(std::get<0>(t) == e && std::get<1>(t) == 1, "infimum of the grid"); auto t2 = g.infimum(std::make_tuple(q, 2.0)); H::check(std::get<0>(t2) == e && std::get<1>(t2) == 0, "infimum of the grid");
  }
  GridAxis<std::string> s{"names", {"x", "y", "z"}}; GridContainer<std::vector<int>, std::string, int> g{s, GridAxis<int>{"n", {5, 7}}}; int k = 0; for (auto& c : g) c = k++;
  H::input("grid with a text axis"); auto y = g.fixAxisByValue<0>("y"); H::eq(y(0, 1), 4, "cell y,7"); H::eq(y.getAxis<0>()[0], std::string("y"), "knot"); auto i = g.begin(); i.fixAxisByValue<1>(7).fixAxisByValue<0>("z"); H::eq(*i, 5, "cell z,7"); H::eq(i.axisValue<0>(), std::string("z"), "value");
  H::throws<Ex>([&] { g.fixAxisByValue<0>("q"); }, true, "unknown text knot");
}
struct Rec { int a; };
static void traits() {
  H::input("cell manager traits"); auto p = GridCellManagerTraits<std::vector<Rec>>::factory(5); H::eq(GridCellManagerTraits<std::vector<Rec>>::size(*p), (size_t)5, "factory size");
  H::check(GridCellManagerTraits<std::vector<Rec>>::end(*p) - GridCellManagerTraits<std::vector<Rec>>::begin(*p) == 5, "range");
}
int main(int argc, char** argv) {
  return H::run(argc, argv, [](const std::string&) { traits(); axes(); grids<1>(H::scale(40, 800)); grids<2>(H::scale(80, 1500)); grids<3>(H::scale(80, 1500)); grids<4>(H::scale(30, 500)); });
}
