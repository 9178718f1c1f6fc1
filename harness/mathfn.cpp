#include "h.h"
#include <algorithm>
#include <limits>
#include <memory>
#include "AlexandriaKernel/memory_tools.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Integrable.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/interpolation/interpolation.h"
#include "MathUtils/numericalIntegration/AdaptativeIntegration.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "XYDataset/XYDataset.h"
using namespace Euclid::MathUtils;
using H::str;
using VD = std::vector<double>;
static double val() {
  auto p = H::rpool();
  switch (H::below(8)) {
  case 0: return (double)(long)H::below(7) - 3;
  case 1: if (!p.empty()) { double x = p[H::below(p.size())]; if (std::fabs(x) < 1e4) return x; } return 0.5;
  case 2: return 0;
  default: return std::round((H::unit() * 20 - 10) * 64) / 64;
  }
}
static double peval(const VD& c, double x) { double r = 0; for (size_t i = 0; i < c.size(); ++i) r += c[i] * std::pow(x, (double)i); return r; }
static double pabs(const VD& c, double x) { double r = 0; for (size_t i = 0; i < c.size(); ++i) r += std::fabs(c[i]) * std::pow(std::fabs(x), (double)i); return r; }
static VD pint(const VD& c) { VD r{0}; for (size_t i = 0; i < c.size(); ++i) r.push_back(c[i] / double(i + 1)); return r; }
static VD pder(const VD& c) { VD r; for (size_t i = 1; i < c.size(); ++i) r.push_back(double(i) * c[i]); return r; }
static VD coefs(size_t n) { VD c(n); for (auto& x : c) x = val(); return c; }
static void nearp(double a, double e, double mag, const char* w) { if (!(std::fabs(a - e) <= 1e-10 * (1 + mag))) { std::ostringstream o; o.precision(17); o << w << ": got " << a << " expected " << e; H::fail(o.str()); } }

static void polynomials() {
  for (long k = 0; k < H::scale(1500, 40000); ++k) {
    VD c = coefs(k < 12 ? k : H::below(9));
    Polynomial p{c}; const Polynomial& cp = p;
    H::input("Polynomial" + str(c), c.size() > 1);
    H::eq(str(p.getCoefficients()), str(c), "getCoefficients");
    auto cl = p.clone(); auto d = cp.derivative(); auto in = cp.indefiniteIntegral(); auto d2 = cp.derivative(); auto i2 = cp.indefiniteIntegral();
    VD dc = pder(c), ic = pint(c);
    for (int j = 0; j < 6; ++j) {
      double x = j == 0 ? 0 : val(), b = val();
      double m = pabs(c, x) + pabs(c, b) + pabs(ic, x) + pabs(ic, b) + pabs(dc, x);
      nearp(p(x), peval(c, x), m, "polynomial value"); nearp((*cl)(x), peval(c, x), m, "clone value");
      nearp((*d)(x), peval(dc, x), m, "derivative"); nearp((*d2)(x), peval(dc, x), m, "derivative asked again");
      nearp((*in)(x), peval(ic, x), m, "indefinite integral"); nearp((*i2)(x), peval(ic, x), m, "indefinite integral asked again");
      double e = peval(ic, b) - peval(ic, x);
      nearp(p.integrate(x, b), e, m, "integral"); nearp(integrate(p, x, b), e, m, "integrate()"); nearp(p.integrate(x, x), 0, m, "integral over nothing");
      nearp(integrate(*cl, b, x), -e, m, "integral of a clone, limits exchanged");
    }
  }
}
static VD knots(size_t n, bool strict) {
  std::set<double> s; VD v;
  while (v.size() < n) { double x = val(); if (strict && !s.insert(x).second) continue; v.push_back(x); }
  std::sort(v.begin(), v.end());
  return v;
}
static VD args(const VD& k) {
  VD a{0, -1e6, 1e6, val(), val()};
  for (double x : k) { a.push_back(x); a.push_back(std::nextafter(x, 1e300)); a.push_back(std::nextafter(x, -1e300)); a.push_back(x + 0.25); }
  for (size_t i = 1; i < k.size(); ++i) a.push_back(0.5 * (k[i] + k[i - 1]));
  return a;
}
struct PW { VD k; std::vector<VD> c; };
static double pweval(const PW& p, double x) {
  if (p.c.empty() || x < p.k[0]) return 0;
  if (x == p.k[0]) return peval(p.c[0], x);
  for (size_t i = 1; i < p.k.size(); ++i) if (p.k[i - 1] < x && x <= p.k[i]) return peval(p.c[i - 1], x);
  return 0;
}
static double pwint(const PW& p, double a, double b) {
  if (a > b) return -pwint(p, b, a);
  double r = 0;
  for (size_t i = 0; i + 1 < p.k.size(); ++i) { double lo = std::max(a, p.k[i]), hi = std::min(b, p.k[i + 1]); if (lo < hi) { VD ic = pint(p.c[i]); r += peval(ic, hi) - peval(ic, lo); } }
  return r;
}
static PW mkpw(size_t n, bool strict) { PW p; p.k = knots(n, strict); for (size_t i = 0; i + 1 < n; ++i) p.c.push_back(coefs(H::below(4))); return p; }
static std::unique_ptr<Piecewise> build(const PW& p, bool shared) {
  if (shared) { std::vector<std::shared_ptr<Function>> f; for (auto& c : p.c) f.push_back(std::make_shared<Polynomial>(c)); return std::unique_ptr<Piecewise>(new Piecewise(p.k, f)); }
  std::vector<std::unique_ptr<Function>> f; for (auto& c : p.c) f.emplace_back(new Polynomial(c));
  return std::unique_ptr<Piecewise>(new Piecewise(p.k, std::move(f)));
}
static std::string desc(const PW& p) { std::string s = "Piecewise" + str(p.k); for (auto& c : p.c) s += str(c); return s; }
static double mag(const PW& p, double x) { double r = 0; for (auto& c : p.c) { r += pabs(c, x); VD ic = pint(c); for (double k : p.k) r += pabs(ic, k); r += pabs(ic, x); } return r; }
static void piecewise() {
  for (long k = 0; k < H::scale(700, 15000); ++k) {
    PW p = mkpw(1 + (k < 12 ? k : H::below(7)), H::below(3) != 0);
    auto f = build(p, k % 2); std::unique_ptr<Function> cl = f->clone();
    H::input(desc(p), p.k.size() > 2);
    H::eq(str(f->getKnots()), str(p.k), "getKnots"); H::eq(f->getFunctions().size(), p.c.size(), "getFunctions");
    VD as = args(p.k);
    for (double x : as) {
      nearp((*f)(x), pweval(p, x), mag(p, x), ("piecewise value at " + std::to_string(x)).c_str()); nearp((*cl)(x), pweval(p, x), mag(p, x), "clone value");
    }
    for (int j = 0; j < 40; ++j) {
      double a = as[H::below(as.size())], b = as[H::below(as.size())], m = mag(p, 1);
      std::ostringstream w; w.precision(17); w << "integral from " << a << " to " << b;
      nearp(f->integrate(a, b), pwint(p, a, b), m, w.str().c_str()); nearp(integrate(*cl, a, b), pwint(p, a, b), m, ("clone " + w.str()).c_str());
    }
    // malformed
    auto mk = [&](VD kn, size_t nf, bool sh) { if (sh) { std::vector<std::shared_ptr<Function>> g; for (size_t i = 0; i < nf; ++i) g.push_back(std::make_shared<Polynomial>(VD{1.})); Piecewise q(kn, g); }
                                               else { std::vector<std::unique_ptr<Function>> g; for (size_t i = 0; i < nf; ++i) g.emplace_back(new Polynomial(VD{1.})); Piecewise q(kn, std::move(g)); } };
    for (bool sh : {false, true}) {
      for (size_t nf = 0; nf <= p.k.size() + 1; ++nf) H::throws<Elements::Exception>([&] { mk(p.k, nf, sh); }, nf + 1 != p.k.size(), "number of pieces against number of knots");
      if (p.k.size() > 1) { VD b = p.k; size_t i = H::below(b.size() - 1); b[i] = b[i + 1] + 0.5; H::throws<Elements::Exception>([&] { mk(b, b.size() - 1, sh); }, true, ("decreasing knots " + str(b)).c_str()); }
    }
  }
  // pieces that cannot integrate themselves
  std::vector<std::shared_ptr<Function>> g{std::make_shared<FunctionAdapter>([](double x) { return x * x; }), std::make_shared<Polynomial>(VD{1.})};
  Piecewise q(VD{0, 1, 2}, g); H::input("Piecewise of an adapter and a polynomial");
  H::near(q(0.5), 0.25, "adapter piece"); H::near(q.clone()->operator()(0.5), 0.25, "cloned adapter piece");
  H::throws<Elements::Exception>([&] { q.integrate(0.2, 0.8); }, true, "integrating a piece that is not Integrable");
  H::near(q.integrate(1., 1.5), 0.5, "only the pieces that overlap are integrated");
}
static void products() {
  for (long k = 0; k < H::scale(1200, 20000); ++k) {
    int ka = H::below(3), kb = H::below(3);
    PW a = mkpw(2 + H::below(4), true), b = mkpw(2 + H::below(4), true); VD ca = coefs(H::below(5)), cb = coefs(H::below(5));
    if (H::below(3) == 0) b.k[0] = a.k[H::below(a.k.size())], std::sort(b.k.begin(), b.k.end());
    std::unique_ptr<Function> fa, fb; std::function<double(double)> ea, eb; std::string da, db;
    auto mk = [&](int t, const PW& p, const VD& c, std::unique_ptr<Function>& f, std::function<double(double)>& e, std::string& d) {
      if (t == 0) { f.reset(new Polynomial(c)); e = [c](double x) { return peval(c, x); }; d = "Polynomial" + str(c); }
      else if (t == 1) { f = build(p, false); e = [p](double x) { return pweval(p, x); }; d = desc(p); }
      else { e = [c](double x) { return peval(c, x) + 1; }; f.reset(new FunctionAdapter(e)); d = "Adapter 1+" + str(c); } };
    mk(ka, a, ca, fa, ea, da); mk(kb, b, cb, fb, eb, db);
    H::input("multiply " + da + " * " + db);
    auto pr = multiply(*fa, *fb); auto cl = pr->clone();
    VD as; for (int j = 0; j < 25; ++j) as.push_back(H::unit() * 24 - 12.0071); as.push_back(1e5 + .3); as.push_back(-1e5 - .3);
    for (double x : as) {   // away from knots
      bool at = false; for (double y : a.k) at = at || x == y; for (double y : b.k) at = at || x == y; if (at) continue;
      double e = ea(x) * eb(x), m = (pabs(ca, x) + mag(a, x) + 1) * (pabs(cb, x) + mag(b, x) + 1);
      nearp((*pr)(x), e, m, ("product at " + std::to_string(x)).c_str()); nearp((*cl)(x), e, m, "clone of the product");
    }
  }
}
struct FixedScheme : NumericalIntegrationScheme { double operator()(const Function& f, double a, double b) override { return 1000 * a + b + f(0); } };
static void numeric() {
  for (long k = 0; k < H::scale(300, 4000); ++k) {
    VD c = coefs(1 + H::below(4)); double a = val(), b = a + 0.5 + H::unit() * 5;
    FunctionAdapter f([c](double x) { return peval(c, x); }); Polynomial p{c};
    H::input("Simpson " + str(c) + " from " + std::to_string(a) + " to " + std::to_string(b));
    double e = p.integrate(a, b), m = pabs(pint(c), a) + pabs(pint(c), b) + pabs(c, b);
    SimpsonsRule s; double prev = 0;
    for (int o = 3; o <= 9; ++o) {
      double v = s(f, a, b, o); if (!(std::fabs(v - e) <= 1e-9 * (1 + m) * (1 + (b - a)))) { std::ostringstream w; w << "Simpson's rule is exact for cubics; order " << o; H::near(v, e, w.str().c_str()); }
      if (o > 3) { double r = s(f, a, b, prev, o); if (!(std::fabs(r - v) <= 1e-9 * (1 + m) * (1 + (b - a)))) { std::ostringstream w; w << "refining from order " << o - 1 << " to " << o; H::near(r, v, w.str().c_str()); } }
      prev = v;
    }
    for (int o : {2, 1, 0, -1}) H::throws<Elements::Exception>([&] { s(f, a, b, o); }, true, "order below 3");
    for (int o : {3, 2}) H::throws<Elements::Exception>([&] { s(f, a, b, 0., o); }, true, "refining to an order below 4");
    H::throws<Elements::Exception>([&] { integrate(f, a, b); }, true, "integrating without scheme");
    nearp(integrate(f, a, b, std::unique_ptr<NumericalIntegrationScheme>(new FixedScheme)), 1000 * a + b + f(0), 1e4, "the given scheme is used");
    if (std::fabs(e) > 1e-3) { AdaptativeIntegration<SimpsonsRule> ad(1e-6, 3); double v = ad(f, a, b); if (std::fabs(v - e) > 1e-4 * (1 + m)) H::near(v, e, "adaptive integration"); }
    FunctionAdapter g([](double x) { return std::exp(x / 4); });
    AdaptativeIntegration<SimpsonsRule> ad(1e-7, 4); H::near(ad(g, a, b), 4 * (std::exp(b / 4) - std::exp(a / 4)), "adaptive integration of exp", 1e-5);
  }
}
// ------------------------------------------------------------------ interpolation
static double lin(const VD& x, const VD& y, bool ex, double v) {
  size_t n = x.size();
  if (n == 1) return ex || v == x[0] ? y[0] : 0;
  auto seg = [&](size_t i) { return y[i] + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * (v - x[i]); };
  if (v < x[0]) return ex ? seg(0) : 0;
  if (v > x[n - 1]) return ex ? seg(n - 2) : 0;
  for (size_t i = 0; i < n; ++i) if (v == x[i]) return y[i];
  for (size_t i = 0; i + 1 < n; ++i) if (v < x[i + 1]) return seg(i);
  return 0;
}
static void interpolation() {
  for (long k = 0; k < H::scale(1500, 30000); ++k) {
    size_t n = k < 20 ? 1 + k % 10 : 1 + H::below(8);
    VD x = knots(n, true), y = coefs(n);
    bool neg = H::below(4) == 0; if (neg) for (auto& v : x) v -= 40;
    for (bool ex : {false, true}) {
      // repeated points are ignored
      VD rx, ry; bool rep = H::below(3) == 0;
      for (size_t i = 0; i < n; ++i) { size_t m = rep ? 1 + H::below(3) : 1; while (m--) { rx.push_back(x[i]); ry.push_back(y[i]); } }
      std::ostringstream d; d << "knots " << str(rx) << " values " << str(ry) << " extrapolate " << ex; H::input(d.str(), n > 2);
      auto f = interpolate(rx, ry, InterpolationType::LINEAR, ex); H::check(!!f, "interpolate returned nothing");
      std::vector<std::pair<double, double>> ps; for (size_t i = 0; i < rx.size(); ++i) ps.emplace_back(rx[i], ry[i]);
      auto ds = Euclid::XYDataset::XYDataset::factory(ps); auto fd = interpolate(ds, InterpolationType::LINEAR, ex);
      std::unique_ptr<Function> cl = f->clone();
      double mindx = 1e300, maxy = 1; for (size_t i = 0; i + 1 < n; ++i) mindx = std::min(mindx, x[i + 1] - x[i]); for (double v : y) maxy = std::max(maxy, std::fabs(v));
      for (double v : args(x)) {
        double e = lin(x, y, ex, v), m = maxy * (1 + (std::fabs(v) + 60) / std::min(1., mindx));
        std::string w = "linear interpolant at " + std::to_string(v);
        nearp((*f)(v), e, m, w.c_str()); nearp((*cl)(v), e, m, ("clone: " + w).c_str()); nearp((*fd)(v), e, m, ("from data set: " + w).c_str());
        nearp(simple_interpolation(v, x, y, ex), e, m, ("simple_interpolation: " + w).c_str());
      }
      auto s = interpolate(rx, ry, InterpolationType::CUBIC_SPLINE, ex);
      double sm = 0; for (size_t i = 0; i + 1 < n; ++i) sm = std::max(sm, 1 / (x[i + 1] - x[i]));
      auto big = [&](double v) { return 1e2 * maxy * std::pow(1 + sm, 3) * std::pow(1 + std::fabs(v), 3); };
      for (size_t i = 0; i < n; ++i) nearp((*s)(x[i]), y[i], big(x[i]), ("spline at knot " + std::to_string(x[i])).c_str());
      if (n > 1 && !ex) { nearp((*s)(x[0] - 1), 0, 0, "spline below its knots"); nearp((*s)(x[n - 1] + 1), 0, 0, "spline above its knots"); }
      if (n == 2) for (double v : args(x)) nearp((*s)(v), lin(x, y, ex, v), big(v), "a spline through two points is the line");
      if (ex && n > 1) { double h = 1e-3; for (double o : {x[0] - 1, x[n - 1] + 1}) H::check(std::isfinite((*s)(o)), "spline extrapolation is finite"); (void)h; }
      // refused
      VD by = y; by.push_back(1); H::throws<InterpolationException>([&] { interpolate(x, by, InterpolationType::LINEAR, ex); }, true, "more values than knots");
      by.pop_back(); by.pop_back(); H::throws<InterpolationException>([&] { interpolate(x, by, InterpolationType::CUBIC_SPLINE, ex); }, true, "fewer values than knots");
      H::throws<InterpolationException>([&] { simple_interpolation(0., x, by, ex); }, true, "simple_interpolation with fewer values");
      if (n > 1) { VD bx = x; size_t i = H::below(n - 1); std::swap(bx[i], bx[i + 1]); for (auto t : {InterpolationType::LINEAR, InterpolationType::CUBIC_SPLINE}) H::throws<InterpolationException>([&] { interpolate(bx, y, t, ex); }, true, ("decreasing knots " + str(bx)).c_str()); }
    }
  }
  for (bool ex : {false, true}) {
    H::input("no points");
    for (auto t : {InterpolationType::LINEAR, InterpolationType::CUBIC_SPLINE}) H::throws<InterpolationException>([&] { interpolate(VD{}, VD{}, t, ex); }, true, "no points");
    H::throws<InterpolationException>([&] { simple_interpolation(1., VD{}, VD{}, ex); }, true, "simple_interpolation without points");
  }
  // smoothness of the spline: first and second derivatives agree across interior knots, natural ends
  for (long k = 0; k < H::scale(300, 4000); ++k) {
    size_t n = 3 + H::below(5); VD x{0}, y; while (x.size() < n) x.push_back(x.back() + 0.5 + 2 * H::unit()); y = coefs(n);
    H::input("spline knots " + str(x) + " values " + str(y));
    auto s = interpolate(x, y, InterpolationType::CUBIC_SPLINE, false);
    auto pw = dynamic_cast<Piecewise*>(s.get()); if (!pw) continue;
    auto D = [&](size_t i, double v, int o) { auto p = dynamic_cast<Polynomial*>(pw->getFunctions()[i].get()); VD c = p ? p->getCoefficients() : VD{}; while (o--) c = pder(c); return peval(c, v); };
    for (size_t i = 1; i + 1 < n; ++i) for (int o : {1, 2}) { double a = D(i - 1, x[i], o), b = D(i, x[i], o); if (std::fabs(a - b) > 1e-5 * (1 + std::fabs(a))) H::near(b, a, "derivative jumps at an interior knot of a spline"); }
  }
}
int main(int c, char** v) {
  return H::run(c, v, [](const std::string& p) {
    if (p == "C10") { polynomials(); piecewise(); products(); numeric(); }
    if (p == "C11") interpolation();
  });
}
