#include "h.h"
#include <algorithm>
#include <memory>
#include "ElementsKernel/Exception.h"
#include "Histogram/Histogram.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Scott.h"
#include "Histogram/Binning/Sqrt.h"
using namespace Euclid::Histogram;
using H::str;
using VD = std::vector<double>;
typedef Elements::Exception Ex;
static double LOOSE = 1; // 1e5 for single precision
// the statistics by their definition, over the bins a..b
static void stats(const std::tuple<double, double, double>& got, const VD& e, const VD& c, const std::string& who) {
  double T = 0, W = 0;
  for (size_t i = 0; i < c.size(); ++i) { T += c[i]; W += c[i] * (e[i] + e[i + 1]) / 2; }
  if (T <= 0) return;
  double mu = W / T, V = 0, span = e.back() - e.front(), big = std::max(std::fabs(e.front()), std::fabs(e.back()));
  for (size_t i = 0; i < c.size(); ++i) V += c[i] * ((e[i] + e[i + 1]) / 2 - mu) * ((e[i] + e[i + 1]) / 2 - mu);
  double tol = LOOSE * 1e-9 * (span + big);
  H::near(std::get<0>(got), mu, (who + ": mean").c_str(), LOOSE * 1e-9, tol);
  double sg = std::get<2>(got);
  H::near(sg * sg, V / T, (who + ": squared deviation").c_str(), LOOSE * 1e-8, LOOSE * 1e-9 * (big * big + span * span));
  // the median: the place where the weight below reaches one half, within a bin that holds some
  double m = std::get<1>(got), F = 0; bool ok = false;
  for (size_t i = 0; i < c.size(); F += c[i], ++i)
    if (c[i] > 0 && m >= e[i] - tol && m <= e[i + 1] + tol && H::close(F + c[i] * (m - e[i]) / (e[i + 1] - e[i]), T / 2, LOOSE * 1e-7, LOOSE * 1e-7 * T)) ok = true;
  H::check(ok, who + ": median " + str(VD{m}) + " does not halve the counts " + str(c) + " over the edges " + str(e));
}
template <typename Hi> static VD vec(const Hi& v) { return VD(v.begin(), v.end()); }
// everything that is asked of a histogram of x with weights w; slack: relative distance from an edge within which a value may go to either side
template <typename Hi> static void judge(Hi& h, const VD& x, const VD& w, const VD& want, double slack, const std::string& who) {
  VD e = vec(h.getEdges()), c = vec(h.getCounts()), mid = vec(h.getBins());
  size_t n = h.size();
  H::check(n >= 1 && c.size() == n && e.size() == n + 1 && mid.size() == n, who + ": sizes of bins, counts and edges disagree");
  for (size_t i = 0; i + 1 < e.size(); ++i) H::check(e[i] < e[i + 1], who + ": edges do not increase: " + str(e));
  if (!want.empty()) H::check(e == want, who + ": edges " + str(e) + ", expected " + str(want));
  for (size_t i = 0; i < n; ++i) {
    auto be = h.getBinEdges(i);
    H::check(be.first == e[i] && be.second == e[i + 1], who + ": edges of bin " + std::to_string(i) + " disagree with the list of edges");
    H::near(mid[i], (e[i] + e[i + 1]) / 2, (who + ": centre").c_str(), 1e-6, LOOSE * 1e-9 * (std::fabs(e[i]) + std::fabs(e[i + 1])));
  }
  double eps = slack * (std::fabs(e.front()) + std::fabs(e.back()) + 1e-300), in = 0, all = 0;
  for (size_t b = 0; b < n; ++b) {
    double sure = 0, maybe = 0;
    for (size_t i = 0; i < x.size(); ++i) {
      bool holds = x[i] >= e[b] && (x[i] < e[b + 1] || (b + 1 == n && x[i] == e[n]));
      bool edge = slack > 0 && (std::fabs(x[i] - e[b]) <= eps || std::fabs(x[i] - e[b + 1]) <= eps);
      if (edge) maybe += w[i]; else if (holds) sure += w[i];
    }
    H::check(c[b] >= sure && c[b] <= sure + maybe, who + ": bin " + std::to_string(b) + " of " + str(e) + " counts " + str(VD{c[b]}) + ", expected " + str(VD{sure}) + (maybe ? " to " + str(VD{sure + maybe}) : ""));
    all += c[b];
  }
  for (size_t i = 0; i < x.size(); ++i) if (slack > 0 || (x[i] >= e.front() && x[i] <= e.back())) in += w[i];
  H::eq(all, in, (who + ": total of the counts").c_str());
  stats(h.getStats(), e, c, who);
}
template <typename Hi> static void clips(const Hi& h0, const std::string& who, bool exact) {
  Hi h = h0;
  VD e = vec(h0.getEdges()), c0 = vec(h0.getCounts());
  size_t n = c0.size();
  H::throws<Ex>([&] { Hi k = h0; k.clip(2, 1); }, true, (who + ": clip with min > max").c_str());
  size_t L = 0, R = n - 1;
  for (int r = 0; r < 2; ++r) {
    size_t a = L + H::below(R - L + 1), b = a + H::below(R - a + 1);
    // values well inside the chosen bins, or on their lower edges
    auto pick = [&](size_t i) { return exact && H::below(3) == 0 ? e[i] : e[i] + (e[i + 1] - e[i]) * (1 + H::below(3)) / 4; };
    double lo = pick(a), hi = pick(b);
    if (lo > hi) std::swap(lo, hi);
    if (exact && b == n - 1 && H::below(4) == 0) hi = e[n];
    std::string how = who + ", clipped to " + str(VD{lo, hi});
    h.clip(lo, hi);
    L = a; R = b;
    VD c = vec(h.getCounts());
    H::check(c == VD(c0.begin() + L, c0.begin() + R + 1), how + ": counts " + str(c) + ", expected those of bins " + std::to_string(L) + ".." + std::to_string(R) + " of " + str(c0));
    H::eq(h.size(), R - L + 1, (how + ": size").c_str());
    stats(h.getStats(), VD(e.begin() + L, e.begin() + R + 2), c, how);
  }
  H::check(vec(h0.getCounts()) == c0, who + ": clipping a copy changes the original");
}
template <typename T> static void edges(const VD& e, const VD& x, const VD& w, bool weighted) {
  std::vector<T> te(e.begin(), e.end()), tx(x.begin(), x.end()); std::vector<double> tw(w.begin(), w.end());
  LOOSE = sizeof(T) == 4 ? 1e5 : 1;
  std::string who = std::string("EdgeVector<") + (sizeof(T) == 4 ? (std::is_integral<T>::value ? "int" : "float") : "double") + ">";
  VD one(x.size(), 1.);
  if (weighted) {
    Histogram<T, double> h(tx.begin(), tx.end(), tw.begin(), tw.end(), Binning::EdgeVector<T>(te));
    if (std::is_integral<T>::value) return; judge(h, x, w, e, 0, who); clips(h, who, true);
  } else {
    Histogram<T, double> h(tx.begin(), tx.end(), Binning::EdgeVector<T>(te));
    if (std::is_integral<T>::value) { H::check(vec(h.getEdges()) == e, who + ": edges"); VD c = vec(h.getCounts()); for (size_t b = 0; b + 1 < e.size(); ++b) { double s = 0; for (double v : x) s += v >= e[b] && (v < e[b + 1] || (b + 2 == e.size() && v == e[b + 1])); H::eq(c[b], s, (who + ": count").c_str()); } return; }
    judge(h, x, one, e, 0, who); clips(h, who, true);
  }
}
template <typename T, typename B> static void rule(const VD& x0, const VD& w, bool weighted, bool dyadic, const std::string& who) {
  std::vector<T> x(x0.begin(), x0.end()); std::vector<double> tw(w);
  LOOSE = sizeof(T) == 4 ? 1e5 : 1;
  VD xd(x.begin(), x.end()), one(x.size(), 1.);
  auto go = [&](Histogram<T, double>& h, const VD& ww) {
    VD e = vec(h.getEdges()); size_t n = h.size(), k = x.size();
    double lo = *std::min_element(xd.begin(), xd.end()), hi = *std::max_element(xd.begin(), xd.end());
    double rel = sizeof(T) == 4 ? 1e-5 : 1e-12;
    if (who[0] == 'S' && who[1] == 'q') {
      if (lo == hi) return;
      H::check((n - 1) * (n - 1) < k && k <= n * n, who + ": " + std::to_string(n) + " bins for " + std::to_string(k) + " values");
      H::near(e.front(), lo, (who + ": first edge").c_str(), rel, rel * (hi - lo)); H::near(e.back(), hi, (who + ": last edge").c_str(), rel, rel * (hi - lo));
      if (dyadic && (n & (n - 1)) == 0) { judge(h, xd, ww, {}, 0, who); clips(h, who, true); return; }
    } else {
      double mu = 0, v = 0; for (double a : xd) mu += a / k; for (double a : xd) v += (a - mu) * (a - mu) / k;
      if (lo == hi) { H::check(n == 1 || n == 2, who + ": " + std::to_string(n) + " bins for equal values"); H::check(e[0] < lo && lo < e[n], who + ": the bin does not hold the value"); }
      else {
        double q = (hi - lo) / (3.5 * std::sqrt(v) / std::cbrt((double)k));
        H::check(n == (size_t)std::ceil(q) || std::fabs(q - std::round(q)) < 1e-3, who + ": " + std::to_string(n) + " bins, the width rule gives " + str(VD{q}));
        H::near(e.front(), lo, (who + ": first edge").c_str(), rel, rel * (hi - lo)); H::near(e.back(), hi, (who + ": last edge").c_str(), rel, rel * (hi - lo));
      }
    }
    // rounded edges must still increase
    if ((hi - lo) > 1e3 * rel * (std::fabs(hi) + std::fabs(lo)) * n || lo == hi) { judge(h, xd, ww, {}, rel * 4, who); clips(h, who, false); }
  };
  if (weighted) { Histogram<T, double> h(x.begin(), x.end(), tw.begin(), tw.end(), B()); go(h, w); }
  else { Histogram<T, double> h(x.begin(), x.end(), B()); go(h, one); }
}
int main(int argc, char** argv) {
  return H::run(argc, argv, [](const std::string&) {
    auto ip = H::pool(1, 300); auto rp = H::rpool();
    for (long k = 0; k < H::scale(6000, 150000); ++k) {
      size_t n = k < 6 ? 1 + k : !ip.empty() && H::below(5) == 0 ? ip[H::below(ip.size())] : 1 + H::below(H::below(6) == 0 ? 120 : 14);
      bool weighted = H::below(2);
      VD e; double c = (double)(long)H::below(9) - 4; size_t nb = 1 + H::below(8);
      for (size_t i = 0; i <= nb; ++i) { e.push_back(c); c += (1 + H::below(6)) * 0.25; }
      if (H::below(4) == 0) for (auto& v : e) v = std::floor(v * 4);
      VD x, w; int how = H::below(5);
      for (size_t i = 0; i < n; ++i) {
        double v = how == 0 ? (double)H::below(9) - 4 : how == 1 ? e[H::below(e.size())] : how == 2 ? (double)(long)H::below(65) / 8 - 4 : how == 3 && !rp.empty() ? rp[H::below(rp.size())] : H::unit() * 10 - 5;
        if (std::fabs(v) > 1e6) v = 1;
        x.push_back(v); w.push_back(H::below(4) == 0 ? 0 : H::below(9) * 0.25);
      }
      if (H::below(12) == 0) x.assign(n, H::below(2) ? 0.1 * H::below(40) : (double)H::below(5));
      H::input("values=" + str(x) + " weights=" + (weighted ? str(w) : "none") + " edges=" + str(e), n > 1);
      edges<double>(e, x, w, weighted);
      VD xq = x; for (auto& v : xq) v = std::floor(v * 8) / 8;
      edges<float>(e, xq, w, weighted);
      VD ei, xi; for (auto v : e) ei.push_back(std::floor(v * 4)); for (auto v : x) xi.push_back(std::floor(v * 4));
      edges<int>(ei, xi, w, false);
      // a power-of-two range makes the edges of the square-root rule exact when the bins are a power of two
      VD xs = xq; if (n >= 2) { auto m = *std::min_element(xs.begin(), xs.end()); xs[0] = m; xs[1] = m + 8; for (auto& v : xs) v = std::min(v, m + 8); }
      rule<double, Binning::Sqrt<double>>(xs, w, weighted, true, "Sqrt"); rule<double, Binning::Sqrt<double>>(x, w, weighted, false, "Sqrt");
      rule<double, Binning::Scott<double>>(x, w, weighted, false, "Scott"); rule<double, Binning::Scott<double>>(xq, w, weighted, false, "Scott");
      rule<float, Binning::Sqrt<float>>(x, w, weighted, false, "Sqrt<float>");
      rule<float, Binning::Scott<float>>(xq, w, weighted, false, "Scott<float>");
    }
  });
}
