#include "h.h"
#include <memory>
#include "ElementsKernel/Exception.h"
#include "MathUtils/PDF/Cumulative.h"
#include "XYDataset/XYDataset.h"
using Euclid::MathUtils::Cumulative;
using H::str;
using VD = std::vector<double>;
typedef Elements::Exception Ex;
// expected place: first sample reaching the fraction, then along the level stretch
static double place(const VD& x, const VD& y, double f, int pos) {
  size_t b = 0; while (b < y.size() && y[b] < f * y.back()) ++b;
  size_t e = b; while (e + 1 < y.size() && y[e + 1] == y[b]) ++e;
  return pos == 0 ? x[b] : pos == 2 ? x[e] : 0.5 * (x[b] + x[e]);
}
static void queries(const Cumulative& c, const VD& x, const VD& y, double f, const std::string& who) {
  const char* w = who.c_str();
  bool in01 = f >= 0 && f <= 1;
  for (int p = 0; p < 3; ++p) {
    H::throws<Ex>([&] { double v = c.findValue(f, Cumulative::TrayPosition(p)); if (in01) H::eq(v, place(x, y, f, p), (who + ": findValue").c_str()); }, !in01, (who + ": findValue").c_str());
  }
  if (in01) H::eq(c.findValue(f), place(x, y, f, 1), (who + ": findValue, default position").c_str());
  bool in = f > 0 && f <= 1;
  H::throws<Ex>([&] { auto r = c.findCenteredInterval(f); if (in) { H::eq(r.first, place(x, y, 0.5 - f / 2, 2), (who + ": centred interval begins").c_str()); H::eq(r.second, place(x, y, 0.5 + f / 2, 0), (who + ": centred interval ends").c_str()); } }, !in, (who + ": findCenteredInterval").c_str());
  if (y.back() <= 0) return;
  H::throws<Ex>([&] {
    auto r = c.findMinInterval(f);
    if (!in) return;
    double best = -1; bool holds = false;
    for (size_t i = 0; i < x.size(); ++i) for (size_t j = i; j < x.size(); ++j) {
      double m = y[j] - y[i] + (i == 0 ? y[0] : 0);
      if (m >= f * y.back()) {
        if (j > i && (best < 0 || x[j] - x[i] < best)) best = x[j] - x[i];
        if (x[i] == r.first && x[j] == r.second) holds = true;
      }
    }
    H::check(holds, who + ": smallest interval [" + str(VD{r.first, r.second}) + "] does not hold the fraction");
    if (best >= 0) H::check(r.second - r.first <= best, who + ": a smaller interval than " + str(VD{r.first, r.second}) + " holds the fraction");
  }, !in, (who + ": findMinInterval").c_str());
  (void)w;
}
int main(int argc, char** argv) {
  return H::run(argc, argv, [](const std::string&) {
    auto ip = H::pool(1, 60);
    for (long k = 0; k < H::scale(6000, 200000); ++k) {
      size_t n = k < 8 ? 1 + k : !ip.empty() && H::below(4) == 0 ? ip[H::below(ip.size())] : 1 + H::below(12);
      VD x, p; double cx = (double)(long)H::below(9) - 4;
      for (size_t i = 0; i < n; ++i) { x.push_back(cx); cx += H::below(6) == 0 ? 0.5 : 1 + H::below(5); p.push_back(H::below(3) == 0 ? 0 : H::below(8)); }
      if (H::below(12) == 0) p.assign(n, 0);
      double f = H::below(10) == 0 ? (H::below(2) ? 1.25 : -0.25) : H::below(17) / 16.0;
      H::input("x=" + str(x) + " pdf=" + str(p) + " fraction=" + str(VD{f}), n > 2);
      VD y; double t = 0; for (double v : p) y.push_back(t += v);
      VD x1 = x, p1 = p;
      auto c = Cumulative::fromPdf(x1, p1);
      H::check(x1 == x && p1 == p, "fromPdf changes its arguments");
      std::vector<std::pair<double, double>> ps, cs; for (size_t i = 0; i < n; ++i) { ps.emplace_back(x[i], p[i]); cs.emplace_back(x[i], y[i]); }
      auto c2 = Cumulative::fromPdf(Euclid::XYDataset::XYDataset::factory(ps));
      Cumulative c3{Euclid::XYDataset::XYDataset::factory(cs)};
      VD y1 = y; Cumulative c4{x1, y1};
      queries(c, x, y, f, "fromPdf"); queries(c2, x, y, f, "fromPdf of a data set"); queries(c3, x, y, f, "from a data set"); queries(c4, x, y, f, "from samples");
      Cumulative copy{c}; queries(copy, x, y, f, "copy");
      Cumulative other{x1, p1}; other = c; queries(other, x, y, f, "assigned");
      if (y.back() > 0) {
        other.normalize();
        double tot = y.back(); bool pow2 = tot == std::exp2(std::floor(std::log2(tot)));
        if (pow2) { VD yn; for (double v : y) yn.push_back(v / tot); queries(other, x, yn, f, "normalised"); }
        else for (int pos = 0; pos < 3; ++pos) { H::eq(other.findValue(0, Cumulative::TrayPosition(pos)), place(x, y, 0, pos), "normalised, fraction zero"); H::eq(other.findValue(1, Cumulative::TrayPosition(pos)), place(x, y, 1, pos), "normalised, fraction one"); }
        queries(c, x, y, f, "original after normalising a copy");
      }
      Cumulative moved{std::move(c2)}; queries(moved, x, y, f, "moved"); other = std::move(moved); queries(other, x, y, f, "move-assigned");
      VD lng = x; lng.push_back(cx);
      H::throws<Ex>([&] { Cumulative bad{lng, y1}; }, true, "samples of different lengths"); H::throws<Ex>([&] { Cumulative bad{x1, lng}; }, true, "samples of different lengths");
      H::throws<Ex>([&] { Cumulative::fromPdf(lng, p1); }, true, "fromPdf with different lengths");
    }
  });
}
