// Compares the best matching cell, the rates and whole trainings of small random maps with their definitions.
#include "h.h"
#include "SOM/SOM.h"
#include "SOM/SOMTrainer.h"
#include <cmath>

namespace S = Euclid::SOM;
using A     = std::array<double, 3>;
using Map   = S::SOM<3>;
using Cells = std::vector<std::vector<A>>;
using Pair  = std::pair<std::size_t, std::size_t>;

static std::function<A(const A&)> same = [](const A& a) { return a; };

static A numbers() {
  A a;
  for (auto& x : a) {
    x = H::unit() * 4 - 2;
  }
  return a;
}

static double distance(const A& a, const A& b, const A& u) {
  double s = 0;
  for (size_t i = 0; i < 3; ++i) {
    s += (a[i] - b[i]) * (a[i] - b[i]) / (u[i] * u[i]);
  }
  return std::sqrt(s);
}

static Cells cells(Map& m) {
  Cells c(m.getSize().first, std::vector<A>(m.getSize().second));
  for (size_t x = 0; x < c.size(); ++x) {
    for (size_t y = 0; y < c[x].size(); ++y) {
      c[x][y] = m(x, y);
    }
  }
  return c;
}

static void check_bmu(const Cells& c, const A& in, const A& u, std::tuple<std::size_t, std::size_t, double> r) {
  size_t x = std::get<0>(r), y = std::get<1>(r);
  H::check(x < c.size() && y < c[0].size(), "the best matching cell is a cell of the map");
  if (x < c.size() && y < c[0].size()) {
    H::check(H::close(distance(c[x][y], in, u), std::get<2>(r)), "the distance reported is that of the cell");
  }
  for (auto& column : c) {
    for (auto& w : column) {
      H::check(distance(w, in, u) >= std::get<2>(r) * (1 - 1e-9), "no cell is nearer than the best matching one");
    }
  }
}

static void rates(size_t sx, size_t sy) {
  double r      = H::unit() * 5;
  auto   disk   = S::NeighborhoodFunc::linearUnitDisk(r);
  auto   koh    = S::NeighborhoodFunc::kohonen(sx, sy, 2.);
  auto   lin    = S::LearningRestraintFunc::linear();
  double first  = H::unit();
  auto   decay  = S::LearningRestraintFunc::exponentialDecay(first);
  size_t n      = 1 + H::below(6);
  double radius = std::max(sx, sy) / 2.;
  for (size_t i = 0; i < n; ++i) {
    H::check(H::close(lin(i, n), double(n - i) / n), "the linear rate");
    H::check(H::close(decay(i, n), first * std::exp(-double(i) / n)), "the exponential rate");
    double sigma = radius * std::exp(-double(i) * std::log(radius) / n);
    if (H::below(2)) {
      koh(Pair(0, 0), Pair(0, 0), H::below(n), n + H::below(3));  // the function may be asked in any order, in several trainings
    }
    for (int k = 0; k < 8; ++k) {
      Pair   b(H::below(sx), H::below(sy)), c(H::below(sx), H::below(sy));
      double x = double(b.first) - double(c.first), y = double(b.second) - double(c.second), d = x * x + y * y;
      double f = r * (double(n - i) / n);
      if (std::abs(d - f * f) > 1e-9) {
        H::check(disk(b, c, i, n) == (d < f * f ? 1. : 0.), "linearUnitDisk is one within the radius and zero elsewhere");
      }
      H::check(disk(b, c, i, n) == disk(c, b, i, n), "linearUnitDisk depends on the distance only");
      double v = koh(b, c, i, n);
      H::check(v >= 0 && v <= 1, "the neighbourhood function is between zero and one");
      H::check(v == koh(c, b, i, n), "kohonen depends on the distance only");
      if (std::abs(d - 4 * sigma * sigma) > 1e-9) {
        H::check(H::close(v, d < 4 * sigma * sigma ? std::exp(-d / (2 * sigma * sigma)) : 0.), "kohonen is a gaussian up to the cutoff");
      }
    }
  }
}

int main(int c, char** v) {
  return H::run(c, v, [](const std::string&) {
    for (long k = H::scale(15000, 600000); k > 0; --k) {
      size_t         sx = 1 + H::below(4), sy = 1 + H::below(4);
      Map            m(sx, sy, [] { return H::unit() * 4 - 2; });
      size_t         total = H::below(4);
      std::vector<A> sample(H::below(4));
      for (auto& a : sample) {
        a = numbers();
      }
      bool   stop   = H::below(2);
      double radius = H::unit() * 4;
      H::input("a map of " + std::to_string(sx) + "x" + std::to_string(sy) + " cells, " + std::to_string(sample.size()) + " inputs, " +
                   std::to_string(total) + " iterations, radius " + std::to_string(radius) + (stop ? ", no learning in odd iterations" : ""),
               sx * sy > 1 && total > 0 && !sample.empty());
      H::check(m.getSize() == Pair(sx, sy), "the size asked for");
      A one{{1, 1, 1}}, in = numbers(), u;
      for (auto& x : u) {
        x = (0.1 + H::unit()) * std::pow(10., double(H::below(14)) - 10);
      }
      auto before = cells(m);
      check_bmu(before, in, one, m.findBMU(in));
      check_bmu(before, in, u, m.findBMU(in, u));
      check_bmu(before, in, one, m.findBMU(in, same));
      check_bmu(before, in, u, m.findBMU(in, same, [&](const A&) { return u; }));
      rates(sx, sy);

      S::NeighborhoodFunc::Signature      near = S::NeighborhoodFunc::linearUnitDisk(radius);
      S::LearningRestraintFunc::Signature rate = [&](size_t i, size_t n) { return stop && i % 2 ? 0. : .7 * double(n - i) / n; };
      auto                                want = cells(m);
      bool                                tie  = false;
      for (size_t i = 0; i < total; ++i) {
        double f = rate(i, total);
        for (auto& a : sample) {
          if (f == 0) {
            continue;
          }
          double best = 1e300;
          size_t bx = 0, by = 0;
          for (size_t x = 0; x < sx; ++x) {
            for (size_t y = 0; y < sy; ++y) {
              if (distance(want[x][y], a, one) < best) {
                best = distance(want[x][y], a, one);
              }
            }
          }
          size_t nearest = 0;
          for (size_t x = 0; x < sx; ++x) {
            for (size_t y = 0; y < sy; ++y) {
              if (distance(want[x][y], a, one) < best + 1e-9) {
                bx = x, by = y, ++nearest;
              }
            }
          }
          tie |= nearest > 1;  // any of them may be chosen
          for (size_t x = 0; x < sx; ++x) {
            for (size_t y = 0; y < sy; ++y) {
              double n = near(Pair(bx, by), Pair(x, y), i, total);
              for (size_t w = 0; n != 0 && w < 3; ++w) {
                want[x][y][w] = want[x][y][w] + n * f * (a[w] - want[x][y][w]);
              }
            }
          }
        }
      }
      S::SOMTrainer(near, rate).train(m, total, sample.begin(), sample.end(), same);
      auto got = cells(m);
      bool ok  = true;
      for (size_t x = 0; x < sx; ++x) {
        for (size_t y = 0; y < sy; ++y) {
          for (size_t w = 0; w < 3; ++w) {
            ok &= H::close(got[x][y][w], want[x][y][w]);
          }
        }
      }
      H::check(ok || tie, "training moves each cell by the neighbourhood times the learning factor towards each input in turn");
    }
  });
}
