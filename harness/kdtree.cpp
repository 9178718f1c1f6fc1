// Replays the radius query against brute force on small random point sets (small integers and halves, so arithmetic is exact).
#include "h.h"
#include "KdTree/KdTree.h"
#include <map>
struct Pt {
  double c[4];
  int    label;
};
namespace KdTree {
template <>
struct KdTreeTraits<Pt> {
  static double getCoord(const Pt& t, size_t index) {
    return t.c[index];
  }
};
}  // namespace KdTree

template <size_t N, size_t S>
static void one() {
  size_t          n = H::below(4) ? H::below(40) : H::below(4);
  int             span = 1 + H::below(12);
  std::vector<Pt> pts;
  std::string     d;
  for (size_t i = 0; i < n; ++i) {
    Pt p{{0, 0, 0, 0}, int(H::below(1 + n / 2))};
    for (size_t k = 0; k < N; ++k) {
      p.c[k] = double(int(H::below(2 * span + 1)) - span) / 2;
    }
    pts.push_back(p);
    d += "(";
    for (size_t k = 0; k < N; ++k)
      d += std::to_string(p.c[k]).substr(0, 4) + " ";
    d += "#" + std::to_string(p.label) + ") ";
  }
  KdTree::KdTree<Pt, N, S> tree(pts);
  for (int q = 0; q < 4; ++q) {
    typename KdTree::KdTree<Pt, N, S>::Coord c;
    std::string                              qd = "dims " + std::to_string(N) + " leaf " + std::to_string(S) + " points " + d + " query ";
    for (size_t k = 0; k < N; ++k) {
      c.coord[k] = double(int(H::below(4 * span + 1)) - 2 * span) / 4;
      qd += std::to_string(c.coord[k]) + " ";
    }
    double r = double(H::below(4 * span + 1)) / 4;
    H::input(qd + "radius " + std::to_string(r), n > S);
    auto key = [](const Pt& p) {
      std::vector<double> k(p.c, p.c + 4);
      k.push_back(p.label);
      return k;
    };
    std::map<std::vector<double>, int> want, got;
    for (auto& p : pts) {
      double s = 0;
      for (size_t k = 0; k < N; ++k)
        s += (p.c[k] - c.coord[k]) * (p.c[k] - c.coord[k]);
      if (s < r * r)
        ++want[key(p)];
    }
    for (auto& p : tree.findPointsWithinRadius(c, r))
      ++got[key(p)];
    H::check(want == got, "the points closer than the radius, each as often as inserted");
  }
}

int main(int argc, char** argv) {
  return H::run(argc, argv, [](const std::string&) {
    int n = H::scale(150, 4000);
    for (int i = 0; i < n; ++i) {
      one<1, 1>();
      one<1, 4>();
      one<2, 1>();
      one<2, 4>();
      one<2, 10>();
      one<3, 2>();
      one<3, 4>();
      one<4, 5>();
    }
  });
}
