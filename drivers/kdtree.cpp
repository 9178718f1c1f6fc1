// Instantiates the real template; contains no logic of its own.
#include <memory>
#include <string>
#include "KdTree/KdTree.h"
struct Point {
  double c[3];
  int    label;
};
namespace KdTree {
template <>
struct KdTreeTraits<Point> {
  static double getCoord(const Point& t, size_t index);
};
template class KdTree<Point, 3, 4>;
}  // namespace KdTree
