#include "NdArray/NdArray.h"
using A = Euclid::NdArray::NdArray<int>;
int main() { std::vector<int> d(12); for (int i = 0; i < 12; ++i) d[i] = i; A a(std::vector<size_t>{2, 2, 3}, d);
  for (size_t k = 0; k < 3; ++k) { A r = a.rslice(k); for (size_t i = 0; i < 2; ++i) { A s = r.slice(i); for (size_t j = 0; j < 2; ++j) if (s.at(j) != a.at(i, j, k)) return 1; } }
  return 0; }
