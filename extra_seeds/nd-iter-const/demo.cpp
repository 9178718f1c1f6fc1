#include "NdArray/NdArray.h"
using A = Euclid::NdArray::NdArray<int>;
int main() { std::vector<int> d(12); for (int i = 0; i < 12; ++i) d[i] = i; A a(std::vector<size_t>{4, 3}, d);
  A r = a.rslice(1); const auto it = r.begin() + 2; return *it == a.at(2, 1) && it[1] == a.at(3, 1) ? 0 : 1; }
