#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
using A = Euclid::NdArray::NdArray<double>;
int main() { A a(std::vector<size_t>{3}, std::vector<double>{1, 2, 3}); std::vector<double> k{2, 1, 0};
  auto r = Euclid::NdArray::trapz(a, k.begin(), k.end(), 0); return r.at(0) == -4 ? 0 : 1; }
