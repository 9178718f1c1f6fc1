#include "NdArray/NdArray.h"
using A = Euclid::NdArray::NdArray<int>;
int main() { A a(std::vector<size_t>{2, 2, 3}, std::vector<int>(12)), b(std::vector<size_t>{1, 2, 2}, std::vector<int>(4));
  try { a.concatenate(b); } catch (const std::length_error&) { return 0; } return 1; }
