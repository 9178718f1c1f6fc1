#include "NdArray/NdArray.h"
int main() { Euclid::NdArray::NdArray<int> a(std::vector<size_t>{3, 4}, std::vector<int>(12)); 
  try { a.at(1, 4) = 5; } catch (const std::out_of_range&) { return 0; } return 1; }
