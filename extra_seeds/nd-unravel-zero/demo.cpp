#include "NdArray/Operations.h"
#include "NdArray/src/Operations.cpp"
int main() { try { Euclid::NdArray::unravel_index(1, {0, 3}); } catch (const std::out_of_range&) { return 0; } return 1; }
