// Instantiates the NdArray templates for the extractor; contains no logic of its own.
#include <memory>
#include <string>
#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
#include "NdArray/src/Operations.cpp"

template class Euclid::NdArray::NdArray<double>;
template class Euclid::NdArray::NdArray<double>::Iterator<true>;
template class Euclid::NdArray::NdArray<double>::Iterator<false>;

namespace cppvc_driver {
using Nd = Euclid::NdArray::NdArray<double>;
using V  = std::vector<std::size_t>;
using D  = std::vector<double>;
using N  = std::vector<std::string>;
void instantiate(V& shape, D& data, N& names, const Nd& c, Nd& m, std::size_t i, std::size_t j) {
  Nd a(shape, data);
  Nd b(shape, std::move(data));
  Nd d(shape, data.begin(), data.end());
  Nd e(shape, names);
  Nd f(shape, names, data);
  c.at(i);
  c.at(i, j);
  m.at(i, j);
  m.at(i, std::string("x"));
  m.reshape(i);
  m.reshape(i, j);
  Euclid::NdArray::sum(c);
  Euclid::NdArray::sum(c, 1);
  Euclid::NdArray::trapz(c, data.begin(), data.end(), 1);
  Euclid::NdArray::argmin(c);
  Euclid::NdArray::argmax(c);
}
}  // namespace cppvc_driver
