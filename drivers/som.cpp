// The library sources themselves and the instantiations under contract; contains no logic of its own.
#include <memory>
#include <functional>
#include "SOM/src/lib/LearningRestraintFunc.cpp"
#include "SOM/src/lib/NeihbourhoodFunc.cpp"
#include "SOM/src/lib/ImplTools.cpp"
#include "SOM/SOM.h"
#include "SOM/SOMTrainer.h"

namespace Driver {
struct Input {
  int opaque;
};
struct Weights {
  std::array<double, 2> operator()(const Input& i) const;
};
struct Iter {
  int          opaque;
  const Input& operator*() const;
  bool         operator!=(const Iter& o) const;
  bool         operator==(const Iter& o) const;
  Iter&        operator++();
};
}  // namespace Driver

template class Euclid::SOM::Distance::L2<2>;
template class Euclid::SOM::SOM<2>;
template class Euclid::SOM::SamplingPolicy::FullSet<Driver::Iter>;
template std::tuple<std::size_t, std::size_t, double> Euclid::SOM::SOM<2>::findBMU(const Driver::Input&, Driver::Weights) const;
template std::tuple<std::size_t, std::size_t, double> Euclid::SOM::SOM<2>::findBMU(const Driver::Input&, Driver::Weights, Driver::Weights) const;
template void Euclid::SOM::SOMTrainer::train<2, Euclid::SOM::Distance::L2<2>, Driver::Iter, Driver::Weights>(
    Euclid::SOM::SOM<2>&, std::size_t, Driver::Iter, Driver::Iter, Driver::Weights, const Euclid::SOM::SamplingPolicy::Interface<Driver::Iter>&);
