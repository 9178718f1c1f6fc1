// Instantiates the histogram templates; contains no logic of its own.
#include <memory>
#include <functional>
#include "Histogram/Histogram.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Scott.h"
#include "Histogram/Binning/Sqrt.h"
namespace Euclid { namespace Histogram {
using It = std::vector<double>::iterator;
template class Binning::EdgeVector<double>;
template Binning::EdgeVector<double>::EdgeVector(std::vector<double>&);
template class Binning::Sqrt<double>;
template class Binning::Scott<double>;
template void Binning::Sqrt<double>::computeBins<It>(It, It);
template void Binning::Scott<double>::computeBins<It>(It, It);
template class Histogram<double, double>;
template Histogram<double, double>::Histogram(It, It, It, It, Binning::EdgeVector<double>&&);
template Histogram<double, double>::Histogram(It, It, Binning::Sqrt<double>&&);
template Histogram<double, double>::Histogram(It, It, It, It, Binning::Scott<double>&&);
template Histogram<double, double>::Histogram(It, It, It, It, Binning::Sqrt<double>&&);
}}
