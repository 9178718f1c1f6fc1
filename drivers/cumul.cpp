// Brings the cumulative distribution sources into one translation unit for the extractor; contains no logic of its own.
#include <memory>
#include <functional>
#include "MathUtils/src/lib/PDF/Cumulative.cpp"
#include "XYDataset/src/lib/XYDataset.cpp"
