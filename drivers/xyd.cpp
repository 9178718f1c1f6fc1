// Brings the data set sources into one translation unit for the extractor; contains no logic of its own.
#include <memory>
#include <functional>
#include "XYDataset/src/lib/XYDataset.cpp"
#include "XYDataset/src/lib/QualifiedName.cpp"
#include "XYDataset/src/lib/CachedProvider.cpp"
#include "XYDataset/src/lib/StringFunctions.cpp"
