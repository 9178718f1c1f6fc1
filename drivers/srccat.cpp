// The library sources themselves; contains no logic of its own (instantiates Source::getAttribute).
#include <memory>
#include <functional>
#include "Table/src/lib/Table.cpp"
#include "SourceCatalog/src/lib/Catalog.cpp"
#include "SourceCatalog/src/lib/FluxErrorPair.cpp"
#include "SourceCatalog/src/lib/Photometry.cpp"
#include "SourceCatalog/src/lib/CatalogFromTable.cpp"
#include "SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"
template std::shared_ptr<Euclid::SourceCatalog::Photometry> Euclid::SourceCatalog::Source::getAttribute<Euclid::SourceCatalog::Photometry>() const;
template class Euclid::SourceCatalog::Photometry::PhotometryIterator<true>;
template class Euclid::SourceCatalog::Photometry::PhotometryIterator<false>;
