// The library sources themselves; contains no logic of its own.
#include <memory>
#include <functional>
#include "Table/src/lib/ColumnDescription.cpp"
#include "Table/src/lib/ColumnInfo.cpp"
#include "Table/src/lib/Row.cpp"
#include "Table/src/lib/Table.cpp"
