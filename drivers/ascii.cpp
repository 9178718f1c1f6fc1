// The library sources themselves; contains no logic of its own.
#include <memory>
#include <functional>
#include <boost/io/quoted.hpp>
#include "Table/src/lib/ColumnDescription.cpp"
#include "Table/src/lib/ColumnInfo.cpp"
#include "Table/src/lib/Row.cpp"
#include "Table/src/lib/Table.cpp"
#include "Table/src/lib/ReaderHelper.cpp"
#include "Table/src/lib/AsciiReaderHelper.cpp"
#include "Table/src/lib/AsciiReader.cpp"
