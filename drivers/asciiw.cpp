// The library sources themselves; contains no logic of its own.
#include <memory>
#include <functional>
#include "Table/src/lib/AsciiWriterHelper.cpp"
#include "Table/src/lib/TableWriter.cpp"
#include "Table/src/lib/AsciiWriter.cpp"
