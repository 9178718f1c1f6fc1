// The library sources themselves; contains no logic of its own.
#include <memory>
#include "Configuration/src/lib/ProgramOptionsHelper.cpp"
