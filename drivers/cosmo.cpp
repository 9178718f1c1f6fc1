// Brings the cosmology sources into one translation unit for the extractor; contains no logic of its own.
#include <memory>
#include <functional>
#include "MathUtils/src/lib/function/FunctionAdapter.cpp"
#include "MathUtils/src/lib/function/function_tools.cpp"
#include "PhysicsUtils/src/lib/CosmologicalParameters.cpp"
#include "PhysicsUtils/src/lib/CosmologicalDistances.cpp"
