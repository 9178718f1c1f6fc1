// Brings the function and interpolation sources into one translation unit for the extractor; contains no logic of its own.
#include <memory>
#include <functional>
#include "MathUtils/src/lib/function/Differentiable.cpp"
#include "MathUtils/src/lib/function/FunctionAdapter.cpp"
#include "MathUtils/src/lib/function/Piecewise.cpp"
#include "MathUtils/src/lib/function/Polynomial.cpp"
#include "MathUtils/src/lib/function/function_tools.cpp"
#include "MathUtils/src/lib/function/multiplication.cpp"
#include "MathUtils/src/lib/interpolation/interpolation.cpp"
#include "MathUtils/src/lib/interpolation/linear.cpp"
#include "MathUtils/src/lib/interpolation/spline.cpp"
#include "MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp"
#include "MathUtils/src/lib/numericalDifferentiation/FiniteDifference.cpp"
