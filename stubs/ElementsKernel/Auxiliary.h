#pragma once
#include <boost/filesystem.hpp>
namespace Elements { template <typename T> boost::filesystem::path getAuxiliaryPath(const T& p, bool = true) { return boost::filesystem::path(p); } }
