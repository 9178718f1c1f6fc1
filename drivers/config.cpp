// The library sources themselves and the instantiations under contract; contains no logic of its own.
#include <memory>
#include "Configuration/src/lib/Configuration.cpp"
#include "Configuration/src/lib/ConfigManager.cpp"

namespace Driver {
class First : public Euclid::Configuration::Configuration {
public:
  explicit First(long id);
};
class Second : public Euclid::Configuration::Configuration {
public:
  explicit Second(long id);
};
}  // namespace Driver

template void           Euclid::Configuration::ConfigManager::registerConfiguration<Driver::First>();
template void           Euclid::Configuration::ConfigManager::registerDependency<Driver::First, Driver::Second>();
template Driver::First& Euclid::Configuration::ConfigManager::getConfiguration<Driver::First>();
