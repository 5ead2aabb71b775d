// Stand-in for pluginlib: plugins are linked in and registered by PLUGINLIB_EXPORT_CLASS.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
namespace pluginlib
{
struct PluginlibException : public std::runtime_error { using std::runtime_error::runtime_error; };
template <typename Base>
std::map<std::string, std::function<std::shared_ptr<Base>()>> & registry()
{
  static std::map<std::string, std::function<std::shared_ptr<Base>()>> m;
  return m;
}
template <typename Base>
class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string &) {}
  std::shared_ptr<Base> createSharedInstance(const std::string & name)
  {
    auto i = registry<Base>().find(name);
    if (i == registry<Base>().end()) throw PluginlibException("no plugin " + name);
    return i->second();
  }
};
}  // namespace pluginlib
