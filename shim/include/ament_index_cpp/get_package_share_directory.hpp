#pragma once
#include <map>
#include <stdexcept>
#include <string>
namespace shim
{
inline std::map<std::string, std::string> & package_share()
{
  static std::map<std::string, std::string> m;
  return m;
}
}  // namespace shim
namespace ament_index_cpp
{
struct PackageNotFoundError : public std::out_of_range { using std::out_of_range::out_of_range; };
inline std::string get_package_share_directory(const std::string & p)
{
  auto i = shim::package_share().find(p);
  if (i == shim::package_share().end()) throw PackageNotFoundError("package '" + p + "' not found");
  return i->second;
}
inline std::string get_package_prefix(const std::string & p) { return get_package_share_directory(p); }
}  // namespace ament_index_cpp
