// Generic helpers over the generated message structs (see tools/genmsg.py: vf_fields).
#ifndef MSGS_HPP_
#define MSGS_HPP_
#include <array>
#include <type_traits>

#include "vf.hpp"

namespace msgs
{
template <class T, class = void>
struct is_message : std::false_type
{
};
struct Nothing
{
  template <class T>
  void operator()(const char *, T &&) const
  {
  }
};
template <class T>
struct is_message<T, std::void_t<decltype(std::declval<T &>().vf_fields(Nothing()))>> : std::true_type
{
};
template <class T>
struct is_list : std::false_type
{
};
template <class T, class A>
struct is_list<std::vector<T, A>> : std::true_type
{
};
template <class T, std::size_t N>
struct is_list<std::array<T, N>> : std::true_type
{
};

template <class T>
std::string number(T v)
{
  std::ostringstream ss;
  ss << std::setprecision(17);
  if constexpr (std::is_same_v<T, bool>) ss << (v ? "true" : "false");
  else if constexpr (std::is_integral_v<T>) ss << static_cast<long long>(v);
  else ss << v;
  return ss.str();
}

// path -> value
using Flat = std::map<std::string, std::string>;
template <class T>
void flatten(const T & v, const std::string & path, Flat & out)
{
  if constexpr (std::is_same_v<T, std::string>) out[path] = vf::quote(v);
  else if constexpr (std::is_arithmetic_v<T>) out[path] = number(v);
  else if constexpr (is_list<T>::value) {
    out[path + ".size"] = std::to_string(v.size());
    std::size_t i = 0;
    for (const auto & x : v) flatten(x, path + "[" + std::to_string(i++) + "]", out);
  } else {
    v.vf_fields([&](const char * name, const auto & x) { flatten(x, path.empty() ? name : path + "." + name, out); });
  }
}
template <class T>
Flat flat(const T & v)
{
  Flat f;
  flatten(v, "", f);
  return f;
}

// random contents; numbers are all different from each other almost surely
template <class T>
void fill(T & v, vf::Src & s)
{
  if constexpr (std::is_same_v<T, std::string>) v = s.text("abcdXYZ_019 /\"", 6);
  else if constexpr (std::is_same_v<T, bool>) v = s.boolean();
  else if constexpr (std::is_floating_point_v<T>) v = static_cast<T>(s.chance(10) ? s.pick({0.0, 1.0, -1.0, 1e300, 1e-300}) : s.uniform(-1000, 1000));
  else if constexpr (std::is_arithmetic_v<T>) v = static_cast<T>(s.chance(20) ? s.pick({std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(0)}) : static_cast<T>(s.draw(1000)));
  else if constexpr (is_list<T>::value) {
    if constexpr (std::is_same_v<T, std::vector<typename T::value_type>>) v.resize(s.length(4));
    for (auto & x : v) fill(x, s);
  } else {
    v.vf_fields([&](const char *, auto & x) { fill(x, s); });
  }
}

inline std::string difference(const Flat & a, const Flat & b)
{
  for (const auto & [k, v] : a) {
    const auto i = b.find(k);
    if (i == b.end()) return k + " is missing";
    if (i->second != v) return k + " is " + i->second + " instead of " + v;
  }
  for (const auto & [k, v] : b) if (!a.count(k)) return k + " is " + v + " and should not be there";
  return "";
}
}  // namespace msgs
#endif
