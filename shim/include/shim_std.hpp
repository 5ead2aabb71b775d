// What a ROS 2 installation's headers bring in, included before every source that is built with the stand-ins.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
namespace std
{
// lanelet2 (Lanelet2 utilities) provides this for every pair of hashable types
template <typename A, typename B>
struct hash<pair<A, B>>
{
  size_t operator()(const pair<A, B> & p) const
  {
    const auto a = hash<A>()(p.first);
    return a ^ (hash<B>()(p.second) + 0x9e3779b9 + (a << 6) + (a >> 2));
  }
};
}  // namespace std
