// Property-based testing engine: every random decision of a case is one entry of a
// "choice sequence", so a case is replayed from, and shrunk on, that sequence.
#ifndef VF_HPP_
#define VF_HPP_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf
{
struct Failure : std::exception
{
  std::string message;
  explicit Failure(std::string m) : message(std::move(m)) {}
  const char * what() const noexcept override { return message.c_str(); }
};

struct Discard
{
};

class Src
{
public:
  // uniform integer of [0, n), n >= 1; 0 is the simplest value
  std::uint64_t draw(std::uint64_t n);
  std::int64_t integer(std::int64_t lo, std::int64_t hi);  // uniform [lo, hi]; shrinks towards 0 / lo
  bool boolean() { return draw(2) == 1; }
  bool chance(unsigned percent) { return draw(100) >= 100 - percent; }  // shrinks to false
  std::size_t index(std::size_t n) { return static_cast<std::size_t>(draw(n)); }
  // length with a geometric-ish tail
  std::size_t length(std::size_t max);
  std::size_t length(std::size_t min, std::size_t max) { return min + length(max - min); }
  double unit();                                  // [0, 1)
  double real(double lo, double hi);              // mixes round values, ends and uniform
  double uniform(double lo, double hi);           // plain
  double anyFinite();                             // any finite double, all exponents
  template <class T>
  const T & pick(const std::vector<T> & v)
  {
    return v.at(index(v.size()));
  }
  template <class T>
  T pick(std::initializer_list<T> v)
  {
    return *(v.begin() + index(v.size()));
  }
  std::string text(const std::string & alphabet, std::size_t max, std::size_t min = 0);
  template <class T>
  void shuffle(std::vector<T> & v)
  {
    for (std::size_t i = v.size(); i > 1; --i) {
      std::swap(v[i - 1], v[i - 1 - index(i)]);
    }
  }

  // engine side
  void seed(std::uint64_t s);
  void replay(std::vector<std::uint64_t> c);
  const std::vector<std::uint64_t> & choices() const { return record; }

private:
  std::uint64_t next();
  std::uint64_t state[4] = {1, 2, 3, 4};
  bool replaying = false;
  std::vector<std::uint64_t> given;
  std::vector<std::uint64_t> record;
};

class Case
{
public:
  std::ostringstream log;  // what was generated, for the sample and the replay file
  template <class... Ts>
  void require(bool ok, const Ts &... ts)
  {
    if (!ok) {
      fail(ts...);
    }
  }
  template <class... Ts>
  [[noreturn]] void fail(const Ts &... ts)
  {
    std::ostringstream ss;
    ss << std::setprecision(17);
    (ss << ... << ts);
    throw Failure(ss.str());
  }
  void label(const std::string & name) { labels.insert(name); }
  // the case is non-trivial by the stated rule; key identifies it among others (default: log)
  void nontrivial() { is_nontrivial = true; }
  void nontrivial(const std::string & k)
  {
    is_nontrivial = true;
    key = k;
  }
  // the case falls in the class of a listed known finding: not judged, only counted
  [[noreturn]] void excluded(const std::string & finding)
  {
    excluded_by = finding;
    throw Discard{};
  }

  std::set<std::string> labels;
  std::string key;
  std::string excluded_by;
  bool is_nontrivial = false;
  Case() { log << std::setprecision(17); }
};

using Fn = std::function<void(Src &, Case &)>;

struct Prop
{
  std::string name;
  std::size_t quick;     // number of cases over all shards
  std::size_t thorough;
  Fn fn;
};

std::vector<Prop> & props();

struct Register
{
  Register(std::string name, std::size_t quick, std::size_t thorough, Fn fn)
  {
    props().push_back({std::move(name), quick, thorough, std::move(fn)});
  }
};

// Known findings: the witness returns true when the defect still shows.
struct Finding
{
  std::string key;
  std::function<bool()> witness;
};
std::vector<Finding> & findings();
struct RegisterFinding
{
  RegisterFinding(std::string key, std::function<bool()> w)
  {
    findings().push_back({std::move(key), std::move(w)});
  }
};

// helpers shared by the oracles
bool close(double a, double b, double rel, double abs);
std::string quote(const std::string &);

int main(int argc, char ** argv);
}  // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_PROP(name, quick, thorough)                                            \
  static void VF_CAT(vf_prop_, __LINE__)(vf::Src &, vf::Case &);                  \
  static vf::Register VF_CAT(vf_reg_, __LINE__)(                                  \
    name, quick, thorough, VF_CAT(vf_prop_, __LINE__));                           \
  static void VF_CAT(vf_prop_, __LINE__)([[maybe_unused]] vf::Src & s, [[maybe_unused]] vf::Case & c)

// expects EXPR to throw TYPE; anything else fails the case
#define VF_THROWS(TYPE, EXPR, ...)                                                \
  do {                                                                            \
    bool vf_ok = false;                                                           \
    std::string vf_got = "nothing was thrown";                                    \
    try {                                                                         \
      (void)(EXPR);                                                               \
    } catch (const TYPE &) {                                                      \
      vf_ok = true;                                                               \
    } catch (const std::exception & e) {                                          \
      vf_got = std::string("another exception: ") + e.what();                     \
    }                                                                             \
    c.require(vf_ok, "expected " #TYPE " from " #EXPR ", but ", vf_got, " ", ##__VA_ARGS__); \
  } while (0)

#endif
