#include "vf.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>

namespace vf
{
namespace
{
// the choices of the case under way, in a shared file, so that they survive a crash
struct Current
{
  std::uint64_t prop;
  std::uint64_t n;
  std::uint64_t v[1 << 16];
};
Current * current = nullptr;

constexpr std::size_t max_choices = 1 << 16;

std::uint64_t splitmix(std::uint64_t & x)
{
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

std::uint64_t hash(const std::string & s)
{
  std::uint64_t h = 1469598103934665603ULL;
  for (unsigned char ch : s) {
    h = (h ^ ch) * 1099511628211ULL;
  }
  return splitmix(h);
}
}  // namespace

std::vector<Prop> & props()
{
  static std::vector<Prop> p;
  return p;
}

std::vector<Finding> & findings()
{
  static std::vector<Finding> f;
  return f;
}

void Src::seed(std::uint64_t s)
{
  for (auto & x : state) {
    x = splitmix(s);
  }
  replaying = false;
  record.clear();
}

void Src::replay(std::vector<std::uint64_t> c)
{
  given = std::move(c);
  replaying = true;
  record.clear();
}

std::uint64_t Src::next()
{
  auto rotl = [](std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  const auto result = rotl(state[1] * 5, 7) * 9;
  const auto t = state[1] << 17;
  state[2] ^= state[0];
  state[3] ^= state[1];
  state[1] ^= state[2];
  state[0] ^= state[3];
  state[2] ^= t;
  state[3] = rotl(state[3], 45);
  return result;
}

std::uint64_t Src::draw(std::uint64_t n)
{
  if (n == 0) {
    n = 1;
  }
  if (record.size() >= max_choices) {
    throw Discard{};
  }
  std::uint64_t v;
  if (replaying) {
    v = record.size() < given.size() ? std::min(given[record.size()], n - 1) : 0;
  } else {
    v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(next()) * n) >> 64);
  }
  record.push_back(v);
  if (current) {
    current->v[current->n] = v;
    current->n = current->n + 1;
  }
  return v;
}

std::int64_t Src::integer(std::int64_t lo, std::int64_t hi)
{
  const auto span = static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1;
  if (span == 0) {  // the whole range
    const auto v = draw(~0ULL);
    return static_cast<std::int64_t>((v >> 1) ^ (~(v & 1) + 1));
  }
  const auto v = draw(span);
  if (lo < 0 && hi > 0) {  // zigzag, as far as both sides reach, so that 0 is simplest
    const auto neg = static_cast<std::uint64_t>(-(lo + 1)) + 1;
    const auto pos = static_cast<std::uint64_t>(hi);
    const auto both = std::min(neg, pos);
    if (v <= 2 * both) {
      return v % 2 ? static_cast<std::int64_t>((v + 1) / 2) : -static_cast<std::int64_t>(v / 2);
    }
    const auto rest = v - both;
    return neg > pos ? -static_cast<std::int64_t>(rest) : static_cast<std::int64_t>(rest);
  }
  if (hi <= 0) {
    return hi - static_cast<std::int64_t>(v);
  }
  return static_cast<std::int64_t>(static_cast<std::uint64_t>(lo) + v);
}

std::size_t Src::length(std::size_t max)
{
  if (max == 0) {
    return 0;
  }
  switch (draw(4)) {
    case 0:
      return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 2) + 1));
    case 1:
    case 2:
      return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 8) + 1));
    default:
      return static_cast<std::size_t>(draw(max + 1));
  }
}

double Src::unit() { return static_cast<double>(draw(1ULL << 53)) / 9007199254740992.0; }

double Src::uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }

double Src::real(double lo, double hi)
{
  switch (draw(8)) {
    case 0: {  // a whole number
      const auto l = std::ceil(std::max(lo, -1e15)), h = std::floor(std::min(hi, 1e15));
      if (l > h) {
        return lo;
      }
      return static_cast<double>(
        integer(static_cast<std::int64_t>(l), static_cast<std::int64_t>(h)));
    }
    case 1: {  // small whole number or a half / quarter / tenth of one
      const double d = pick({1.0, 2.0, 4.0, 10.0});
      const auto v = static_cast<double>(integer(-40, 40)) / d;
      return std::min(std::max(v, lo), hi);
    }
    case 2:
      return pick({lo, hi});
    default:
      return uniform(lo, hi);
  }
}

double Src::anyFinite()
{
  for (;;) {
    switch (draw(4)) {
      case 0:
        return real(-1000, 1000);
      case 1:
        return pick(
          {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::min(),
           -std::numeric_limits<double>::min(), std::numeric_limits<double>::max(),
           std::numeric_limits<double>::lowest(), std::numeric_limits<double>::denorm_min(),
           std::numeric_limits<double>::epsilon(), 1e-3, 1e16, 9007199254740993.0, 0.1, 1.0 / 3});
      case 2: {
        const auto m = uniform(-1, 1);
        return std::ldexp(m, static_cast<int>(integer(-1000, 1000)));
      }
      default: {
        const auto bits = draw(~0ULL);
        double d;
        std::memcpy(&d, &bits, sizeof d);
        if (std::isfinite(d)) {
          return d;
        }
        if (replaying) {
          return 0;
        }
      }
    }
  }
}

std::string Src::text(const std::string & alphabet, std::size_t max, std::size_t min)
{
  std::string r;
  const auto n = length(min, max);
  for (std::size_t i = 0; i < n; ++i) {
    r += alphabet[index(alphabet.size())];
  }
  return r;
}

bool close(double a, double b, double rel, double abs)
{
  if (a == b) {
    return true;
  }
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) {
    return std::isnan(a) && std::isnan(b);
  }
  return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}

std::string quote(const std::string & s)
{
  std::string r = "\"";
  for (unsigned char ch : s) {
    char buf[8];
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += static_cast<char>(ch);
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 32 || ch > 126) {
      std::snprintf(buf, sizeof buf, "\\u%04x", ch);
      r += buf;
    } else {
      r += static_cast<char>(ch);
    }
  }
  return r + "\"";
}

namespace
{
struct Outcome
{
  enum { pass, fail, discard, crash } kind = pass;
  std::string message;
  std::string log;
};

Outcome evaluate(const Prop & p, Src & s, Case & c)
{
  Outcome o;
  try {
    p.fn(s, c);
  } catch (const Discard &) {
    o.kind = Outcome::discard;
  } catch (const Failure & f) {
    o.kind = Outcome::fail;
    o.message = f.message;
  } catch (const std::exception & e) {
    o.kind = Outcome::fail;
    o.message = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.kind = Outcome::fail;
    o.message = "unexpected exception of an unknown type";
  }
  o.log = c.log.str();
  return o;
}

unsigned cpu_limit = 30;

void arm()
{  // CPU time, so that a busy machine does not matter
  itimerval t{};
  t.it_value.tv_sec = cpu_limit;
  setitimer(ITIMER_PROF, &t, nullptr);
}

std::string read_file(const std::string & path)
{
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

// evaluates one choice sequence in a child process, so that crashes and hangs are outcomes too
Outcome isolated(const Prop & p, const std::vector<std::uint64_t> & choices, std::vector<std::uint64_t> * used)
{
  char path[] = "/tmp/vf_iso_XXXXXX";
  const int fd = mkstemp(path);
  ::close(fd);
  const std::string err = std::string(path) + ".err";
  std::cout.flush();
  const pid_t pid = fork();
  if (pid == 0) {
    const int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    dup2(e, 1);
    arm();
    Src s;
    s.replay(choices);
    Case c;
    const auto o = evaluate(p, s, c);
    std::ofstream f(path);
    f << static_cast<int>(o.kind) << "\n" << s.choices().size() << "\n";
    for (auto v : s.choices()) {
      f << v << " ";
    }
    f << "\n" << quote(o.message) << "\n" << quote(o.log) << "\n";
    f << "\x01" << o.message << "\x01" << o.log << "\x01";
    f.flush();
    f.close();
    _exit(0);
  }
  int status = 0;
  // a wall-clock guard as well, for a case that sleeps for ever
  const auto start = std::chrono::steady_clock::now();
  for (;;) {
    const auto r = waitpid(pid, &status, WNOHANG);
    if (r == pid) {
      break;
    }
    if (std::chrono::steady_clock::now() - start > std::chrono::seconds(cpu_limit * 4)) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(300);
  }
  Outcome o;
  const auto text = read_file(path);
  const auto a = text.find('\x01');
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && a != std::string::npos) {
    std::istringstream ss(text);
    int kind;
    std::size_t n;
    ss >> kind >> n;
    o.kind = static_cast<decltype(o.kind)>(kind);
    if (used) {
      used->resize(n);
      for (auto & v : *used) {
        ss >> v;
      }
    }
    const auto b = text.find('\x01', a + 1), d = text.find('\x01', b + 1);
    o.message = text.substr(a + 1, b - a - 1);
    o.log = text.substr(b + 1, d - b - 1);
  } else {
    o.kind = Outcome::crash;
    if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGKILL)) {
      o.message = "the case does not end (hang)";
    } else {
      auto e = read_file(err);
      std::string brief;
      std::istringstream ss(e);
      for (std::string line; std::getline(ss, line);) {
        if (
          line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos ||
          line.find("terminate") != std::string::npos || line.find("what()") != std::string::npos ||
          line.find("SUMMARY") != std::string::npos || line.find("ssertion") != std::string::npos ||
          line.find("#0 ") != std::string::npos || line.find("#1 ") != std::string::npos ||
          line.find("#2 ") != std::string::npos) {
          brief += line.substr(0, 300) + " | ";
        }
      }
      o.message = "crash (status " + std::to_string(status) + "): " + brief.substr(0, 1500);
    }
    if (used) {
      *used = choices;
    }
  }
  unlink(path);
  unlink(err.c_str());
  return o;
}

bool bad(const Outcome & o) { return o.kind == Outcome::fail || o.kind == Outcome::crash; }

// simpler = shorter, then lexicographically smaller
bool simpler(const std::vector<std::uint64_t> & a, const std::vector<std::uint64_t> & b)
{
  return a.size() != b.size() ? a.size() < b.size() : a < b;
}

std::vector<std::uint64_t> shrink(
  const Prop & p, std::vector<std::uint64_t> best, double seconds, std::size_t & tries)
{
  const auto start = std::chrono::steady_clock::now();
  const auto hang = [&]() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > seconds;
  };
  auto attempt = [&](std::vector<std::uint64_t> cand) {
    if (hang()) {
      return false;
    }
    ++tries;
    std::vector<std::uint64_t> used;
    const auto o = isolated(p, cand, &used);
    if (!bad(o)) {
      return false;
    }
    while (!used.empty() && o.kind == Outcome::crash && used.back() == 0) {
      used.pop_back();
    }
    if (!simpler(used, best)) {
      return false;
    }
    best = used;
    return true;
  };
  bool progress = true;
  while (progress && !hang()) {
    progress = false;
    // delete blocks
    for (std::size_t block = std::max<std::size_t>(best.size() / 2, 1); block >= 1; block /= 2) {
      for (std::size_t i = 0; i + block <= best.size() && !hang();) {
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + block);
        if (attempt(cand)) {
          progress = true;
        } else {
          i += block;
        }
      }
      if (block == 1) {
        break;
      }
    }
    // delete an element and lower an earlier one (a length)
    for (std::size_t i = 0; i < best.size() && best.size() < 200 && !hang(); ++i) {
      if (best[i] == 0 || best[i] > 64) {
        continue;
      }
      for (std::size_t block = 1; block <= 8 && i < best.size(); block *= 2) {
        for (std::size_t j = i + 1; j + block <= best.size() && j < i + 24 && !hang(); ++j) {
          auto cand = best;
          --cand[i];
          cand.erase(cand.begin() + j, cand.begin() + j + block);
          if (attempt(cand)) {
            progress = true;
            break;
          }
        }
      }
    }
    // zero blocks
    for (std::size_t block = 8; block >= 1; block /= 2) {
      for (std::size_t i = 0; i + block <= best.size() && !hang(); ++i) {
        if (std::all_of(best.begin() + i, best.begin() + i + block, [](auto v) { return v == 0; })) {
          continue;
        }
        auto cand = best;
        std::fill(cand.begin() + i, cand.begin() + i + block, 0);
        if (attempt(cand)) {
          progress = true;
        }
      }
      if (block == 1) {
        break;
      }
    }
    // lower single values by bisection
    for (std::size_t i = 0; i < best.size() && !hang(); ++i) {
      std::uint64_t lo = 0;
      while (i < best.size() && lo < best[i] && !hang()) {
        const auto mid = lo + (best[i] - lo) / 2;
        auto cand = best;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

void write_replay(
  const std::string & path, const std::string & property, const Prop & p,
  const std::vector<std::uint64_t> & choices, const Outcome & o, std::size_t tries)
{
  std::ofstream f(path);
  f << "{\"property\": " << quote(property) << ", \"prop\": " << quote(p.name)
    << ",\n \"message\": " << quote(o.message) << ",\n \"case\": " << quote(o.log)
    << ",\n \"shrink_attempts\": " << tries << ",\n \"choices\": [";
  for (std::size_t i = 0; i < choices.size(); ++i) {
    f << (i ? "," : "") << choices[i];
  }
  f << "]}\n";
}
}  // namespace

int main(int argc, char ** argv)
{
  std::map<std::string, std::string> opt;
  for (int i = 1; i + 1 < argc; i += 2) {
    opt[argv[i]] = argv[i + 1];
  }
  const auto get = [&](const std::string & k, const std::string & d) {
    return opt.count(k) ? opt[k] : d;
  };
  cpu_limit = static_cast<unsigned>(std::stoul(get("--cpu-limit", "30")));
  const auto property = get("--property", "?");
  const auto list = props();

  if (opt.count("--list")) {
    for (const auto & p : list) {
      std::cout << p.name << "\n";
    }
    return 0;
  }
  if (opt.count("--findings")) {
    for (const auto & f : findings()) {
      bool still = false;
      // a witness may crash: isolate
      std::cout.flush();
      const pid_t pid = fork();
      if (pid == 0) {
        const int e = open("/dev/null", O_WRONLY);
        dup2(e, 2);
        dup2(e, 1);
        arm();
        bool r = false;
        try {
          r = f.witness();
        } catch (...) {
          r = false;
        }
        _exit(r ? 42 : 0);
      }
      int status = 0;
      waitpid(pid, &status, 0);
      still = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
      std::cout << "FINDING " << f.key << " " << (still ? 1 : 0) << "\n";
    }
    return 0;
  }

  const auto find = [&](const std::string & name) -> const Prop * {
    for (const auto & p : list) {
      if (p.name == name) {
        return &p;
      }
    }
    return nullptr;
  };

  if (opt.count("--replay") || opt.count("--shrink")) {
    // a plain text file: prop name on line 1, choices on line 2
    std::ifstream f(opt.count("--replay") ? opt["--replay"] : opt["--shrink"]);
    std::string name;
    std::getline(f, name);
    std::vector<std::uint64_t> choices;
    for (std::uint64_t v; f >> v;) {
      choices.push_back(v);
    }
    const auto p = find(name);
    if (!p) {
      std::cout << "no such property: " << name << "\n";
      return 2;
    }
    if (opt.count("--replay")) {
      std::vector<std::uint64_t> used;
      const auto o = isolated(*p, choices, &used);
      std::cout << (bad(o) ? "BAD " : "GOOD ") << quote(o.message) << "\n";
      return bad(o) ? 1 : 0;
    }
    std::size_t tries = 0;
    for (int i = 0; i < 3; ++i) {  // must fail every time
      if (!bad(isolated(*p, choices, nullptr))) {
        std::cout << "NOT-REPRODUCED\n";
        return 0;
      }
    }
    auto best = shrink(*p, choices, std::stod(get("--shrink-seconds", "20")), tries);
    Outcome o;
    for (int i = 0; i < 3; ++i) {
      o = isolated(*p, best, nullptr);
      if (!bad(o)) {
        best = choices;
        o = isolated(*p, best, nullptr);
        break;
      }
    }
    write_replay(opt["--out"], property, *p, best, o, tries);
    std::cout << "BAD " << quote(o.message) << "\n";
    return 1;
  }

  const auto seed = std::stoull(get("--seed", "1"));
  const auto shard = std::stoull(get("--shard", "0"));
  const auto shards = std::stoull(get("--shards", "1"));
  const auto thorough = get("--tier", "quick") == "thorough";
  const auto budget = std::stod(get("--time", "300"));
  const auto scale = std::stod(get("--scale", "1"));
  const auto only = get("--only", "");
  if (opt.count("--current")) {
    const int fd = open(opt["--current"].c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    if (ftruncate(fd, sizeof(Current)) != 0) {
      return 2;
    }
    current = static_cast<Current *>(
      mmap(nullptr, sizeof(Current), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  const auto start = std::chrono::steady_clock::now();
  std::ofstream hashes(get("--hashes", "/dev/null"), std::ios::binary);
  std::ostringstream json;
  json << "{\"props\": [";
  bool failed = false, out_of_time = false;
  for (std::size_t pi = 0; pi < list.size() && !failed; ++pi) {
    const auto & p = list[pi];
    if (!only.empty() && p.name.find(only) == std::string::npos) {
      continue;
    }
    auto total = static_cast<std::size_t>((thorough ? p.thorough : p.quick) * scale);
    total = std::max<std::size_t>(total, 1);
    std::size_t evaluated = 0, discarded = 0, planned = 0, nontrivial = 0;
    std::map<std::string, std::size_t> labels, excluded;
    std::unordered_set<std::uint64_t> seen;
    std::vector<std::string> samples;
    for (std::size_t i = shard; i < total; i += shards) {
      ++planned;
      const auto elapsed =
        std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
      // the time left is shared evenly among the properties still to come
      if (elapsed > budget * static_cast<double>(pi + 1) / static_cast<double>(list.size())) {
        out_of_time = true;
        break;
      }
      std::uint64_t x = seed * 0x9e3779b97f4a7c15ULL ^ hash(p.name);
      x = splitmix(x) ^ i;
      Src s;
      s.seed(splitmix(x));
      Case c;
      if (current) {
        current->prop = pi;
        current->n = 0;
      }
      arm();
      const auto o = evaluate(p, s, c);
      if (o.kind == Outcome::discard) {
        ++discarded;
        if (!c.excluded_by.empty()) {
          ++excluded[c.excluded_by];
        }
        continue;
      }
      ++evaluated;
      for (const auto & l : c.labels) {
        ++labels[l];
      }
      if (c.is_nontrivial) {
        ++nontrivial;
        const auto h = hash(p.name + "\n" + (c.key.empty() ? o.log : c.key));
        if (seen.insert(h).second) {
          hashes.write(reinterpret_cast<const char *>(&h), sizeof h);
          if (samples.size() < 2 && !o.log.empty() && shard == 0 && seen.size() % 5 == 3) {
            samples.push_back(o.log.substr(0, 900));
          }
        }
      }
      if (o.kind == Outcome::fail) {
        failed = true;
        std::ofstream f(get("--fail", "/dev/stdout"));
        f << p.name << "\n";
        for (auto v : s.choices()) {
          f << v << " ";
        }
        f << "\n";
        std::cout << "FAIL " << p.name << ": " << o.message << "\n  case: " << o.log << "\n";
        break;
      }
    }
    json << (pi && json.str().back() != '[' ? ",\n" : "\n") << "{\"name\": " << quote(p.name)
         << ", \"planned\": " << planned
         << ", \"evaluated\": " << evaluated << ", \"discarded\": " << discarded
         << ", \"nontrivial\": " << nontrivial << ", \"labels\": {";
    bool first = true;
    for (const auto & [k, v] : labels) {
      json << (first ? "" : ", ") << quote(k) << ": " << v;
      first = false;
    }
    json << "}, \"excluded\": {";
    first = true;
    for (const auto & [k, v] : excluded) {
      json << (first ? "" : ", ") << quote(k) << ": " << v;
      first = false;
    }
    json << "}, \"samples\": [";
    first = true;
    for (const auto & s : samples) {
      json << (first ? "" : ", ") << quote(s);
      first = false;
    }
    json << "]}";
  }
  json << "], \"out_of_time\": " << (out_of_time ? "true" : "false") << "}\n";
  std::ofstream(get("--out", "/dev/stdout")) << json.str();
  hashes.flush();
  std::cout.flush();
  return failed ? 1 : 0;
}
}  // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char ** argv) { return vf::main(argc, argv); }
#endif
