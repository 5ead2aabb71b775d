// Status monitor: which threads are reported, whether they are good, their access intervals.
#include <atomic>
#include <boost/lexical_cast.hpp>
#include <condition_variable>
#include <filesystem>
#include <nlohmann/json.hpp>
#include <status_monitor/status_monitor.hpp>
#include <unistd.h>

#include "vf.hpp"
using Clock = std::chrono::high_resolution_clock;

// threads stay alive until the end of the process: their ids are not used again
struct Worker
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> job;
  bool busy = false;
  std::thread thread;
  Worker()
  {
    thread = std::thread([this] {
      std::unique_lock<std::mutex> lock(m);
      for (;;) {
        cv.wait(lock, [this] { return busy; });
        job();
        busy = false;
        cv.notify_all();
      }
    });
    thread.detach();
  }
  void run(std::function<void()> f)
  {
    std::unique_lock<std::mutex> lock(m);
    job = std::move(f);
    busy = true;
    cv.notify_all();
    cv.wait(lock, [this] { return !busy; });
  }
};
struct Ref
{
  Worker * worker;
  std::string id, name;
  bool exited = false;
  struct Touch { Clock::time_point before, after; };
  std::vector<Touch> touches;
};
std::vector<std::unique_ptr<Ref>> all;  // every thread of this process that ever touched
std::string statusPath()
{
  return "/tmp/" + std::filesystem::path(program_invocation_name).filename().string() + "_status.json";
}
std::size_t offset = 0;
// the watchdog opens the file at some time after the start, and holds the lock while it writes (a process forked then would wait for ever)
const bool opened = [] {
  for (int i = 0; i < 1500; ++i) {
    std::ifstream g(statusPath());
    if (g.good() && g.peek() != EOF) break;
    std::this_thread::sleep_for(std::chrono::milliseconds(10));
  }
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  return true;
}();
// the line that this call wrote: the watchdog may add more of its own
nlohmann::json written(vf::Case & c)
{
  common::status_monitor.write();
  std::ifstream f(statusPath());
  c.require(f.good(), "no status file");
  f.seekg(offset);
  std::string line, last;
  while (std::getline(f, line)) {
    if (!f.eof()) offset = f.tellg();
    last = line;
  }
  return nlohmann::json::parse(last);
}
long ms(Clock::duration d) { return std::chrono::duration_cast<std::chrono::milliseconds>(d).count(); }

void verify(vf::Case & c, long threshold)
{
  const auto before = Clock::now();
  const auto j = written(c);
  const auto after = Clock::now();
  c.require(j.at("threshold").get<long>() == threshold, "threshold ", j.at("threshold").dump(), " instead of ", threshold);
  c.require(j.at("name").get<std::string>() == std::filesystem::path(program_invocation_name).filename().string(), "name ", j.at("name").dump());
  const long now = std::chrono::duration_cast<std::chrono::seconds>(after.time_since_epoch()).count();
  c.require(std::abs(j.at("unix_time").get<long>() - now) <= 3, "time ", j.at("unix_time").dump());
  std::map<std::string, nlohmann::json> threads;
  for (const auto & t : j.at("threads")) c.require(threads.emplace(t.at("thread_id").get<std::string>(), t).second, "a thread is listed twice");
  bool good = true, sure = true;
  std::size_t known = 0;
  for (const auto & r : all) {
    if (r->touches.empty()) continue;
    ++known;
    const auto i = threads.find(r->id);
    c.require(i != threads.end(), "thread ", r->id, " is missing");
    const auto & t = i->second;
    c.require(t.at("name") == r->name, "thread is called ", t.at("name").dump(), " instead of ", r->name);
    const auto & last = r->touches.back();
    const double low = std::chrono::duration<double>(before - last.after).count(), high = std::chrono::duration<double>(after - last.before).count();
    const long since = t.at("since_last_access_ms").get<long>();
    c.require(since >= low * 1000 - 1 && since <= high * 1000 + 2000, "last access ", since, " ms ago instead of ", low * 1000);
    const bool certain = r->exited || high < threshold || low >= threshold, ok = r->exited || high < threshold;
    if (certain) c.require(t.at("good").get<bool>() == ok, "thread ", r->name, " is good: ", !ok, ", last access ", since, " ms ago, threshold ", threshold, " s");
    else sure = false;
    good &= ok;
    if (r->touches.size() > 1) {
      long min_low = LONG_MAX, min_high = LONG_MAX, max_low = 0, max_high = 0;
      for (std::size_t k = 1; k < r->touches.size(); ++k) {
        const long lo = std::max(0L, ms(r->touches[k].before - r->touches[k - 1].after)), hi = ms(r->touches[k].after - r->touches[k - 1].before) + 1;
        min_low = std::min(min_low, lo);
        min_high = std::min(min_high, hi);
        max_low = std::max(max_low, lo);
        max_high = std::max(max_high, hi);
      }
      const long min = t.at("minimum_access_interval_ms").get<long>(), max = t.at("maximum_access_interval_ms").get<long>();
      c.require(min_low - 1 <= min && min <= min_high, "shortest interval ", min, " instead of ", min_low, " to ", min_high);
      c.require(max_low - 1 <= max && max <= max_high, "longest interval ", max, " instead of ", max_low, " to ", max_high);
    }
  }
  c.require(threads.size() == known, threads.size(), " threads are listed, ", known, " are known");
  if (sure) c.require(j.at("good").get<bool>() == good, "all is good: ", !good);
}

void touch(Ref & r, const std::string & name)
{
  r.worker->run([&] {
    const auto before = Clock::now();
    common::status_monitor.touch(name);
    r.touches.push_back({before, Clock::now()});
  });
  if (r.touches.size() == 1) r.name = name;
}

void body(vf::Src & s, vf::Case & c, bool slow)
{
  std::vector<Ref *> mine;
  for (std::size_t n = s.length(1, 3); n--;) {
    auto r = std::make_unique<Ref>();
    r->worker = new Worker;
    r->worker->run([&] { r->id = boost::lexical_cast<std::string>(std::this_thread::get_id()); });
    mine.push_back(r.get());
    all.push_back(std::move(r));
  }
  // whatever earlier cases left: their threads are done
  for (auto & r : all) {
    if (!r->touches.empty() && !r->exited) {
      r->worker->run([] { common::StatusMonitor local; });
      r->exited = true;
    }
  }
  long threshold = 5000;
  common::status_monitor.updateThreshold(std::chrono::seconds(threshold));
  bool interesting = false;
  const std::size_t n = s.length(1, slow ? 6 : 14);
  for (std::size_t i = 0; i < n; ++i) {
    Ref & r = *s.pick(mine);
    const long k = &r - mine[0] ? std::find(mine.begin(), mine.end(), &r) - mine.begin() : 0;
    switch (s.draw(slow ? 7 : 6)) {
      case 0:
      case 1: {
        const std::string name = s.pick({"a", "b", "interpreter"});
        c.log << "touch " << k << " " << name << "; ";
        touch(r, name);
        break;
      }
      case 2:
        threshold = slow ? s.pick({1L, 5000L, 2L}) : s.pick({5000L, 0L, 9000L});
        c.log << "threshold " << threshold << "; ";
        common::status_monitor.updateThreshold(std::chrono::seconds(threshold));
        break;
      case 3: {  // override in a thread, maybe leaving it by an exception
        const long inner = slow ? s.pick({1L, 5000L}) : s.pick({0L, 7000L});
        const bool thrown = s.chance(25);
        c.log << "override " << k << " " << inner << (thrown ? " throws; " : "; ");
        const bool first = r.touches.empty();
        Ref::Touch a, b;
        std::exception_ptr e;
        int result = 0;
        r.worker->run([&] {
          a.before = Clock::now();
          try {
            result = common::status_monitor.overrideThreshold(std::chrono::seconds(inner), [&] {
              a.after = Clock::now();
              r.touches.push_back(a);
              if (first) r.name = "";
              try {
                verify(c, inner);
              } catch (...) {
                e = std::current_exception();
              }
              b.before = Clock::now();
              if (thrown) throw 3;
              return 42;
            });
            if (thrown) result = -1;
          } catch (int) {
            result = 42;
          }
          b.after = Clock::now();
          r.touches.push_back(b);
        });
        if (e) std::rethrow_exception(e);
        c.require(result == 42, "the overriding call returned ", result);
        interesting = true;
        break;
      }
      case 4:
        c.log << "exit " << k << "; ";
        r.worker->run([] { common::StatusMonitor local; });
        if (!r.touches.empty()) r.exited = true;
        interesting = true;
        break;
      case 5:
        c.log << "check; ";
        verify(c, threshold);
        break;
      default:
        c.log << "sleep; ";
        std::this_thread::sleep_for(std::chrono::milliseconds(s.pick({1100, 30})));
        interesting = true;
    }
  }
  verify(c, threshold);
  if (interesting) c.nontrivial();
}

VF_PROP("threads and thresholds", 480, 1600) { body(s, c, false); }
VF_PROP("passing time", 16, 200) { body(s, c, true); }
