// Job lists against a model.
#include <traffic_simulator/job/job_list.hpp>

#include "vf.hpp"
using namespace traffic_simulator::job;

VF_PROP("jobs run, replace each other and clean up", 60000, 2000000)
{
  JobList list;
  struct Ref { Type type; bool exclusive; Event event; bool active; double elapsed; int ends_at; };
  std::vector<Ref> ref;
  std::vector<std::string> got, expected;
  const std::size_t n = s.length(25);
  int replaced = 0, finished = 0;
  // jobs of one type are either all exclusive (they replace each other), or each type occurs once
  const bool exclusive = !s.chance(25);
  for (std::size_t i = 0; i < n; ++i) {
    if (s.chance(40)) {
      const int id = static_cast<int>(ref.size());
      const Type type = static_cast<Type>(s.draw(6));
      const Event event = s.boolean() ? Event::PRE_UPDATE : Event::POST_UPDATE;
      const int ends_at = static_cast<int>(s.draw(6)) - 1;  // number of updates before the one that finishes it; -1: never
      bool used = false;
      for (const auto & r : ref) used |= r.type == type && r.active;
      if (!exclusive && used) continue;
      c.log << "append " << id << " type " << static_cast<int>(type) << (event == Event::PRE_UPDATE ? " pre" : " post") << " ends " << ends_at << "; ";
      for (std::size_t k = 0; k < ref.size(); ++k) {
        if (ref[k].active && ref[k].type == type) {
          ref[k].active = false;
          ++replaced;
          expected.push_back("cleanup " + std::to_string(k));
        }
      }
      ref.push_back({type, exclusive, event, true, 0, ends_at});
      auto calls = std::make_shared<int>(0);
      list.append(
        [&got, id, ends_at, calls](double t) {
          std::ostringstream ss;
          ss << "update " << id << " " << t;
          got.push_back(ss.str());
          return (*calls)++ == ends_at;
        },
        [&got, id] { got.push_back("cleanup " + std::to_string(id)); }, type, exclusive, event);
    } else {
      const double step = s.pick({0.05, 0.1, 0.0, 1.0});
      const Event event = s.boolean() ? Event::PRE_UPDATE : Event::POST_UPDATE;
      c.log << "update " << (event == Event::PRE_UPDATE ? "pre " : "post ") << step << "; ";
      list.update(step, event);
      for (std::size_t k = 0; k < ref.size(); ++k) {
        auto & r = ref[k];
        if (!r.active || r.event != event) continue;
        std::ostringstream ss;
        ss << "update " << k << " " << r.elapsed;
        expected.push_back(ss.str());
        if (r.ends_at-- == 0) {
          r.active = false;
          ++finished;
          expected.push_back("cleanup " + std::to_string(k));
        }
        r.elapsed += step;
      }
    }
    if (got != expected) {
      std::string g, e;
      for (const auto & x : got) g += x + ", ";
      for (const auto & x : expected) e += x + ", ";
      c.fail("calls were ", g, " instead of ", e);
    }
  }
  if (replaced + finished) c.nontrivial();
}

VF_PROP("a single job", 20000, 400000)
{
  int updates = 0, cleanups = 0;
  const int last = static_cast<int>(s.draw(5));
  double seen = -1;
  const Type type = static_cast<Type>(s.draw(6));
  const bool exclusive = s.boolean();
  const Event event = s.boolean() ? Event::PRE_UPDATE : Event::POST_UPDATE;
  Job job([&](double t) { seen = t; return updates++ == last; }, [&] { ++cleanups; }, type, exclusive, event);
  c.require(job.type == type && job.exclusive == exclusive && job.event == event, "the job's kind");
  double elapsed = 0;
  bool active = true;
  int u = 0, k = 0;
  for (std::size_t n = s.length(10); n--;) {
    c.require((job.getStatus() == Status::ACTIVE) == active, "status after ", updates, " updates");
    if (s.chance(10)) {
      job.inactivate();
      active = false;
      ++k;
      c.log << "inactivate; ";
    } else {
      const double step = s.pick({0.1, 0.0, 2.0});
      c.log << "update " << step << "; ";
      const double at = elapsed;
      job.onUpdate(step);
      if (active) {
        c.require(seen == at, "the job is told ", seen, " instead of ", at);
        elapsed += step;
        if (u++ == last) active = false, ++k;
      }
    }
    c.require(updates == u && cleanups == k, updates, " updates and ", cleanups, " cleanups instead of ", u, " and ", k);
  }
  if (u) c.nontrivial();
}
