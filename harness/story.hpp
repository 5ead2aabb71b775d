// Generated storyboards, and a reference model of how they are to be executed.
#ifndef STORY_HPP_
#define STORY_HPP_
#include "scenario.hpp"

namespace story
{
using scenario::Xml;
using scenario::num;

enum State { standby, start, running, end, complete, stop, skip };
inline const char * name(State s)
{
  static const char * n[] = {"standbyState", "startTransition", "runningState", "endTransition", "completeState", "stopTransition", "skipTransition"};
  return n[s];
}
struct Exit
{
  bool success;
};
struct Element;
struct World  // what the storyboard reads and writes
{
  double now = 0;
  std::map<std::string, bool> flags;
  std::map<std::string, long> counters;
};

struct Condition
{
  enum Kind { flag, time, state } kind = flag;
  std::string edge = "none", parameter;
  double delay = 0, threshold = 0;
  bool greater = true;
  bool expected = true;
  Element * element = nullptr;
  std::string reference, name;
  State watched = standby, seen = standby;
  bool value = false;
  std::vector<std::pair<double, bool>> samples;

  bool raw(const World & w);
  bool evaluate(const World & w)
  {
    samples.emplace_back(w.now, raw(w));
    // the samples that are at least as old as the delay
    std::vector<bool> old;
    for (const auto & [t, v] : samples)
      if (t <= w.now - delay) old.push_back(v);
    const std::size_t needed = edge == "none" || edge == "sticky" ? 1 : 2;
    if (old.size() < needed) return value = false;
    const bool a = old.back(), b = needed == 2 ? old[old.size() - 2] : false;
    if (edge == "none") value = a;
    else if (edge == "sticky") value = value || a;
    else if (edge == "rising") value = a && !b;
    else if (edge == "falling") value = b && !a;
    else value = a != b;
    return value;
  }
  Xml xml() const
  {
    Xml what = kind == flag ? Xml("ParameterCondition", {{"parameterRef", parameter}, {"value", expected ? "true" : "false"}, {"rule", "equalTo"}})
             : kind == time ? Xml("SimulationTimeCondition", {{"value", num(threshold)}, {"rule", greater ? "greaterThan" : "lessThan"}})
                            : Xml("StoryboardElementStateCondition", {{"storyboardElementType", "event"}, {"storyboardElementRef", reference}, {"state", story::name(watched)}});
    return Xml("Condition", {{"name", name}, {"delay", num(delay)}, {"conditionEdge", edge}}, {Xml("ByValueCondition", {}, {what})});
  }
};
struct Trigger
{
  std::vector<std::vector<Condition>> groups;
  bool given = false;
  bool otherwise = false;  // what a trigger that is not given evaluates to
  bool value = false;
  std::vector<bool> group_values;

  bool evaluate(const World & w)
  {
    if (!given) return value = otherwise;
    bool any = false;
    group_values.assign(groups.size(), false);
    for (std::size_t g = 0; g < groups.size(); ++g) {
      bool all = true;
      for (auto & condition : groups[g])
        if (!condition.evaluate(w)) all = false;
      group_values[g] = all;
      if (all) any = true;
    }
    return value = any;
  }
  Xml xml(const std::string & tag) const
  {
    Xml x(tag);
    for (const auto & g : groups) {
      Xml group("ConditionGroup");
      for (const auto & condition : g) group.add(condition.xml());
      x.add(group);
    }
    return x;
  }
};

struct Element
{
  enum Level { storyboard, init, story, act, group, maneuver, event, action } level;
  std::string name;
  Element * parent = nullptr;
  std::vector<std::unique_ptr<Element>> children;
  long maximum = 1, count = 0;
  State state = standby;
  Trigger start_trigger, stop_trigger;
  std::string priority = "parallel";
  // actions
  enum Effect { nothing, add, set, lasting, success, failure } effect = nothing;
  std::string parameter;
  long amount = 0;
  bool flag = false;
  double duration = 0, until = std::numeric_limits<double>::max();
  std::vector<Condition *> watchers;
  World * world = nullptr;
  long starts = 0;

  void enter(State s)
  {
    state = s;
    // an event with priority skip does not start while another event of its maneuver is running
    if (level == event && s == start && priority == "skip")
      for (const auto & sibling : parent->children)
        if (sibling->state == running) {
          enter(standby);
          break;
        }
    for (auto * watcher : watchers)
      if (watcher->watched == s) watcher->seen = state;
  }
  bool accomplished() const
  {
    if (level == action) return effect == lasting ? until < world->now : true;
    for (const auto & child : children)
      if (child->state != complete) return false;
    return true;
  }
  void begin()
  {
    ++starts;
    switch (level) {
      case group:
        for (auto & m : children) m->enter(start);
        break;
      case maneuver:  // a new execution: the events may execute again
        for (auto & e : children)
          if (e->state == complete) {
            e->count = 0;
            e->enter(standby);
          }
        break;
      case event:
        if (priority == "override")
          for (auto & sibling : parent->children) sibling->interrupt();
        for (auto & a : children) a->enter(start);
        break;
      case action:
        if (effect == add) world->counters[parameter] += amount;
        if (effect == set) world->flags[parameter] = flag;
        if (effect == lasting) until = world->now + duration;
        if (effect == success) throw Exit{true};
        if (effect == failure) throw Exit{false};
        break;
      default: break;
    }
  }
  bool interrupt()
  {
    if (state != running) return false;
    enter(stop);
    return true;
  }
  void evaluate()
  {
    if (stop_trigger.evaluate(*world)) interrupt();
    while (true) switch (state) {
        case standby:
          if (!start_trigger.evaluate(*world)) return;
          enter(start);
          if (state != start) return;
          break;
        case start:
          begin();
          enter(running);
          ++count;
          break;
        case running:
          for (auto & child : children) child->evaluate();
          if (!accomplished()) return;
          enter(end);
          break;
        case end: enter(count < maximum ? standby : complete); break;
        case stop:
          for (auto & child : children) {
            child->interrupt();
            if (child->state == stop) child->evaluate();
          }
          enter(complete);
          break;
        default: return;
      }
  }

  std::string path() const  // as conditions refer to it
  {
    return level == story ? name : parent->path() + "::" + name;
  }
  Xml xml() const
  {
    static const char * tags[] = {"", "", "Story", "Act", "ManeuverGroup", "Maneuver", "Event", "Action"};
    Xml x(tags[level], {{"name", name}});
    if (level == group) x.with("maximumExecutionCount", std::to_string(maximum)).add(Xml("Actors", {{"selectTriggeringEntities", "false"}}));
    if (level == event) x.with("maximumExecutionCount", std::to_string(maximum)).with("priority", priority);
    if (level == action) {
      const auto custom = [](const std::string & type) { return Xml("UserDefinedAction", {}, {Xml("CustomCommandAction", {{"type", type}})}); };
      switch (effect) {
        case nothing: x.add(custom(":")); break;
        case add: x.add(Xml("GlobalAction", {}, {Xml("ParameterAction", {{"parameterRef", parameter}}, {Xml("ModifyAction", {}, {Xml("Rule", {}, {Xml("AddValue", {{"value", std::to_string(amount)}})})})})})); break;
        case set: x.add(Xml("GlobalAction", {}, {Xml("ParameterAction", {{"parameterRef", parameter}}, {Xml("SetAction", {{"value", flag ? "true" : "false"}})})})); break;
        case lasting: x.add(custom("dummyLongRunningAction(" + num(duration) + ")")); break;
        case success: x.add(custom("exitSuccess")); break;
        case failure: x.add(custom("exitFailure")); break;
      }
    }
    for (const auto & child : children) x.add(child->xml());
    if (start_trigger.given) x.add(start_trigger.xml("StartTrigger"));
    if (stop_trigger.given && level == act) x.add(stop_trigger.xml("StopTrigger"));
    return x;
  }
};
inline bool Condition::raw(const World & w)
{
  switch (kind) {
    case flag: return w.flags.at(parameter) == expected;
    case time: return greater ? w.now > threshold : w.now < threshold;
    default: {
      // it was in the state since the last evaluation, or is now
      const bool passed = seen == watched;
      seen = element->state;
      return passed || seen == watched;
    }
  }
}
inline void forAll(Element & e, const std::function<void(Element &)> & f)
{
  f(e);
  for (auto & child : e.children) forAll(*child, f);
}

struct Options
{
  bool exits = false;
  std::size_t many = 3;
};
struct Board
{
  World world;
  std::unique_ptr<Element> root;
  std::vector<Element *> all;

  scenario::Parts parts() const
  {
    scenario::Parts p;
    for (const auto & [k, v] : world.flags) p.parameters.add(Xml("ParameterDeclaration", {{"name", k}, {"parameterType", "boolean"}, {"value", v ? "true" : "false"}}));
    for (const auto & [k, v] : world.counters) p.parameters.add(Xml("ParameterDeclaration", {{"name", k}, {"parameterType", "integer"}, {"value", std::to_string(v)}}));
    for (const auto & child : root->children)
      if (child->level == Element::story) p.stories.push_back(child->xml());
    p.stop = root->stop_trigger.xml("StopTrigger");
    return p;
  }
};

constexpr double step = 1. / 30;

inline std::unique_ptr<Board> generate(vf::Src & s, const Options & options)
{
  auto board = std::make_unique<Board>();
  board->world.now = std::numeric_limits<double>::quiet_NaN();
  for (int i = 0; i < 4; ++i) board->world.flags["p" + std::to_string(i)] = s.chance(25);
  for (int i = 0; i < 3; ++i) board->world.counters["n" + std::to_string(i)] = 0;
  int names = 0;
  const auto make = [&](Element::Level level, Element * parent) {
    auto e = std::make_unique<Element>();
    e->level = level;
    e->parent = parent;
    e->world = &board->world;
    e->start_trigger.otherwise = true;
    static const char * prefix[] = {"", "", "story", "act", "group", "maneuver", "event", "action"};
    e->name = prefix[level] + std::to_string(++names);
    board->all.push_back(e.get());
    return e;
  };
  const auto some = [&] { return s.chance(65) ? 1 : s.length(1, options.many); };
  board->root = make(Element::storyboard, nullptr);
  board->root->start_trigger.otherwise = true;
  board->root->children.push_back(make(Element::init, board->root.get()));
  for (std::size_t i = some(); i-- > 0;) {
    board->root->children.push_back(make(Element::story, board->root.get()));
    auto & story = *board->root->children.back();
    for (std::size_t j = some(); j-- > 0;) {
      story.children.push_back(make(Element::act, &story));
      auto & act = *story.children.back();
      for (std::size_t k = some(); k-- > 0;) {
        act.children.push_back(make(Element::group, &act));
        auto & group = *act.children.back();
        group.maximum = s.chance(75) ? 1 : s.chance(20) ? 0 : s.length(1, 3);
        for (std::size_t l = some(); l-- > 0;) {
          group.children.push_back(make(Element::maneuver, &group));
          auto & maneuver = *group.children.back();
          for (std::size_t m = s.length(1, options.many + 1); m-- > 0;) {
            maneuver.children.push_back(make(Element::event, &maneuver));
            auto & event = *maneuver.children.back();
            event.maximum = s.chance(70) ? 1 : s.length(1, 3);
            event.priority = s.pick({"parallel", "override", "skip"});
            for (std::size_t n = some(); n-- > 0;) {
              event.children.push_back(make(Element::action, &event));
              auto & action = *event.children.back();
              switch (s.index(8)) {
                case 0: action.effect = Element::nothing; break;
                case 1: case 2: case 3: action.effect = Element::add; break;
                case 4: action.effect = Element::set; break;
                case 5: case 6: action.effect = Element::lasting; break;
                default: action.effect = !options.exits ? Element::lasting : s.boolean() ? Element::success : Element::failure;
              }
              action.parameter = action.effect == Element::set ? "p" + std::to_string(s.index(4)) : "n" + std::to_string(s.index(3));
              action.amount = static_cast<long>(s.integer(1, 3));
              action.flag = s.boolean();
              action.duration = (static_cast<double>(s.length(8)) + 0.5) * step;
            }
          }
        }
      }
    }
  }
  const auto condition = [&](int i, Element * owner) {
    Condition c;
    c.name = "condition" + std::to_string(i);
    const auto kind = s.index(6);
    c.kind = kind < 3 ? Condition::flag : kind < 4 ? Condition::time : Condition::state;
    c.parameter = "p" + std::to_string(s.index(4));
    c.expected = s.chance(75);
    c.threshold = (static_cast<double>(s.length(20)) + 0.5) * step;
    c.greater = s.chance(75);
    c.edge = s.chance(50) ? "none" : s.pick({"rising", "falling", "risingOrFalling", "sticky"});
    c.delay = s.chance(80) ? 0 : (static_cast<double>(s.length(5)) + 0.5) * step;
    if (c.kind == Condition::state) {
      do c.element = board->all[s.index(board->all.size())];
      while (c.element->level < Element::story || (owner->level == Element::storyboard && c.element->level > Element::story));
      c.reference = c.element->path();
      // one of the surrounding frames knows it by its own name
      for (auto * e = owner; e; e = e->parent)
        if (c.element->parent == e && s.boolean()) c.reference = c.element->name;
      c.watched = s.pick({standby, start, running, end, complete, stop, running, complete});
    }
    return c;
  };
  const auto trigger = [&](Element * owner) {
    Trigger t;
    t.given = true;
    int i = 0;
    for (std::size_t g = s.chance(5) ? 0 : s.chance(75) ? 1 : s.length(1, 3); g-- > 0;) {
      t.groups.emplace_back();
      for (std::size_t n = s.chance(70) ? 1 : s.length(1, 3); n-- > 0;) t.groups.back().push_back(condition(++i, owner));
    }
    return t;
  };
  const auto all = board->all;
  for (auto * e : all) {
    if (e->level == Element::event && s.chance(80)) e->start_trigger = trigger(e);
    if (e->level == Element::act && s.chance(50)) e->start_trigger = trigger(e);
    if (e->level == Element::act && s.chance(30)) e->stop_trigger = trigger(e);
    if (e->level == Element::storyboard) {
      if (s.chance(15)) e->stop_trigger = trigger(e);
      e->stop_trigger.given = true;
    }
  }
  for (auto * e : all)
    for (auto * t : {&e->start_trigger, &e->stop_trigger})
      for (auto & g : t->groups)
        for (auto & cond : g)
          if (cond.kind == Condition::state) cond.element->watchers.push_back(&cond);
  return board;
}
}  // namespace story
#endif
