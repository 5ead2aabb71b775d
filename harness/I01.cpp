// Storyboards: what is executed, when, how often and in which order.
#include "vf.hpp"
#include "interp_pch.hpp"
#include "story.hpp"
using namespace story;
using scenario::Run;

namespace
{
roads::Net & plain()
{
  static std::unique_ptr<roads::Net> net = [] {
    vf::Src s;
    s.seed(1);
    return roads::generate(s, {});
  }();
  return *net;
}
void compare(vf::Case & c, const Trigger & t, const boost::json::object & j, const std::string & where)
{
  const std::string value(j.at("currentValue").as_string());
  c.require(value == (t.value ? "true" : "false"), where, " is ", value);
  if (!t.given) return;
  const auto & groups = j.at("ConditionGroup").as_array();
  c.require(groups.size() == t.groups.size(), where, " has ", groups.size(), " groups");
  for (std::size_t g = 0; g < groups.size(); ++g) {
    const auto & conditions = groups[g].at("Condition").as_array();
    c.require(conditions.size() == t.groups[g].size(), where, " has ", conditions.size(), " conditions");
    if (!t.group_values.empty()) c.require(groups[g].at("currentValue").as_string() == (t.group_values[g] ? "true" : "false"), where, ": group ", g, " is ", groups[g].at("currentValue").as_string().c_str());
    for (std::size_t k = 0; k < conditions.size(); ++k)
      c.require(conditions[k].at("currentValue").as_string() == (t.groups[g][k].value ? "true" : "false"), where, ": condition ", k, " of group ", g, " is ", conditions[k].at("currentValue").as_string().c_str());
  }
}
void compare(vf::Case & c, const Element & e, const boost::json::object & j)
{
  const auto & n = e.name;
  if (e.level != Element::storyboard) c.require(j.at("name").as_string() == n, "an element is called ", j.at("name").as_string().c_str(), ", not ", n);
  c.require(j.at("currentState").as_string() == name(e.state), n, " is in ", j.at("currentState").as_string().c_str(), ", not in ", name(e.state));
  if (e.level == Element::group || e.level == Element::event) {
    c.require(j.at("currentExecutionCount").to_number<long>() == e.count, n, " has been executed ", j.at("currentExecutionCount").to_number<long>(), " times, not ", e.count);
    c.require(j.at("maximumExecutionCount").to_number<long>() == e.maximum, n, " is to be executed ", j.at("maximumExecutionCount").to_number<long>(), " times, not ", e.maximum);
  }
  if (e.level == Element::act || e.level == Element::event) compare(c, e.start_trigger, j.at("StartTrigger").as_object(), "the start trigger of " + n);
  if (e.level == Element::act || e.level == Element::storyboard) compare(c, e.stop_trigger, j.at("StopTrigger").as_object(), "the stop trigger of " + n);
  static const char * tags[] = {"Story", "", "Act", "ManeuverGroup", "Maneuver", "Event", "Action", ""};
  if (e.level == Element::action) return;
  const auto & below = j.at(tags[e.level]).as_array();
  std::vector<const Element *> children;
  for (const auto & child : e.children)
    if (child->level != Element::init) children.push_back(child.get());
  c.require(below.size() == children.size(), n, " has ", below.size(), " children");
  for (std::size_t i = 0; i < children.size(); ++i) compare(c, *children[i], below[i].as_object());
}
void play(vf::Src & s, vf::Case & c, Options options)
{
  auto board = generate(s, options);
  const auto parts = board->parts();
  c.log << parts.document().str();
  Run run(parts, plain());
  run.activate();
  c.require(std::isnan(run.time()), "the simulation time is ", run.time(), " before the start");
  run.frame();
  bool late = false;
  const auto frames = s.length(3, 40);
  for (std::size_t frame = 1; frame <= frames; ++frame) {
    // the world changes between frames
    for (auto & [k, v] : board->world.flags)
      if (s.chance(15)) {
        v = !v;
        run.script->ref(k).as<openscenario_interpreter::Boolean>() = v;
        c.log << frame << ": " << k << " = " << v << "\n";
      }
    board->world.now = run.time();
    c.require(std::abs(board->world.now - static_cast<double>(frame) * step) < 1e-9, "frame ", frame, " is at ", board->world.now);
    std::string expected = "goes on", actual = "goes on";
    long before = 0;
    for (auto * e : board->all) before += e->starts;
    try {
      board->root->evaluate();
    } catch (const Exit & e) {
      expected = e.success ? "exits with success" : "exits with failure";
    }
    long after = 0;
    for (auto * e : board->all) after += e->starts;
    if (frame > 1 && after > before) late = true;
    try {
      run.frame();
    } catch (const openscenario_interpreter::SpecialAction<EXIT_SUCCESS> &) {
      actual = "exits with success";
    } catch (const openscenario_interpreter::SpecialAction<EXIT_FAILURE> &) {
      actual = "exits with failure";
    }
    c.require(actual == expected, "in frame ", frame, " the scenario ", actual, ", not ", expected);
    if (expected != "goes on") {
      c.label(expected);
      break;
    }
    try {
      const auto document = run.json();
      compare(c, *board->root, document.at("OpenSCENARIO").at("Storyboard").as_object());
      for (const auto & [k, v] : board->world.flags) c.require(run.script->ref(k).as<openscenario_interpreter::Boolean>() == v, k, " is ", !v);
      for (const auto & [k, v] : board->world.counters) {
        const long told = run.script->ref(k).as<openscenario_interpreter::Integer>();
        c.require(told == v, k, " is ", told, ", not ", v);
      }
    } catch (const vf::Failure & f) {
      c.fail("after frame ", frame, ", ", f.what());
    }
  }
  for (auto * e : board->all) {
    if (e->level == Element::event && e->count > 1) c.label("an event is executed again");
    if (e->level == Element::group && e->count > 1) c.label("a group is executed again");
  }
  if (late) c.nontrivial();
}
}  // namespace

VF_PROP("story", 3000, 60000)
{
  play(s, c, {});
}
VF_PROP("exit", 1000, 20000)
{
  Options o;
  o.exits = true;
  play(s, c, o);
}
