// JUnit reports: both writers, read back with an XML parser.
#include <unistd.h>

#include <algorithm>
#include <iostream>
#include <vector>

#include <filesystem>
#include <simple_junit/junit5.hpp>
#include <simple_junit/test_suites.hpp>

#include "vf.hpp"

const std::string alphabet = "abcXYZ 019._-/<>&\"'\n\t;:#[]{}%\\";
std::string word(vf::Src & s, std::size_t min = 0)
{
  std::string t = s.text(alphabet, 8, min);
  if (s.chance(10)) t += "\xc3\xa9\xe6\x97\xa5";
  return t;
}
std::string tmp(const char * what) { return std::string(what) + "." + std::to_string(getpid()) + ".xml"; }
std::string attr(const pugi::xml_node & n, const char * a) { return n.attribute(a).value(); }
bool has(const pugi::xml_node & n, const char * a) { return !n.attribute(a).empty(); }

struct RefCase
{
  std::string assertions, time, classname, status;
  std::vector<std::pair<std::string, std::string>> failures, errors;
  std::size_t passed = 0;
};
using RefSuite = std::map<std::string, RefCase>;

std::size_t number(vf::Case & c, const pugi::xml_node & n, const char * a)
{
  c.require(has(n, a), n.name(), " has no ", a);
  return n.attribute(a).as_ullong(999999);
}

VF_PROP("scenario results", 12000, 300000)
{
  common::JUnit5 doc;
  if (s.boolean()) doc.name = word(s);
  std::map<std::string, RefSuite> ref;
  std::vector<std::string> suites, cases;
  for (std::size_t i = s.length(1, 3); i--;) suites.push_back(word(s, 1));
  for (std::size_t i = s.length(1, 4); i--;) cases.push_back(word(s, 1));
  const std::size_t n = s.length(12);
  c.log << "name " << vf::quote(doc.name);
  for (std::size_t i = 0; i < n; ++i) {
    const std::string & a = s.pick(suites);
    const std::string & b = s.pick(cases);
    c.log << "; " << vf::quote(a) << "/" << vf::quote(b) << " ";
    auto & t = doc.testsuite(a).testcase(b);
    auto & r = ref[a][b];
    switch (s.draw(5)) {
      case 0:
        t.pass.emplace_back();
        ++r.passed;
        c.log << "pass";
        break;
      case 1:
      case 2: {
        const auto type = word(s), message = word(s);
        t.failure.emplace_back(type, message);
        r.failures.push_back({type, message});
        c.log << "failure " << vf::quote(type) << vf::quote(message);
        break;
      }
      case 3: {
        const auto type = word(s), message = word(s);
        t.error.emplace_back(type, message);
        r.errors.push_back({type, message});
        c.log << "error " << vf::quote(type) << vf::quote(message);
        break;
      }
      default: {
        const auto v = word(s);
        switch (s.draw(4)) {
          case 0: t.time = r.time = v; break;
          case 1: t.classname = r.classname = v; break;
          case 2: t.status = r.status = v; break;
          default: t.assertions = r.assertions = v;
        }
        c.log << "attribute " << vf::quote(v);
      }
    }
  }
  const std::string path = tmp("junit5");
  doc.write_to(path.c_str(), "  ");
  pugi::xml_document got;
  const auto parsed = got.load_file(path.c_str());
  c.require(static_cast<bool>(parsed), "the report is no XML: ", parsed.description());
  const auto root = got.child("testsuites");
  c.require(root && attr(root, "name") == doc.name && has(root, "name") == !doc.name.empty(), "the report is named ", vf::quote(attr(root, "name")));
  std::size_t tests = 0, failures = 0, errors = 0, seen = 0;
  for (const auto & suite : root.children("testsuite")) {
    const auto i = ref.find(attr(suite, "name"));
    c.require(i != ref.end(), "unknown suite ", vf::quote(attr(suite, "name")));
    std::size_t st = 0, sf = 0, se = 0, count = 0;
    std::set<std::string> names;
    for (const auto & test : suite.children("testcase")) {
      const auto j = i->second.find(attr(test, "name"));
      c.require(j != i->second.end(), "unknown test ", vf::quote(attr(test, "name")));
      c.require(names.insert(j->first).second, "test ", vf::quote(j->first), " twice");
      const auto & r = j->second;
      ++count;
      for (const auto & [key, value] : {std::make_pair("assertions", r.assertions), std::make_pair("time", r.time), std::make_pair("classname", r.classname), std::make_pair("status", r.status)}) {
        c.require(attr(test, key) == value && has(test, key) == !value.empty(), key, " is ", vf::quote(attr(test, key)), " instead of ", vf::quote(value));
      }
      for (const auto & [kind, list] : {std::make_pair("failure", r.failures), std::make_pair("error", r.errors)}) {
        std::vector<std::pair<std::string, std::string>> found;
        for (const auto & f : test.children(kind)) {
          found.push_back({attr(f, "type"), attr(f, "message")});
          c.require(has(f, "type") == !found.back().first.empty() && has(f, "message") == !found.back().second.empty(), "an empty attribute");
        }
        c.require(found == list, found.size(), " ", kind, "s of ", vf::quote(j->first), " are reported, there were ", list.size(), " (or their texts differ)");
      }
      st += r.passed + r.failures.size() + r.errors.size();
      sf += r.failures.size();
      se += r.errors.size();
    }
    c.require(count == i->second.size(), "suite ", vf::quote(i->first), " lists ", count, " tests instead of ", i->second.size());
    c.require(number(c, suite, "tests") == st && number(c, suite, "failures") == sf && number(c, suite, "errors") == se, "the suite counts ", attr(suite, "tests"), " tests, ", attr(suite, "failures"), " failures, ", attr(suite, "errors"), " errors instead of ", st, " ", sf, " ", se);
    tests += st;
    failures += sf;
    errors += se;
    ++seen;
  }
  c.require(seen == ref.size(), seen, " suites are reported instead of ", ref.size());
  c.require(number(c, root, "tests") == tests && number(c, root, "failures") == failures && number(c, root, "errors") == errors, "the report counts ", attr(root, "tests"), " tests, ", attr(root, "failures"), " failures, ", attr(root, "errors"), " errors instead of ", tests, " ", failures, " ", errors);
  if (tests > 1) c.nontrivial();
  std::filesystem::remove(path);
}

static vf::RegisterFinding truncated("truncated-total-time", [] {
  junit::TestSuites doc;
  doc.addTestCase("a", "b", 1.5, junit::TestResult::SUCCESS);
  return doc.getTotalTime() != 1.5;
});

VF_PROP("random test results", 12000, 300000)
{
  junit::TestSuites doc;
  struct One { std::string name; double time; junit::TestResult result; std::string description; };
  std::map<std::string, std::vector<One>> ref;
  std::vector<std::string> suites, cases;
  for (std::size_t i = s.length(1, 3); i--;) suites.push_back(word(s, 1));
  for (std::size_t i = s.length(1, 4); i--;) cases.push_back(word(s, 1));
  const std::size_t n = s.length(10);
  double total = 0;
  for (std::size_t i = 0; i < n; ++i) {
    const std::string & a = s.pick(suites);
    const std::string & b = s.pick(cases);
    const One one{b, s.real(0, 20), s.pick({junit::TestResult::SUCCESS, junit::TestResult::FAILURE, junit::TestResult::ERROR}), word(s)};
    c.log << "; " << vf::quote(a) << "/" << vf::quote(b) << " " << static_cast<int>(one.result) << " " << one.time << " " << vf::quote(one.description);
    bool known = false;
    for (const auto & x : ref[a]) known |= x.name == b;
    c.require(doc.contains(a, b) == known, "contains ", vf::quote(a), "/", vf::quote(b), " is ", !known);
    if (ref[a].empty()) ref.erase(a);
    doc.addTestCase(a, b, one.time, one.result, "type", one.description);
    c.require(doc.contains(a, b), "the added test is missing");
    if (!known) {  // the first result of a test counts
      ref[a].push_back(one);
      total += one.time;
    }
  }
  // finding truncated-total-time: the time of every suite is truncated to whole seconds
  double least = 0, most = 0;
  for (const auto & [suite, list] : ref) {
    double t = 0;
    for (const auto & x : list) t += x.time;
    least += std::floor(t - 1e-9);
    most += std::floor(t + 1e-9);
  }
  const auto right = [&](double t) {
    if (vf::close(t, total, 1e-9, 1e-9)) return true;
    if (t == std::floor(t) && std::max(0.0, least) <= t && t <= most) {
      c.label("total time truncated (known finding)");
      return true;
    }
    return false;
  };
  c.require(right(doc.getTotalTime()), "total time ", doc.getTotalTime(), " instead of ", total);
  const std::string path = tmp("suites");
  if (s.boolean()) std::ofstream(path) << "old contents, longer than the report maybe" << std::string(s.draw(5000), 'x');
  doc.write(path);
  pugi::xml_document got;
  const auto parsed = got.load_file(path.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
  c.require(static_cast<bool>(parsed), "the report is no XML: ", parsed.description());
  const auto root = got.child("testsuites");
  c.require(right(root.attribute("time").as_double(-1)), "total time ", attr(root, "time"), " instead of ", total);
  c.require(number(c, root, "tests") == ref.size(), attr(root, "tests"), " suites instead of ", ref.size());
  c.require(attr(root, "timestamp").size() >= 15, "timestamp ", attr(root, "timestamp"));
  std::size_t seen = 0;
  for (const auto & suite : root.children("testsuite")) {
    const auto i = ref.find(attr(suite, "name"));
    c.require(i != ref.end(), "unknown suite ", vf::quote(attr(suite, "name")));
    ++seen;
    c.require(number(c, suite, "tests") == i->second.size(), "the suite counts ", attr(suite, "tests"));
    std::size_t k = 0;
    for (const auto & test : suite.children("testcase")) {
      c.require(k < i->second.size(), "too many tests");
      const One & r = i->second[k++];
      c.require(attr(test, "name") == r.name && attr(test, "classname") == i->first, "test ", vf::quote(attr(test, "name")), " of ", vf::quote(attr(test, "classname")), " instead of ", vf::quote(r.name));
      c.require(vf::close(test.attribute("time").as_double(-1), r.time, 1e-9, 1e-9), "time ", attr(test, "time"), " instead of ", r.time);
      const auto failure = test.child("failure"), error = test.child("error");
      c.require(!failure.empty() == (r.result == junit::TestResult::FAILURE) && !error.empty() == (r.result == junit::TestResult::ERROR), "result of ", vf::quote(r.name), " is not the added one");
      const auto node = failure ? failure : error;
      if (node) {
        c.require(!attr(node, "message").empty(), "no message");
        std::string text = node.child_value();
        if (r.description.find_first_not_of(" \n\t") != std::string::npos) c.require(text == r.description, "description ", vf::quote(text), " instead of ", vf::quote(r.description));
      }
    }
    c.require(k == i->second.size(), k, " tests instead of ", i->second.size());
  }
  c.require(seen == ref.size(), seen, " suites are reported instead of ", ref.size());
  if (n > 1) c.nontrivial();
  std::filesystem::remove(path);
}
