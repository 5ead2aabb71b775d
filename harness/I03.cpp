// Parameters: values, expressions, names and catalogs.
#include "vf.hpp"
#include "interp_pch.hpp"
#include "scenario.hpp"
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/reader/evaluate.hpp>
#include <openscenario_interpreter/syntax/misc_object.hpp>
#include <openscenario_interpreter/syntax/parameter_condition.hpp>
#include <openscenario_interpreter/syntax/parameter_declarations.hpp>
#include <openscenario_interpreter/syntax/parameter_modify_action.hpp>
#include <openscenario_interpreter/syntax/parameter_set_action.hpp>
#include <openscenario_interpreter/syntax/pedestrian.hpp>
#include <openscenario_interpreter/syntax/vehicle.hpp>
namespace osc = openscenario_interpreter;
using osc::Scope;
using scenario::num;
using scenario::Xml;

namespace
{
pugi::xml_node parse(pugi::xml_document & d, const Xml & x)
{
  d.load_string(x.str().c_str());
  return d.first_child();
}
// ---------------------------------------------------------------- values
struct V
{
  char type = 'i';  // integer, double, boolean, string, unsigned, h: unsigned short
  double x = 0;
  std::string text;
  bool operator==(const V & o) const { return type == o.type && (type == 's' ? text == o.text : x == o.x); }
};
const char * typeName(char t)
{
  switch (t) {
    case 'i': return "integer";
    case 'd': return "double";
    case 'b': return "boolean";
    case 's': return "string";
    case 'u': return "unsignedInt";
    default: return "unsignedShort";
  }
}
osc::Object object(const V & v)
{
  switch (v.type) {
    case 'i': return osc::make<osc::Integer>(static_cast<int>(v.x));
    case 'd': return osc::make<osc::Double>(v.x);
    case 'b': return osc::make<osc::Boolean>(v.x != 0);
    case 's': return osc::make<osc::String>(v.text);
    case 'u': return osc::make<osc::UnsignedInteger>(static_cast<unsigned>(v.x));
    default: return osc::make<osc::UnsignedShort>(static_cast<unsigned short>(v.x));
  }
}
V value(const osc::Object & o)
{
  if (o.is<osc::Integer>()) return {'i', static_cast<double>(static_cast<std::int64_t>(o.as<osc::Integer>())), ""};
  if (o.is<osc::Double>()) return {'d', o.as<osc::Double>(), ""};
  if (o.is<osc::Boolean>()) return {'b', static_cast<double>(static_cast<bool>(o.as<osc::Boolean>())), ""};
  if (o.is<osc::String>()) return {'s', 0, o.as<osc::String>()};
  if (o.is<osc::UnsignedInteger>()) return {'u', static_cast<double>(static_cast<std::uint64_t>(o.as<osc::UnsignedInteger>())), ""};
  if (o.is<osc::UnsignedShort>()) return {'h', static_cast<double>(static_cast<unsigned short>(o.as<osc::UnsignedShort>())), ""};
  throw vf::Failure("an object of no known type");
}
std::ostream & operator<<(std::ostream & os, const V & v)
{
  os << typeName(v.type) << " ";
  if (v.type == 's') return os << '"' << v.text << '"';
  if (v.type == 'b') return os << (v.x ? "true" : "false");
  return os << num(v.x);
}
std::string literal(vf::Src & s, const V & v)
{
  if (v.type == 's') return v.text;
  if (v.type == 'b') return v.x ? "true" : "false";
  if (v.type != 'd') return std::to_string(static_cast<long long>(v.x));
  if (std::isinf(v.x)) return v.x > 0 ? s.pick({"INF", "+INF"}) : "-INF";
  if (v.x == std::floor(v.x) && std::abs(v.x) < 1e6 && s.boolean()) return std::to_string(static_cast<long long>(v.x));
  char b[64];
  std::snprintf(b, sizeof b, s.chance(20) ? "%.17e" : s.chance(10) ? "%.17E" : "%.17g", v.x);
  return b;
}
V draw(vf::Src & s, char type)
{
  V v;
  v.type = type;
  switch (type) {
    case 'i': v.x = static_cast<double>(s.chance(20) ? s.integer(-2147483648LL, 2147483647LL) : s.integer(-20, 20)); break;
    case 'd': v.x = s.chance(5) ? std::numeric_limits<double>::infinity() * (s.boolean() ? 1 : -1) : s.chance(30) ? s.anyFinite() : s.chance(50) ? s.real(-100, 100) : static_cast<double>(s.integer(-10, 10)); break;
    case 'b': v.x = s.boolean(); break;
    case 's': v.text = s.text("abXY019 _.-/", 12, 1); break;
    case 'u': v.x = static_cast<double>(s.chance(20) ? s.integer(0, 4294967295LL) : s.integer(0, 20)); break;
    default: v.x = static_cast<double>(s.chance(20) ? s.integer(0, 65535) : s.integer(0, 20));
  }
  return v;
}
// ---------------------------------------------------------------- expressions
struct Node
{
  V v;
  std::string text;
  int level;  // of the grammar: 0 or, 1 and, 2 sum, 3 product, 4 sign and not, 5 functions and atoms
};
struct Maker
{
  vf::Src & s;
  std::map<std::string, V> & parameters;
  std::string gap() { return s.chance(30) ? " " : ""; }
  std::string inside(const Node & n, int level) { return n.level >= level && !s.chance(15) ? n.text : gap() + "(" + gap() + n.text + gap() + ")" + gap(); }
  bool whole(const V & v) { return v.type != 'd' && v.type != 'b'; }
  Node atom(char kind)  // 'b' or 'n'
  {
    if (s.chance(40)) {
      std::vector<std::string> names;
      for (const auto & [k, v] : parameters)
        if (v.type != 's' && (v.type == 'b') == (kind == 'b')) names.push_back(k);
      if (!names.empty()) {
        const auto name = names[s.index(names.size())];
        return {parameters[name], "$" + name, 5};
      }
    }
    V v;
    v.type = kind == 'b' ? 'b' : s.boolean() ? 'i' : 'd';
    if (v.type == 'b') v.x = s.boolean();
    else if (v.type == 'i') v.x = static_cast<double>(s.integer(0, 50));
    else v.x = static_cast<double>(s.integer(0, 4000)) / s.pick({8., 10., 1000., 1e7});
    if (v.type != 'd') return {v, literal(s, v), 5};
    char b[64];
    std::snprintf(b, sizeof b, s.boolean() ? "%.17g" : "%.9f", v.x);
    std::string t = b;
    if (t.find_first_of(".e") == std::string::npos) t += ".0";
    v.x = std::stod(t);
    return {v, t, 5};
  }
  // what C++ makes of whole numbers
  char wider(const V & a, const V & b) { return a.type == 'd' || b.type == 'd' ? 'd' : a.type == 'u' || b.type == 'u' ? 'u' : 'i'; }
  bool fits(const V & v) { return std::isfinite(v.x) && std::abs(v.x) < 1e6 && !(v.type == 'u' && v.x < 0); }
  Node make(char kind, int depth)
  {
    if (depth == 0 || s.chance(15)) return atom(kind);
    if (kind == 'b') {
      switch (s.index(3)) {
        case 0: {
          const auto a = make('b', depth - 1), b = make('b', depth - 1);
          return {{'b', static_cast<double>(a.v.x || b.v.x), ""}, inside(a, 0) + " or " + inside(b, 1), 0};
        }
        case 1: {
          const auto a = make('b', depth - 1), b = make('b', depth - 1);
          return {{'b', static_cast<double>(a.v.x && b.v.x), ""}, inside(a, 1) + " and " + inside(b, 2), 1};
        }
        default: {
          const auto a = make('b', depth - 1);
          return {{'b', static_cast<double>(!a.v.x), ""}, "not " + inside(a, 5), 4};
        }
      }
    }
    Node n;
    switch (s.index(8)) {
      case 0: {
        const auto a = make('n', depth - 1), b = make('n', depth - 1);
        n = {{wider(a.v, b.v), a.v.x + b.v.x, ""}, inside(a, 2) + gap() + "+" + gap() + inside(b, 3), 2};
        break;
      }
      case 1: {
        const auto a = make('n', depth - 1), b = make('n', depth - 1);
        n = {{wider(a.v, b.v), a.v.x - b.v.x, ""}, inside(a, 2) + gap() + "-" + gap() + inside(b, 3), 2};
        break;
      }
      case 2: {
        const auto a = make('n', depth - 1), b = make('n', depth - 1);
        n = {{wider(a.v, b.v), a.v.x * b.v.x, ""}, inside(a, 3) + gap() + "*" + gap() + inside(b, 4), 3};
        break;
      }
      case 3: {
        const auto a = make('n', depth - 1), b = make('n', depth - 1);
        n = {{'d', a.v.x / b.v.x, ""}, inside(a, 3) + gap() + "/" + gap() + inside(b, 4), 3};
        break;
      }
      case 4: {
        const auto a = make('n', depth - 1), b = make('n', depth - 1);
        const auto exact = [](double x) { return x * 8 == std::floor(x * 8); };
        if (!exact(a.v.x) || !exact(b.v.x)) return atom('n');
        n = {{'d', std::fmod(a.v.x, b.v.x), ""}, inside(a, 3) + gap() + "%" + gap() + inside(b, 4), 3};
        break;
      }
      case 5: {
        const auto a = make('n', depth - 1);
        n = {{a.v.type == 'd' ? 'd' : a.v.type == 'u' ? 'u' : 'i', -a.v.x, ""}, "-" + gap() + inside(a, 5), 4};
        break;
      }
      case 6: {
        const auto a = make('n', depth - 1);
        const std::string f = s.pick({"round", "floor", "ceil", "sqrt"});
        const double x = f == "round" ? std::round(a.v.x) : f == "floor" ? std::floor(a.v.x) : f == "ceil" ? std::ceil(a.v.x) : std::sqrt(a.v.x);
        // a result next to a jump would depend on how the digits of a literal are read
        const double jump = f == "sqrt" ? 1 : std::abs(a.v.x * 2 - std::round(a.v.x * 2));
        if (jump != 0 && jump < 1e-6) return atom('n');
        n = {{f == "sqrt" ? 'd' : 'i', x, ""}, f + gap() + "(" + gap() + a.text + gap() + ")", 5};
        break;
      }
      default: {
        const auto a = make('n', depth - 1), b = make('n', depth - 1);
        n = {{'d', std::pow(a.v.x, b.v.x), ""}, "pow" + gap() + "(" + gap() + a.text + gap() + "," + gap() + b.text + gap() + ")", 5};
      }
    }
    // -0 and 0 are one whole number
    if (n.v.type != 'd' && n.v.x == 0) n.v.x = 0;
    return fits(n.v) ? n : atom('n');
  }
};
std::map<std::string, V> someParameters(vf::Src & s)
{
  std::map<std::string, V> p;
  int i = 0;
  for (char type : {'i', 'd', 'b', 'u', 'h', 'i', 'd', 'b'}) {
    V v = draw(s, type);
    if (type == 'd') v.x = s.real(-50, 50);
    if (type == 'i') v.x = static_cast<double>(s.integer(-50, 50));
    if (type == 'u' || type == 'h') v.x = static_cast<double>(s.integer(0, 50));
    p[s.pick({"p", "or_", "x_", "T", "not"}) + std::to_string(++i)] = v;
  }
  return p;
}
Scope withParameters(const std::map<std::string, V> & p)
{
  Scope scope(nullptr);
  for (const auto & [k, v] : p) scope.insert(k, object(v));
  return scope;
}
}  // namespace

VF_PROP("expression", 6000, 120000)
{
  auto parameters = someParameters(s);
  const auto scope = withParameters(parameters);
  Maker m{s, parameters};
  const auto n = m.make(s.chance(35) ? 'b' : 'n', static_cast<int>(s.length(1, 5)));
  for (const auto & [k, v] : parameters) c.log << k << " = " << v << "\n";
  c.log << n.text << "\n";
  if (s.chance(15)) {  // what is not an expression
    std::string broken = n.text;
    const bool boolean = n.v.type == 'b';
    switch (s.index(6)) {
      case 0: broken += " " + std::string(s.pick({")", "* ", "or", "+", "$p", "1", "and", "/"})); break;
      case 1: broken = "(" + broken; break;
      case 2: broken = "(" + broken + ") " + (boolean ? s.pick({"+ 1", "* 2", "/ 2.5", "- $u", "% 2"}) : s.pick({"or true", "and false"})); break;
      case 3: broken = boolean ? "-(" + broken + ")" : "not (" + broken + ")"; break;
      case 4: broken = "(" + broken + ")" + (boolean ? " or $nosuch" : " + $nosuch"); break;
      default: broken = boolean ? "round(" + broken + ")" : "pow(" + broken + ")";
    }
    c.log << "broken: " << broken << "\n";
    try {
      const auto r = osc::reader::evaluate(broken, scope);
      c.fail("the invalid expression ", broken, " is ", r);
    } catch (const std::exception &) {
    }
    c.label("invalid");
    c.nontrivial(broken);
    return;
  }
  const auto told = osc::reader::evaluate(n.text, scope);
  if (n.v.type == 'b') {
    c.require(told == (n.v.x ? "true" : "false"), n.text, " is ", told);
    c.label("boolean");
  } else {
    char * end = nullptr;
    const double x = std::strtod(told.c_str(), &end);
    c.require(!told.empty() && !*end, n.text, " is ", told, ", not a number");
    c.require(std::abs(x - n.v.x) <= 1e-12 * std::max(1e-3, std::abs(n.v.x)), n.text, " is ", told, ", not ", num(n.v.x));
    if (n.v.type != 'd') c.require(told == std::to_string(static_cast<long long>(n.v.x)), n.text, " is ", told, ", not an integer");
    c.label(n.v.type == 'd' ? "double" : "integer");
  }
  if (n.level < 5 || n.text.find('(') != std::string::npos) c.nontrivial(n.text);
}

namespace
{
template <typename T>
V read(const Xml & x, const Scope & scope, const char * name = "a")
{
  pugi::xml_document d;
  const auto node = parse(d, x);
  if constexpr (std::is_same_v<T, osc::Rule>) return {'r', static_cast<double>(osc::readAttribute<T>(name, node, scope).value), ""};
  else return value(osc::make<T>(osc::readAttribute<T>(name, node, scope)));
}
V read(char type, const Xml & x, const Scope & scope)
{
  switch (type) {
    case 'i': return read<osc::Integer>(x, scope);
    case 'd': return read<osc::Double>(x, scope);
    case 'b': return read<osc::Boolean>(x, scope);
    case 's': return read<osc::String>(x, scope);
    case 'u': return read<osc::UnsignedInteger>(x, scope);
    default: return read<osc::UnsignedShort>(x, scope);
  }
}
}  // namespace
VF_PROP("attribute", 6000, 120000)
{
  const char type = "idbsuh"[s.index(6)];
  const V v = draw(s, type);
  Scope scope(nullptr);
  scope.insert("p", object(v));
  scope.insert("word", osc::make<osc::String>("w-1"));
  std::string text;
  V expected = v;
  switch (s.index(type == 's' ? 5 : 4)) {
    case 0: text = literal(s, v); break;
    case 1: text = "$p"; break;
    case 2:
      // an infinite or textual parameter cannot be calculated with
      text = type == 's' || (type == 'd' && std::isinf(v.x)) ? "$p" : "${" + std::string(s.chance(50) ? " " : "") + "$p }";
      break;
    case 3: text = "$(var p)"; break;
    default:
      text = "x$(var word)/$(var p)" + std::string(s.pick({"", "y", ".$(var word)"}));
      expected.text = "xw-1/" + v.text + (text.back() == 'y' ? "y" : text.find(").$") != std::string::npos ? ".w-1" : "");
  }
  c.log << typeName(type) << " a=\"" << text << "\", p is " << v << "\n";
  if (s.chance(25)) {  // invalid
    std::string bad;
    switch (s.index(5)) {
      case 0: bad = "$nosuch"; break;
      case 1: bad = "${ $nosuch }"; break;
      case 2: bad = "$(nosuch p)"; break;
      case 3: bad = type == 's' ? "$nosuch" : literal(s, v) + s.pick({"x", " 1", "1e", "(", "true"}); break;
      default:
        bad = type == 'i' ? s.pick({"9223372036854775808", "-9223372036854775809", "1.5", "x", "0x10"})
            : type == 'u' ? s.pick({"18446744073709551616", "-1", "1.5", "-0.5", "x", "-4294967295"})
            : type == 'h' ? s.pick({"65536", "-1", "1.5", "x", "-65535"})
            : type == 'd' ? s.pick({"1.5.5", "one", "1,5", "--1"})
            : type == 'b' ? s.pick({"yes", "True", "2", "truefalse"})
                          : "$nosuch";
    }
    c.log << "invalid: " << bad << "\n";
    try {
      const auto r = read(type, Xml("X", {{"a", bad}}), scope);
      c.fail("the invalid value ", bad, " for a ", typeName(type), " is read as ", r);
    } catch (const vf::Failure &) {
      throw;
    } catch (const std::exception &) {
    }
    c.label("invalid");
    c.nontrivial(bad);
    return;
  }
  const auto told = read(type, Xml("X", {{"a", text}}), scope);
  if (type == 'd' && std::isfinite(expected.x)) c.require(std::abs(told.x - expected.x) <= (text[0] == '$' ? 1e-15 * std::max(1e-14, std::abs(expected.x)) + 1e-29 : 0), text, " is read as ", told, ", not ", expected);
  else c.require(told == expected, text, " is read as ", told, ", not ", expected);
  {
    pugi::xml_document d;
    const auto node = parse(d, Xml("X", {{"b", "1"}}));
    VF_THROWS(osc::SyntaxError, osc::readAttribute<osc::Double>("a", node, scope));
    const double fallback = s.real(-5, 5);
    c.require(osc::readAttribute<osc::Double>("a", node, scope, osc::Double(fallback)) == fallback, "the default of an attribute is not used");
    c.require(osc::readAttribute<osc::Double>("b", node, scope, osc::Double(fallback)) == 1, "the default of an attribute is used although it is given");
    c.require(!osc::readAttribute<osc::Double>("a", node, scope, std::nullopt).has_value(), "an optional attribute is found");
  }
  // what is written can be read again
  std::stringstream ss;
  ss << object(v);
  if (type != 's') {
    const auto again = read(type, Xml("X", {{"a", ss.str()}}), scope);
    if (type == 'd' && std::isfinite(v.x)) c.require(std::abs(again.x - v.x) <= 1e-15 * std::abs(v.x) + 1e-29, v, " is written as ", ss.str());
    else c.require(again == v, v, " is written as ", ss.str());
  }
  c.label(typeName(type));
  if (text[0] == '$' || text.find("$(") != std::string::npos) c.nontrivial();
}

namespace
{
struct Frame
{
  std::string name;
  Frame * parent = nullptr;
  std::vector<std::unique_ptr<Frame>> children;
  std::multimap<std::string, int> variables;
  std::unique_ptr<Scope> scope;

  std::vector<int> own(const std::string & n) const
  {
    std::vector<int> r;
    const auto range = variables.equal_range(n);
    for (auto i = range.first; i != range.second; ++i) r.push_back(i->second);
    return r;
  }
  // the innermost frame around that knows the name; frames without a name are part of the one around them
  std::vector<int> find(const std::string & n) const
  {
    for (const Frame * f = this; f; f = f->parent) {
      for (std::vector<const Frame *> level{f}; !level.empty();) {
        std::vector<int> found;
        std::vector<const Frame *> next;
        for (auto * g : level) {
          for (int i : g->own(n)) found.push_back(i);
          for (auto & h : g->children)
            if (h->name.empty()) next.push_back(h.get());
        }
        if (!found.empty()) return found;
        level = next;
      }
    }
    return {};
  }
  std::vector<const Frame *> called(const std::string & n) const
  {
    std::vector<const Frame *> r;
    for (auto & h : children)
      if (h->name == n) r.push_back(h.get());
    if (r.empty())
      for (auto & h : children)
        if (h->name.empty())
          for (auto * f : h->called(n)) r.push_back(f);
    return r;
  }
};
}  // namespace
VF_PROP("scope", 6000, 120000)
{
  int serial = 0;
  std::vector<Frame *> all;
  Frame root;
  root.scope = std::make_unique<Scope>(nullptr);
  std::function<void(Frame &, int)> grow = [&](Frame & f, int depth) {
    all.push_back(&f);
    for (std::size_t i = s.length(3); i-- > 0;) {
      const std::string name = s.pick({"x", "y", "z"});
      f.variables.emplace(name, ++serial);
      f.scope->insert(name, osc::make<osc::Integer>(serial));
    }
    if (depth == 0) return;
    for (std::size_t i = s.length(3); i-- > 0;) {
      f.children.push_back(std::make_unique<Frame>());
      auto & h = *f.children.back();
      h.name = s.chance(25) ? "" : s.pick({"A", "B", "C", "D"});
      h.parent = &f;
      h.scope = std::make_unique<Scope>(h.name, *f.scope);
      grow(h, depth - 1);
    }
  };
  grow(root, static_cast<int>(s.length(1, 4)));
  std::function<void(const Frame &, int)> show = [&](const Frame & f, int depth) {
    c.log << std::string(2 * depth, ' ') << "{" << f.name;
    for (auto & [n, v] : f.variables) c.log << " " << n << "=" << v;
    c.log << "\n";
    for (auto & h : f.children) show(*h, depth + 1);
  };
  show(root, 0);
  bool deep = false;
  for (int i = 0; i < 8; ++i) {
    const auto * from = all[s.index(all.size())];
    const std::string name = s.pick({"x", "y", "z"});
    std::string text;
    std::vector<int> expected;
    bool ambiguous = false;
    switch (s.index(3)) {
      case 0:
        text = name;
        expected = from->find(name);
        if (from->own(name).empty() && !expected.empty()) deep = true;
        break;
      case 1:
        text = "::" + name;
        expected = root.find(name);
        break;
      default: {
        // an element beside this one or one around it, and one below
        const std::string a = s.pick({"A", "B", "C", "D"});
        std::vector<const Frame *> there;
        for (auto * f = from->parent; f && there.empty(); f = f->parent) there = f->called(a);
        if (there.empty()) continue;
        text = a;
        if (there.size() > 1) ambiguous = true;
        auto * g = there.front();
        if (!ambiguous && s.boolean()) {
          const std::string b = s.pick({"A", "B", "C", "D"});
          const auto below = g->called(b);
          if (below.empty()) continue;
          text += "::" + b;
          if (below.size() > 1) ambiguous = true;
          g = below.front();
        }
        text += "::" + name;
        if (!ambiguous && g->own(name).empty()) continue;
        expected = g->own(name);
        deep = true;
      }
    }
    std::string where = text + " in " + (from->name.empty() ? "a frame" : from->name);
    c.log << where << ":" << (ambiguous ? " ambiguous" : "");
    for (int v : expected) c.log << " " << v;
    c.log << "\n";
    if (ambiguous || expected.size() != 1) {
      try {
        const auto r = from->scope->ref(text);
        c.fail(where, " is ", value(r), " although it is ", ambiguous || expected.size() > 1 ? "ambiguous" : "unknown");
      } catch (const osc::SyntaxError &) {
      }
      c.label(expected.empty() && !ambiguous ? "unknown" : "ambiguous");
    } else {
      try {
        const auto r = value(from->scope->ref(text));
        c.require(r.x == expected[0], where, " is ", r, ", not ", expected[0]);
      } catch (const osc::SyntaxError & e) {
        c.fail(where, ": ", e.what());
      }
      c.label("found");
    }
  }
  if (deep) c.nontrivial();
}

namespace
{
const char * rules[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};
bool holds(const V & a, const std::string & rule, const V & b)
{
  const int order = a.type == 's' ? a.text.compare(b.text) : a.x < b.x ? -1 : a.x > b.x ? 1 : 0;
  return rule == "equalTo" ? order == 0 : rule == "greaterThan" ? order > 0 : rule == "lessThan" ? order < 0 : rule == "greaterOrEqual" ? order >= 0 : rule == "lessOrEqual" ? order <= 0 : order != 0;
}
V small(vf::Src & s, char type)
{
  V v = draw(s, type);
  if (type == 's') v.text = s.text("ab", 2, 1);
  else if (type == 'b') return v;
  else if (type == 'd') v.x = static_cast<double>(s.integer(-20, 20)) / 4;
  else v.x = static_cast<double>(type == 'i' ? s.integer(-5, 5) : s.integer(0, 8));
  return v;
}
}  // namespace
VF_PROP("parameter", 5000, 100000)
{
  Scope scope(nullptr);
  std::map<std::string, V> model;
  // declarations, with or without constraints
  for (int i = 0; i < 4; ++i) {
    const std::string name = "p" + std::to_string(i);
    V v = small(s, "idbsuh"[s.index(6)]);
    Xml x("ParameterDeclaration", {{"name", name}, {"parameterType", typeName(v.type)}, {"value", literal(s, v)}});
    bool any = false, given = false;
    if (v.type != 's' && v.type != 'b' && s.chance(40))
      for (std::size_t g = s.length(1, 3); g-- > 0;) {
        Xml group("ConstraintGroup");
        bool all = true;
        for (std::size_t k = s.length(1, 2); k-- > 0;) {
          const V limit = small(s, v.type);
          const std::string rule = rules[s.index(6)];
          all = all && holds(v, rule, limit);
          group.add(Xml("ValueConstraint", {{"rule", rule}, {"value", literal(s, limit)}}));
        }
        x.add(group);
        any = any || all;
        given = true;
      }
    c.log << x.str();
    pugi::xml_document d;
    const auto node = parse(d, x);
    bool accepted = true;
    try {
      osc::ParameterDeclaration declaration(node, scope);
    } catch (const osc::SyntaxError &) {
      accepted = false;
    }
    c.require(accepted == (!given || any), name, " is ", accepted ? "accepted" : "refused");
    if (!accepted) {
      c.label("constraint violated");
      bool known = true;
      try {
        scope.ref(name);
      } catch (const osc::SyntaxError &) {
        known = false;
      }
      c.require(!known, name, " is known although its declaration is refused");
      continue;
    }
    model[name] = v;
    c.require(value(scope.ref(name)) == v, name, " is ", value(scope.ref(name)), ", not ", v);
  }
  {
    pugi::xml_document d;
    const auto node = parse(d, Xml("ParameterDeclaration", {{"name", "OSCx"}, {"parameterType", "integer"}, {"value", "1"}}));
    VF_THROWS(osc::SyntaxError, osc::ParameterDeclaration(node, scope));
  }
  if (model.empty()) return;
  // and a history of actions and conditions
  bool changed = false;
  for (std::size_t n = s.length(1, 12); n-- > 0;) {
    const std::string name = std::next(model.begin(), static_cast<long>(s.index(model.size())))->first;
    V & v = model[name];
    const std::string reference = s.chance(20) ? "::" + name : name;
    switch (s.index(3)) {
      case 0: {
        const V w = small(s, v.type);
        const std::string rule = rules[s.index(6)];
        pugi::xml_document d;
        const auto text = literal(s, w);
        const auto node = parse(d, Xml("ParameterCondition", {{"parameterRef", reference}, {"rule", rule}, {"value", text}}));
        c.log << reference << " " << rule << " " << w << "?\n";
        const osc::ParameterCondition condition(node, scope);
        c.require(condition.evaluate().as<osc::Boolean>() == holds(v, rule, w), name, " = ", v, " ", rule, " ", w, " is ", !holds(v, rule, w));
        if (v.type != 's') {
          const auto bad = parse(d, Xml("ParameterCondition", {{"parameterRef", reference}, {"rule", rule}, {"value", text + " x"}}));
          const osc::ParameterCondition refused(bad, scope);
          VF_THROWS(std::exception, refused.evaluate());
        }
        break;
      }
      case 1: {
        const V w = small(s, v.type);
        pugi::xml_document d;
        const auto node = parse(d, Xml("SetAction", {{"value", literal(s, w)}}));
        c.log << reference << " := " << w << "\n";
        osc::ParameterSetAction action(node, scope, reference);
        c.require(value(scope.ref(name)) == v, name, " changed before the action starts");
        action.start();
        c.require(osc::ParameterSetAction::accomplished(), "setting a parameter takes time");
        if (!(v == w)) changed = true;
        v = w;
        break;
      }
      default: {
        const bool add = s.boolean();
        double by = add ? static_cast<double>(s.integer(-6, 6)) : s.pick({0., 1., 2., 0.5, 3., 1.5});
        if (v.type == 'd' && s.boolean()) by += 0.25;
        const double result = add ? v.x + by : v.x * by;
        const bool numeric = v.type != 's' && v.type != 'b';
        const double most = v.type == 'i' ? 2147483647. : v.type == 'u' ? 4294967295. : 65535;
        // results that the type cannot hold are not specified
        if (numeric && v.type != 'd' && (result != std::floor(result) || std::abs(result) > most || (v.type != 'i' && result < 0))) break;
        pugi::xml_document d;
        const auto node = parse(d, Xml("ModifyAction", {}, {Xml("Rule", {}, {Xml(add ? "AddValue" : "MultiplyByValue", {{"value", num(by)}})})}));
        c.log << reference << (add ? " += " : " *= ") << by << "\n";
        osc::ParameterModifyAction action(node, scope, reference);
        if (!numeric) {
          VF_THROWS(std::exception, action.start());
        } else {
          action.start();
          if (v.x != result) changed = true;
          v.x = result;
        }
      }
    }
    for (const auto & [k, w] : model) {
      const auto told = value(scope.ref(k));
      c.require(told == w, k, " is ", told, ", not ", w);
    }
  }
  if (changed) c.nontrivial();
}

// ---------------------------------------------------------------- objects and catalogs
namespace
{
struct Slot  // a number that appears in the description of an object
{
  std::string text;
  double x;
};
struct Description
{
  Xml xml{""};
  std::string kind, name, category;
  double center[3], size[3], performance[5], axle[2][5];
  bool limited[5];
};
roads::Net & plain()
{
  static std::unique_ptr<roads::Net> net = [] {
    vf::Src s;
    s.seed(1);
    return roads::generate(s, {});
  }();
  return *net;
}
}  // namespace
VF_PROP("objects", 1500, 30000)
{
  scenario::Parts parts;
  const std::string directory = scenario::scratch() + "/catalogs";
  std::filesystem::remove_all(directory);
  std::filesystem::create_directory(directory);
  std::map<std::string, double> globals;
  for (int i = 0; i < 2; ++i) {
    const std::string name = "g" + std::to_string(i);
    globals[name] = static_cast<double>(s.integer(1, 40)) / 4;
    parts.parameters.add(Xml("ParameterDeclaration", {{"name", name}, {"parameterType", "double"}, {"value", num(globals[name])}}));
  }
  const std::vector<std::pair<std::string, int>> categories = {{"car", traffic_simulator_msgs::msg::EntitySubtype::CAR}, {"bus", traffic_simulator_msgs::msg::EntitySubtype::BUS}, {"truck", traffic_simulator_msgs::msg::EntitySubtype::TRUCK},
    {"bicycle", traffic_simulator_msgs::msg::EntitySubtype::BICYCLE}, {"motorbike", traffic_simulator_msgs::msg::EntitySubtype::MOTORCYCLE}, {"trailer", traffic_simulator_msgs::msg::EntitySubtype::TRAILER}, {"van", traffic_simulator_msgs::msg::EntitySubtype::UNKNOWN}};
  // an object whose numbers are written in terms of its parameters; the numbers depend on what is assigned to them
  struct Made
  {
    Xml xml;
    std::string kind, name, category;
    std::map<std::string, double> defaults;
    std::map<std::string, std::function<double(const std::map<std::string, double> &)>> numbers;
  };
  const auto make = [&](const std::string & kind, const std::string & name, bool in_catalog) {
    Made m{Xml(kind, {{"name", name}}), kind, name, "", {}, {}};
    Xml declarations("ParameterDeclarations");
    for (std::size_t i = s.chance(70) ? 2 : s.length(2); i-- > 0;) {
      const std::string p = i && s.chance(20) ? "g0" : "p" + std::to_string(i);
      m.defaults[p] = static_cast<double>(s.integer(1, 40)) / 4;
      declarations.add(Xml("ParameterDeclaration", {{"name", p}, {"parameterType", "double"}, {"value", num(m.defaults[p])}}));
    }
    const auto number = [&](const std::string & key) -> std::string {
      const double k = static_cast<double>(s.integer(1, 12)) / 4;
      std::vector<std::string> names;
      for (auto & [p, v] : m.defaults) names.push_back(p);
      if (key == "mass") names.clear();  // an attribute of the object itself comes before its declarations
      if (names.empty() || s.chance(20)) names.push_back("g1");
      const auto p = names[s.index(names.size())];
      const auto of = [globals](const std::map<std::string, double> & a, const std::string & p) { return a.count(p) ? a.at(p) : globals.at(p); };
      switch (s.index(3)) {
        case 0: m.numbers[key] = [k](auto &) { return k; }; return num(k);
        case 1: m.numbers[key] = [of, p](auto & a) { return of(a, p); }; return "$" + p;
        default: m.numbers[key] = [of, p, k](auto & a) { return of(a, p) * k + 1; }; return "${ $" + p + " * " + num(k) + " + 1 }";
      }
    };
    (void)in_catalog;
    if (kind == "Vehicle") {
      m.category = categories[s.index(categories.size())].first;
      m.xml.with("vehicleCategory", m.category);
    } else if (kind == "Pedestrian") {
      m.xml.with("mass", number("mass")).with("model", "").with("pedestrianCategory", "pedestrian");
    } else {
      m.xml.with("mass", number("mass")).with("miscObjectCategory", "obstacle");
    }
    if (!m.defaults.empty() || s.boolean()) m.xml.add(declarations);
    m.xml.add(Xml("BoundingBox", {}, {Xml("Center", {{"x", number("cx")}, {"y", number("cy")}, {"z", number("cz")}}), Xml("Dimensions", {{"width", number("width")}, {"length", number("length")}, {"height", number("height")}})}));
    if (kind == "Vehicle") {
      Xml performance("Performance");
      for (const std::string key : {"maxSpeed", "maxAcceleration", "maxDeceleration", "maxAccelerationRate", "maxDecelerationRate"})
        if (key.size() < 16 || s.boolean()) performance.with(key, number(key));
      m.xml.add(performance);
      Xml axles("Axles");
      for (const std::string axle : {"FrontAxle", "RearAxle"}) {
        Xml x(axle);
        for (const std::string key : {"maxSteering", "wheelDiameter", "trackWidth", "positionX", "positionZ"}) x.with(key, number(axle + key));
        axles.add(x);
      }
      m.xml.add(axles);
    }
    m.xml.add(Xml("Properties"));
    return m;
  };
  struct Entry
  {
    std::string catalog;
    Made made;
  };
  std::vector<Entry> entries;
  std::map<std::string, int> occurrences;
  const std::vector<std::string> kinds = {"Vehicle", "Pedestrian", "MiscObject"};
  const std::size_t catalogs = s.length(s.chance(80) ? 1 : 0, 3);
  std::set<std::string> directories;
  for (std::size_t i = 0; i < catalogs; ++i) {
    const auto kind = kinds[s.index(3)];
    const std::string catalog = "catalog" + std::to_string(i);
    Xml x("Catalog", {{"name", catalog}});
    for (std::size_t n = s.length(1, 3); n-- > 0;) {
      const std::string name = "entry" + std::to_string(s.chance(95) ? entries.size() : 0);
      entries.push_back({catalog, make(kind, name, true)});
      x.add(entries.back().made.xml);
      ++occurrences[catalog + "/" + name];
    }
    const Xml file("OpenSCENARIO", {}, {Xml("FileHeader", {{"revMajor", "1"}, {"revMinor", "0"}, {"date", "2021-01-01T00:00:00"}, {"description", ""}, {"author", ""}}), x});
    std::filesystem::create_directory(directory + "/" + kind);
    std::ofstream(directory + "/" + kind + "/" + catalog + ".xosc") << file.str();
    c.log << kind << "/" << catalog << ":\n" << file.str();
    if (directories.insert(kind).second) parts.catalogs.add(Xml(kind + "Catalog", {}, {Xml("Directory", {{"path", s.boolean() ? directory + "/" + kind : "$(dirname)/catalogs/" + kind}})}));
  }
  struct Expected
  {
    std::string entity;
    Made made;
    std::map<std::string, double> assigned;
  };
  std::vector<Expected> expected;
  bool invalid = false, assigned = false;
  for (std::size_t i = 0, n = s.length(1, 4); i < n; ++i) {
    const std::string entity = "entity" + std::to_string(i);
    Xml x("ScenarioObject", {{"name", entity}});
    if (!entries.empty() && s.chance(70)) {
      auto & e = entries[s.index(entries.size())];
      std::map<std::string, double> a = e.made.defaults;
      std::string catalog = e.catalog, name = e.made.name;
      if (s.chance(4)) catalog += "x";
      if (s.chance(4)) name += "x";
      if (catalog != e.catalog || name != e.made.name || occurrences[e.catalog + "/" + e.made.name] > 1) invalid = true;
      Xml reference("CatalogReference", {{"catalogName", catalog}, {"entryName", name}});
      if (s.chance(60)) {
        Xml assignments("ParameterAssignments");
        for (auto & [p, v] : a)
          if (s.boolean()) {
            const bool global = s.chance(30);
            v = global ? globals["g1"] : static_cast<double>(s.integer(1, 40)) / 4;
            assignments.add(Xml("ParameterAssignment", {{"parameterRef", p}, {"value", global ? "$g1" : num(v)}}));
            assigned = true;
          }
        reference.add(assignments);
      }
      x.add(reference);
      expected.push_back({entity, e.made, a});
    } else {
      const auto m = make(kinds[s.index(3)], "object" + std::to_string(i), false);
      x.add(m.xml);
      expected.push_back({entity, m, m.defaults});
    }
    parts.entities.add(x);
  }
  c.log << parts.entities.str();
  std::unique_ptr<scenario::Run> run;
  try {
    run = std::make_unique<scenario::Run>(parts, plain());
  } catch (const osc::SyntaxError & e) {
    c.require(invalid, "the scenario is refused: ", e.what());
    c.label("refused");
    return;
  }
  c.require(!invalid, "a reference to an entry that does not exist or is not the only one of its name is accepted");
  for (auto & e : expected) {
    const auto & object = run->definition().entities.at(e.entity).as<osc::ScenarioObject>();
    const auto is = [&](const char * key, double told, double otherwise = std::numeric_limits<double>::quiet_NaN()) {
      const auto f = e.made.numbers.find(key);
      const double x = f == e.made.numbers.end() ? otherwise : f->second(e.assigned);
      c.require(told == x || std::abs(told - x) < 1e-9, key, " of ", e.entity, " is ", told, ", not ", x);
    };
    const auto box = [&](const traffic_simulator_msgs::msg::BoundingBox & b) {
      is("cx", b.center.x);
      is("cy", b.center.y);
      is("cz", b.center.z);
      is("length", b.dimensions.x);
      is("width", b.dimensions.y);
      is("height", b.dimensions.z);
    };
    if (e.made.kind == "Vehicle") {
      c.require(object.is<osc::Vehicle>(), e.entity, " is not a vehicle");
      const auto p = static_cast<traffic_simulator_msgs::msg::VehicleParameters>(object.as<osc::Vehicle>());
      c.require(p.name == e.made.name, e.entity, " is called ", p.name);
      for (auto & [k, v] : categories)
        if (k == e.made.category) c.require(p.subtype.value == v, "a ", k, " becomes ", static_cast<int>(p.subtype.value));
      box(p.bounding_box);
      const double inf = std::numeric_limits<double>::infinity();
      is("maxSpeed", p.performance.max_speed, inf);
      is("maxAcceleration", p.performance.max_acceleration, inf);
      is("maxDeceleration", p.performance.max_deceleration, inf);
      is("maxAccelerationRate", p.performance.max_acceleration_rate, inf);
      is("maxDecelerationRate", p.performance.max_deceleration_rate, inf);
      is("FrontAxlemaxSteering", p.axles.front_axle.max_steering);
      is("FrontAxlewheelDiameter", p.axles.front_axle.wheel_diameter);
      is("FrontAxletrackWidth", p.axles.front_axle.track_width);
      is("FrontAxlepositionX", p.axles.front_axle.position_x);
      is("FrontAxlepositionZ", p.axles.front_axle.position_z);
      is("RearAxlemaxSteering", p.axles.rear_axle.max_steering);
      is("RearAxlewheelDiameter", p.axles.rear_axle.wheel_diameter);
      is("RearAxletrackWidth", p.axles.rear_axle.track_width);
      is("RearAxlepositionX", p.axles.rear_axle.position_x);
      is("RearAxlepositionZ", p.axles.rear_axle.position_z);
    } else if (e.made.kind == "Pedestrian") {
      c.require(object.is<osc::Pedestrian>(), e.entity, " is not a pedestrian");
      const auto p = static_cast<traffic_simulator_msgs::msg::PedestrianParameters>(object.as<osc::Pedestrian>());
      c.require(p.name == e.made.name && p.subtype.value == traffic_simulator_msgs::msg::EntitySubtype::PEDESTRIAN, e.entity, " is called ", p.name, " or is no pedestrian");
      is("mass", object.as<osc::Pedestrian>().mass);
      box(p.bounding_box);
    } else {
      c.require(object.is<osc::MiscObject>(), e.entity, " is not an object");
      const auto p = static_cast<traffic_simulator_msgs::msg::MiscObjectParameters>(object.as<osc::MiscObject>());
      c.require(p.name == e.made.name, e.entity, " is called ", p.name);
      is("mass", object.as<osc::MiscObject>().mass);
      box(p.bounding_box);
    }
  }
  if (assigned) c.nontrivial();
}
