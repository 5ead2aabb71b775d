// Protocol Buffers messages as lists of named fields, and generated ones.
#ifndef PROTOS_HPP_
#define PROTOS_HPP_
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>

#include "msgs.hpp"
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;

inline void flatten(const Message & m, const std::string & path, msgs::Flat & out);
inline std::string value(const Message & m, const FieldDescriptor * f, int i)
{
  const auto * r = m.GetReflection();
#define GET(NAME) (i < 0 ? r->Get##NAME(m, f) : r->GetRepeated##NAME(m, f, i))
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: return msgs::number(GET(Int32));
    case FieldDescriptor::CPPTYPE_INT64: return msgs::number(GET(Int64));
    case FieldDescriptor::CPPTYPE_UINT32: return msgs::number(GET(UInt32));
    case FieldDescriptor::CPPTYPE_UINT64: return msgs::number(GET(UInt64));
    case FieldDescriptor::CPPTYPE_DOUBLE: return msgs::number(GET(Double));
    case FieldDescriptor::CPPTYPE_FLOAT: return msgs::number(GET(Float));
    case FieldDescriptor::CPPTYPE_BOOL: return msgs::number(GET(Bool));
    case FieldDescriptor::CPPTYPE_ENUM: return msgs::number(GET(EnumValue));
    case FieldDescriptor::CPPTYPE_STRING: return vf::quote(GET(String));
    default: return "?";
  }
}
inline void flatten(const Message & m, const std::string & path, msgs::Flat & out)
{
  const auto * r = m.GetReflection();
  for (int i = 0; i < m.GetDescriptor()->field_count(); ++i) {
    const auto * f = m.GetDescriptor()->field(i);
    const std::string name = (path.empty() ? "" : path + ".") + f->name();
    if (f->is_repeated()) {
      const int n = r->FieldSize(m, f);
      out[name + ".size"] = std::to_string(n);
      for (int k = 0; k < n; ++k) {
        const auto item = name + "[" + std::to_string(k) + "]";
        if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE) flatten(r->GetRepeatedMessage(m, f, k), item, out);
        else out[item] = value(m, f, k);
      }
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE) {
      flatten(r->GetMessage(m, f), name, out);
    } else {
      out[name] = value(m, f, -1);
    }
  }
}
inline msgs::Flat flat(const Message & m)
{
  msgs::Flat f;
  flatten(m, "", f);
  return f;
}
inline void fill(Message & m, vf::Src & s)
{
  const auto * r = m.GetReflection();
  for (int i = 0; i < m.GetDescriptor()->field_count(); ++i) {
    const auto * f = m.GetDescriptor()->field(i);
    const int n = f->is_repeated() ? static_cast<int>(s.length(3)) : 1;
    for (int k = 0; k < n; ++k) {
#define SET(NAME, V) (f->is_repeated() ? r->Add##NAME(&m, f, V) : r->Set##NAME(&m, f, V))
      switch (f->cpp_type()) {
        case FieldDescriptor::CPPTYPE_INT32: SET(Int32, static_cast<int>(s.integer(-1000, 1000))); break;
        case FieldDescriptor::CPPTYPE_INT64: SET(Int64, s.integer(-1000000000000, 1000000000000)); break;
        case FieldDescriptor::CPPTYPE_UINT32: SET(UInt32, static_cast<unsigned>(s.draw(4000000000))); break;
        case FieldDescriptor::CPPTYPE_UINT64: SET(UInt64, s.draw(1000)); break;
        case FieldDescriptor::CPPTYPE_DOUBLE: SET(Double, s.uniform(-1000, 1000)); break;
        case FieldDescriptor::CPPTYPE_FLOAT: SET(Float, static_cast<float>(s.uniform(-1000, 1000))); break;
        case FieldDescriptor::CPPTYPE_BOOL: SET(Bool, s.boolean()); break;
        case FieldDescriptor::CPPTYPE_STRING: SET(String, s.text("abc_19 ", 6)); break;
        case FieldDescriptor::CPPTYPE_ENUM: SET(EnumValue, f->enum_type()->value(static_cast<int>(s.draw(f->enum_type()->value_count())))->number()); break;
        default: fill(f->is_repeated() ? *r->AddMessage(&m, f) : *r->MutableMessage(&m, f), s);
      }
    }
  }
}
#endif
