// Random filling and field-by-field comparison of ROS messages (by their generated visitor)
// and protobuf messages (by reflection).
#ifndef GENERIC_HPP_
#define GENERIC_HPP_
#include <array>
#include <cmath>
#include <cstring>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>
#include <google/protobuf/reflection.h>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

#include "vh.hpp"
namespace generic
{
using vh::Rng;
template <typename T, typename = void> struct is_ros : std::false_type {};
template <typename T> struct is_ros<T, std::void_t<decltype(std::declval<T &>().verif_fields(std::declval<void (*)(const char *, ...)>()))>> : std::true_type {};

inline double number(Rng & r)
{
  switch (r.i(0, 9)) {
    case 0: return 0;
    case 1: return -0.0;
    case 2: return std::numeric_limits<double>::infinity() * (r.chance(0.5) ? 1 : -1);
    case 3: return std::numeric_limits<double>::denorm_min() * double(r.i(1, 100));
    case 4: return std::numeric_limits<double>::max();
    case 5: return double(r.i(-3, 3));
    default: return r.r(-1, 1) * std::pow(10.0, double(r.i(-12, 12)));
  }
}
inline std::string text(Rng & r)
{
  std::string s;
  for (int i = 0, n = int(r.chance(0.1) ? r.i(100, 2000) : r.i(0, 12)); i < n; ++i)
    s += r.chance(0.1) ? std::string("\xc3\xa9") : std::string(1, char(r.chance(0.05) ? r.i(0, 31) : r.i(32, 126)));
  return s;
}
template <typename T> void fill(Rng & r, T & x);
template <typename T> void fill_integer(Rng & r, T & x)
{
  switch (r.i(0, 5)) {
    case 0: x = 0; break;
    case 1: x = std::numeric_limits<T>::min(); break;
    case 2: x = std::numeric_limits<T>::max(); break;
    case 3: x = T(r.i(0, 20)); break;
    default: x = T(r.u()); break;
  }
}
template <typename T> struct is_vector : std::false_type {};
template <typename T> struct is_vector<std::vector<T>> : std::true_type {};
template <typename T, std::size_t N> struct is_vector<std::array<T, N>> : std::true_type {};
template <typename T> void fill(Rng & r, T & x)
{
  if constexpr (std::is_same_v<T, bool>) x = r.chance(0.5);
  else if constexpr (std::is_same_v<T, float>) { do x = float(std::min(1e30, std::max(-1e30, number(r)))); while (false); }
  else if constexpr (std::is_same_v<T, double>) x = number(r);
  else if constexpr (std::is_integral_v<T>) fill_integer(r, x);
  else if constexpr (std::is_same_v<T, std::string>) x = text(r);
  else if constexpr (is_vector<T>::value) {
    if constexpr (std::is_same_v<T, std::vector<typename T::value_type>>) x.resize(std::size_t(r.chance(0.2) ? 0 : r.i(1, 6)));
    for (auto & e : x) fill(r, e);
  } else x.verif_fields([&](const char *, auto & f) { fill(r, f); });
}
// Differences between two messages of one type: the path of the first one, or empty.
// With a wire descriptor, only the fields the wire form has.
template <typename T> std::string difference(const T & a, const T & b, const std::string & path = "", const google::protobuf::Descriptor * wire = nullptr)
{
  if constexpr (std::is_floating_point_v<T>) return std::memcmp(&a, &b, sizeof a) ? vh::cat(path, ": ", a, " became ", b) : "";
  else if constexpr (std::is_integral_v<T>) return a == b ? "" : vh::cat(path, ": ", std::int64_t(a), " became ", std::int64_t(b));
  else if constexpr (std::is_same_v<T, std::string>) return a == b ? "" : vh::cat(path, ": \"", a, "\" became \"", b, "\"");
  else if constexpr (is_vector<T>::value) {
    if (a.size() != b.size()) return vh::cat(path, ": ", a.size(), " entries became ", b.size());
    for (std::size_t i = 0; i < a.size(); ++i)
      if (auto d = difference(a[i], b[i], vh::cat(path, "[", i, "]"), wire); !d.empty()) return d;
    return "";
  } else {
    std::vector<const void *> other;
    std::vector<std::string> ds;
    std::size_t k = 0;
    b.verif_fields([&](const char *, const auto & f) { other.push_back(&f); });
    a.verif_fields([&](const char * n, const auto & f) {
      const auto & g = *static_cast<const std::decay_t<decltype(f)> *>(other[k++]);
      const auto * w = wire ? wire->FindFieldByName(n) : nullptr;
      if (!wire || w) ds.push_back(difference(f, g, path + "." + n, w ? w->message_type() : nullptr));
    });
    for (auto & d : ds) if (!d.empty()) return d;
    return "";
  }
}
// A ROS message against the wire form: every field the wire form has under the same name
// carries the same value.  Returns the path of the first difference.
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;
template <typename T> std::string against_wire(const T & m, const Message & p, const std::string & path, std::uint64_t & compared);
template <typename T> std::string field_against_wire(const T & x, const Message & p, const FieldDescriptor * f, int index, const std::string & path, std::uint64_t & compared)
{
  const auto * r = p.GetReflection();
  ++compared;
  auto num = [&](auto v) -> std::string {
    if constexpr (std::is_arithmetic_v<T>) {
      if constexpr (std::is_floating_point_v<T>) { const T w = T(v); return std::memcmp(&w, &x, sizeof x) ? vh::cat(path, ": ", x, " travels as ", v) : ""; }
      else return std::int64_t(v) == std::int64_t(x) ? "" : vh::cat(path, ": ", std::int64_t(x), " travels as ", std::int64_t(v));
    } else return path + ": different kinds of field";
  };
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_DOUBLE: return num(index < 0 ? r->GetDouble(p, f) : r->GetRepeatedDouble(p, f, index));
    case FieldDescriptor::CPPTYPE_FLOAT: return num(index < 0 ? r->GetFloat(p, f) : r->GetRepeatedFloat(p, f, index));
    case FieldDescriptor::CPPTYPE_INT32: return num(index < 0 ? r->GetInt32(p, f) : r->GetRepeatedInt32(p, f, index));
    case FieldDescriptor::CPPTYPE_UINT32: return num(index < 0 ? r->GetUInt32(p, f) : r->GetRepeatedUInt32(p, f, index));
    case FieldDescriptor::CPPTYPE_INT64: return num(index < 0 ? r->GetInt64(p, f) : r->GetRepeatedInt64(p, f, index));
    case FieldDescriptor::CPPTYPE_UINT64: return num(index < 0 ? r->GetUInt64(p, f) : r->GetRepeatedUInt64(p, f, index));
    case FieldDescriptor::CPPTYPE_BOOL: return num(index < 0 ? r->GetBool(p, f) : r->GetRepeatedBool(p, f, index));
    case FieldDescriptor::CPPTYPE_ENUM: return num(index < 0 ? r->GetEnumValue(p, f) : r->GetRepeatedEnumValue(p, f, index));
    case FieldDescriptor::CPPTYPE_STRING:
      if constexpr (std::is_same_v<T, std::string>) {
        const auto s = index < 0 ? r->GetString(p, f) : r->GetRepeatedString(p, f, index);
        return s == x ? "" : vh::cat(path, ": \"", x, "\" travels as \"", s, "\"");
      } else return path + ": different kinds of field";
    case FieldDescriptor::CPPTYPE_MESSAGE:
      if constexpr (std::is_class_v<T> && !std::is_same_v<T, std::string> && !is_vector<T>::value)
        return against_wire(x, index < 0 ? r->GetMessage(p, f) : r->GetRepeatedMessage(p, f, index), path, compared);
      else return path + ": different kinds of field";
  }
  return "";
}
template <typename T> std::string against_wire(const T & m, const Message & p, const std::string & path, std::uint64_t & compared)
{
  std::string first;
  m.verif_fields([&](const char * n, const auto & x) {
    if (!first.empty()) return;
    const auto * f = p.GetDescriptor()->FindFieldByName(n);
    if (!f) return;
    using X = std::decay_t<decltype(x)>;
    if constexpr (is_vector<X>::value) {
      const auto * r = p.GetReflection();
      if (!f->is_repeated() || std::size_t(r->FieldSize(p, f)) != x.size()) { first = vh::cat(path, ".", n, ": ", x.size(), " entries, other number on the wire"); return; }
      for (std::size_t i = 0; i < x.size() && first.empty(); ++i) first = field_against_wire(x[i], p, f, int(i), vh::cat(path, ".", n, "[", i, "]"), compared);
    } else first = field_against_wire(x, p, f, -1, vh::cat(path, ".", n), compared);
  });
  return first;
}
// Random protobuf message, by reflection; valid enumeration values only.
inline void fill_proto(Rng & r, Message & m, int depth = 0)
{
  const auto * d = m.GetDescriptor();
  const auto * x = m.GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const auto * f = d->field(i);
    if (f->real_containing_oneof()) continue;
    if (r.chance(0.1)) continue;
    const int n = f->is_repeated() ? int(r.i(0, 4)) : 1;
    for (int k = 0; k < n; ++k) {
      const bool rep = f->is_repeated();
      switch (f->cpp_type()) {
#define VERIF_SET(TYPE, NAME, VALUE) case FieldDescriptor::CPPTYPE_##TYPE: { auto v = VALUE; rep ? x->Add##NAME(&m, f, v) : x->Set##NAME(&m, f, v); break; }
        VERIF_SET(DOUBLE, Double, number(r))
        VERIF_SET(FLOAT, Float, float(r.r(-100, 100)))
        VERIF_SET(INT32, Int32, std::int32_t(r.u()))
        VERIF_SET(UINT32, UInt32, std::uint32_t(r.u()))
        VERIF_SET(INT64, Int64, std::int64_t(r.u()))
        VERIF_SET(UINT64, UInt64, std::uint64_t(r.u()))
        VERIF_SET(BOOL, Bool, r.chance(0.5))
        VERIF_SET(STRING, String, text(r))
        VERIF_SET(ENUM, EnumValue, f->enum_type()->value(int(r.i(0, f->enum_type()->value_count() - 1)))->number())
#undef VERIF_SET
        case FieldDescriptor::CPPTYPE_MESSAGE:
          if (depth < 5) fill_proto(r, rep ? *x->AddMessage(&m, f) : *x->MutableMessage(&m, f), depth + 1);
          break;
      }
    }
  }
}
}  // namespace generic
#endif
