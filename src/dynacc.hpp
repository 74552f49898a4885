// Conversion between dynamic messages and the reference model, through the typed field references.
#pragma once
#include "ref.hpp"
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <set>
namespace ref {
namespace hp = hpp_proto;
template <class V> uint64_t dbits(const V &v) {
  if constexpr (std::is_same_v<V, float>) return std::bit_cast<uint32_t>(v);
  else if constexpr (std::is_same_v<V, double>) return std::bit_cast<uint64_t>(v);
  else if constexpr (std::is_signed_v<V>) return (uint64_t)(int64_t)v;
  else return (uint64_t)v;
}
template <class V> V dval(uint64_t u) {
  if constexpr (std::is_same_v<V, float>) return std::bit_cast<float>((uint32_t)u);
  else if constexpr (std::is_same_v<V, double>) return std::bit_cast<double>(u);
  else if constexpr (std::is_same_v<V, bool>) return u != 0;
  else return static_cast<V>((int64_t)u);
}
inline std::span<const std::byte> dbytes(const std::string &s) { return {(const std::byte *)s.data(), s.size()}; }
void dyn_get(hp::message_value_cref m, Msg &r);
void dyn_set(hp::message_value_mref m, const Msg &r);
inline Val dyn_msg(hp::message_value_cref m, const FieldDesc &f) { Val v; v.m = std::make_shared<Msg>(); v.m->d = &sub(f); dyn_get(m, *v.m); return v; }

inline void dyn_get(hp::message_value_cref m, Msg &r) {
  for (int i = 0; i < r.d->nfields; ++i) {
    const FieldDesc &f = r.d->fields[i];
    auto ref = m.field_by_number(f.number); if (!ref) { std::fprintf(stderr, "no field %s\n", f.name); std::exit(2); }
    ref->visit([&](auto c) {
      using C = decltype(c); std::vector<Val> out;
      if constexpr (C::is_repeated) {
        for (size_t k = 0; k < c.size(); ++k) {
          Val v;
          if constexpr (C::field_kind == hp::KIND_REPEATED_MESSAGE) v = dyn_msg(c[k], f);
          else if constexpr (C::field_kind == hp::KIND_REPEATED_STRING) v.s = std::string(c[k]);
          else if constexpr (C::field_kind == hp::KIND_REPEATED_BYTES) { auto b = c[k]; v.s.assign((const char *)b.data(), b.size()); }
          else if constexpr (C::field_kind == hp::KIND_REPEATED_ENUM) v.u = dbits(c[k].number());
          else v.u = dbits(c[k]);
          out.push_back(std::move(v));
        }
      } else if (c.has_value()) {
        Val v;
        if constexpr (C::field_kind == hp::KIND_MESSAGE) v = dyn_msg(*c, f);
        else if constexpr (C::field_kind == hp::KIND_STRING) v.s = std::string(c.value());
        else if constexpr (C::field_kind == hp::KIND_BYTES) { auto b = c.value(); v.s.assign((const char *)b.data(), b.size()); }
        else if constexpr (C::field_kind == hp::KIND_ENUM) v.u = dbits(c.number());
        else v.u = dbits(c.value());
        out.push_back(std::move(v));
      }
      if (!out.empty()) r.f[i] = std::move(out);
    });
  }
}
inline void dyn_set(hp::message_value_mref m, const Msg &r) {
  for (auto &[i, vec] : r.f) {
    if (i < 0 || vec.empty()) continue;
    const FieldDesc &f = r.d->fields[i];
    auto ref = m.field_by_number(f.number); if (!ref) { std::fprintf(stderr, "no field %s\n", f.name); std::exit(2); }
    ref->visit([&](auto c) {
      using C = decltype(c);
      if constexpr (C::is_repeated) {
        for (auto &v : vec) {
          if constexpr (C::field_kind == hp::KIND_REPEATED_MESSAGE) dyn_set(c.emplace_back(), *v.m);
          else if constexpr (C::field_kind == hp::KIND_REPEATED_STRING) c.push_back(std::string_view(v.s));
          else if constexpr (C::field_kind == hp::KIND_REPEATED_BYTES) c.push_back(dbytes(v.s));
          else if constexpr (C::field_kind == hp::KIND_REPEATED_ENUM) c.push_back(hp::enum_number{(int32_t)v.u});
          else c.push_back(dval<typename C::value_type>(v.u));
        }
      } else {
        const Val &v = vec[0];
        if constexpr (C::field_kind == hp::KIND_MESSAGE) dyn_set(c.emplace(), *v.m);
        else if constexpr (C::field_kind == hp::KIND_STRING) c.set(std::string_view(v.s));
        else if constexpr (C::field_kind == hp::KIND_BYTES) c.set(dbytes(v.s));
        else if constexpr (C::field_kind == hp::KIND_ENUM) c.set(hp::enum_number{(int32_t)v.u});
        else c.set(dval<typename C::value_type>(v.u));
      }
    });
  }
}
} // namespace ref
