// P26: results of constant evaluation against results of the same calls at run time. The cases are generated by
// tools/p26_cases.py; -DVP_HDR, -DVP_ACC as in tu.cpp.
#pragma once
#define VP_CX constexpr
#include VP_HDR
#include "mon.hpp"
#include <array>
#include <bit>
#include <concepts>
#include <cstdint>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
extern "C" bool is_utf8(const char *, std::size_t);

namespace vp26 {
namespace hp = hpp_proto;
using std::size_t;

// ---------------------------------------------------------------- a digest of a message, also in constant expressions
struct MsgDesc {};
inline constexpr MsgDesc g_msgs[128]{};
struct Msg {
  uint64_t h = 1469598103934665603ull; uint64_t n = 0;
  constexpr void add(uint64_t v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } ++n; }
  constexpr bool operator==(const Msg &) const = default;
};
template <class T> concept opt_like = requires(const T &t) { { t.has_value() } -> std::convertible_to<bool>; *t; };
template <class T> concept ind_like = requires(const T &t) { t.value(); } && !requires(const T &t) { t.has_value(); };
template <class T> concept str_like = std::is_convertible_v<const T &, std::string_view> && std::ranges::contiguous_range<T>;
template <class T> concept byte_seq = requires { requires std::same_as<std::remove_cv_t<typename T::value_type>, std::byte>; };
template <class T> concept is_generated = requires { typename T::hpp_proto_traits_type; };
template <class V> constexpr uint64_t bits_of(const V &v) {
  if constexpr (std::is_same_v<V, hpp_proto::boolean>) return v.value;
  else if constexpr (std::is_enum_v<V>) return (uint64_t)(int64_t)(int32_t)v;
  else if constexpr (std::is_same_v<V, float>) return std::bit_cast<uint32_t>(v);
  else if constexpr (std::is_same_v<V, double>) return std::bit_cast<uint64_t>(v);
  else return (uint64_t)v;
}
template <class V> constexpr void val_get(Msg &r, const V &v) {
  if constexpr (is_generated<V>) { r.add(77); acc_get(v, r); r.add(78); }
  else if constexpr (ind_like<V>) val_get(r, v.value());
  else if constexpr (str_like<V>) { std::string_view s(v); r.add(s.size()); for (char c : s) r.add((unsigned char)c); }
  else if constexpr (byte_seq<V>) { r.add(v.size()); for (auto b : v) r.add((uint64_t)b); }
  else r.add(bits_of(v));
}
template <class C> constexpr void fld_get(Msg &r, int idx, const C &c) {
  if constexpr (is_generated<C> || ind_like<C> || str_like<C> || byte_seq<C> || std::is_arithmetic_v<C> || std::is_enum_v<C>) { r.add((uint64_t)idx); val_get(r, c); }
  else if constexpr (opt_like<C>) { if (c.has_value()) { r.add((uint64_t)idx); val_get(r, *c); } }
  else {
    r.add((uint64_t)idx * 1000); r.add((uint64_t)c.size());
    for (auto &&e : c) { if constexpr (requires { e.first; e.second; }) { val_get(r, e.first); val_get(r, e.second); } else val_get(r, static_cast<const typename C::value_type &>(e)); }
  }
}
template <size_t I, size_t N, class V> constexpr void one_get_i(Msg &r, const std::array<int, N> &ids, const V &v) {
  if constexpr (I < N) { if (v.index() == I + 1) { r.add((uint64_t)ids[I]); val_get(r, std::get<I + 1>(v)); } else one_get_i<I + 1>(r, ids, v); }
}
template <size_t N, class V> constexpr void one_get(Msg &r, const std::array<int, N> &ids, const V &v) { one_get_i<0>(r, ids, v); }
template <class U> constexpr void unk_get(Msg &r, const U &u) {
  if constexpr (requires { (*u.fields.begin()).first; }) { r.add(u.fields.size()); for (auto &&e : u.fields) { r.add(e.first); for (auto b : e.second) r.add((uint64_t)b); } }
  else if constexpr (requires { u.fields.size(); }) { r.add(u.fields.size()); for (auto b : u.fields) r.add((uint64_t)b); }
}
template <class... X> constexpr void fld_set(X &&...) {}
template <class... X> constexpr void one_set(X &&...) {}

#include VP_ACC

// ---------------------------------------------------------------- parsing
struct Res { int ec = -1; Msg digest; constexpr bool operator==(const Res &) const = default; };
template <class M, class B, class... O> constexpr Res rd(const B &b, O... o) {
  Res r; auto e = hp::read_binpb<M>(b, o...);
  if (e) { r.ec = 0; acc_get(*e, r.digest); } else r.ec = (int)e.error();
  return r;
}
struct Case { const char *name; const char *type; void (*run)(const Case &); };
inline std::vector<Case> &cases() { static std::vector<Case> c; return c; }
struct Add { Add(const char *n, const char *t, void (*f)(const Case &)) { cases().push_back({n, t, f}); } };
template <class Byte> struct Heap { // exact-size copies at run time
  std::unique_ptr<Byte[]> p; size_t n;
  Heap(const auto &a, size_t pad) : p(new Byte[a.size() + pad]), n(a.size()) { for (size_t i = 0; i < n; ++i) p[i] = a[i]; for (size_t i = 0; i < pad; ++i) p[n + i] = Byte(i ? 0x81 : 0); }
  std::span<const Byte> span() const { return {p.get(), n}; }
};
inline std::string show(const Res &r) { return "status " + std::to_string(r.ec) + " digest " + std::to_string(r.digest.h) + "/" + std::to_string(r.digest.n); }
inline void same(const Case &c, const char *way, const Res &ct, const Res &rt, const std::string &hex) {
  if (!(ct == rt)) mon::fail(std::string("p26:read:") + way + ":" + c.type, std::string(c.name) + ": constant evaluation gives " + show(ct) + ", run time " + show(rt) + "\nbytes " + hex);
  mon::count(rt.ec ? "read-rejected" : "read-accepted");
}
template <class A> std::string hex(const A &a) { std::string s; for (auto b : a) { char t[3]; std::snprintf(t, 3, "%02x", (unsigned)(unsigned char)b); s += t; } return s; }

// ---------------------------------------------------------------- literals of messages whose parts have static storage
template <class T> concept view_seq = requires { typename T::element_type; } && std::ranges::contiguous_range<T>;
template <class F, class V> constexpr void put(F &f, const V *p) { // one value
  if constexpr (requires { f.reset(p); } && !requires { f.has_value(); }) f.reset(p);
  else if constexpr (is_generated<V> && requires { f = p; }) f = p;
  else f = *p;
}
template <class F, class V, size_t N> constexpr void put(F &f, const V (&a)[N]) { f = F(a, N); }
template <class F> using elem_t = std::remove_const_t<typename F::element_type>;
template <class E> using first_t = std::remove_const_t<typename E::first_type>;
template <class E> using second_t = typename E::second_type;
template <class T, class V> constexpr T num(V v) {
  if constexpr (std::is_same_v<T, hp::boolean>) return hp::boolean{v != 0};
  else if constexpr (std::is_same_v<T, float>) return std::bit_cast<float>((uint32_t)v);
  else if constexpr (std::is_same_v<T, double>) return std::bit_cast<double>((uint64_t)v);
  else if constexpr (std::is_same_v<T, bool>) return v != 0;
  else return static_cast<T>((int64_t)v);
}
template <class F> constexpr void num_to(F &f, uint64_t v) {
  if constexpr (opt_like<F>) f = num<std::remove_cvref_t<decltype(*f)>>(v); else f = num<F>(v);
}
template <class A, class Make> void wrote(const Case &c, const A &ct, Make make) {
  auto obj = make(); std::vector<std::byte> rt; auto st = hp::write_binpb(obj, rt);
  if (!st.ok() || rt.size() != ct.size() || !std::equal(rt.begin(), rt.end(), ct.begin())) mon::fail(std::string("p26:write:") + c.type, std::string(c.name) + ": constant evaluation writes " + hex(ct) + "\nrun time " + hex(rt) + " status " + std::to_string((int)st.ec));
  mon::count("written");
  ++mon::evaluations; mon::seen(hex(ct) + c.type);
}
} // namespace vp26
