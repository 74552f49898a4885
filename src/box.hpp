// Type-erased access to generated messages: conversion to and from the reference model, and the public hpp_proto
// operations on them. Included by one translation unit per (proto file, traits) pair; see tu.cpp.in in run.py.
#pragma once
#ifndef VP_CX // the accessors of P26 are constexpr
#define VP_CX
#endif
#include "boxif.hpp"
#include "ref.hpp"
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/merge.hpp>
#ifdef VP_ANY
#include <google/protobuf/any.pb.hpp>
#endif
#include <memory_resource>
#include <type_traits>

namespace ref {
template <class T> struct is_ind_view : std::false_type {};
template <class T> struct is_ind_view<hpp_proto::indirect_view<T>> : std::true_type {};
template <class T> struct is_ind : std::false_type {};
template <class T, class A> struct is_ind<hpp_proto::indirect<T, A>> : std::true_type {};
template <class T> struct is_opt_ind_view : std::false_type {};
template <class T> struct is_opt_ind_view<hpp_proto::optional_indirect_view<T>> : std::true_type {};
template <class T> concept opt_like = requires(const T &t) { { t.has_value() } -> std::convertible_to<bool>; };
template <class T> struct is_hpp_bool_opt : std::false_type {};
template <auto D> struct is_hpp_bool_opt<hpp_proto::optional<bool, D>> : std::true_type {};
template <class T> concept str_like = std::is_convertible_v<const T &, std::string_view> && std::ranges::contiguous_range<T>;
template <class T> concept byte_seq = requires { requires std::same_as<std::remove_cv_t<typename T::value_type>, std::byte>; };
template <class T> concept is_generated = requires { typename T::hpp_proto_traits_type; };
template <class T> concept view_seq = requires { typename T::element_type; requires std::same_as<T, hpp_proto::equality_comparable_span<typename T::element_type>>; };

struct Arena {
  std::pmr::monotonic_buffer_resource mr;
  template <class T> T *make(size_t n = 1) { T *p = static_cast<T *>(mr.allocate(sizeof(T) * (n ? n : 1), alignof(T))); for (size_t i = 0; i < n; ++i) new (p + i) T{}; return p; }
  const char *dup(std::string_view s) { if (s.empty()) return nullptr; char *p = static_cast<char *>(mr.allocate(s.size(), 1)); std::memcpy(p, s.data(), s.size()); return p; }
};

// scalars
template <class V> uint64_t bits_of(const V &v) {
  if constexpr (std::is_same_v<V, hpp_proto::boolean>) return v.value;
  else if constexpr (std::is_enum_v<V>) return (uint64_t)(int64_t)(int32_t)v;
  else if constexpr (std::is_same_v<V, float>) return std::bit_cast<uint32_t>(v);
  else if constexpr (std::is_same_v<V, double>) return std::bit_cast<uint64_t>(v);
  else if constexpr (std::is_signed_v<V>) return (uint64_t)(int64_t)v;
  else return (uint64_t)v;
}
template <class V> V from_bits(uint64_t u) {
  if constexpr (std::is_same_v<V, hpp_proto::boolean>) return hpp_proto::boolean{u != 0};
  else if constexpr (std::is_same_v<V, float>) return std::bit_cast<float>((uint32_t)u);
  else if constexpr (std::is_same_v<V, double>) return std::bit_cast<double>(u);
  else if constexpr (std::is_same_v<V, bool>) return u != 0;
  else return static_cast<V>((int64_t)u);
}

template <class V> void val_get(Val &o, const V &v, const FieldDesc &f) {
  if constexpr (is_ind<V>::value || is_ind_view<V>::value) val_get(o, v.value(), f);
  else if constexpr (is_generated<V>) { o.m = std::make_shared<Msg>(); o.m->d = &sub(f); acc_get(v, *o.m); }
  else if constexpr (str_like<V>) { std::string_view s(v); o.s.assign(s.data(), s.size()); }
  else if constexpr (byte_seq<V>) { if (v.size()) o.s.assign((const char *)v.data(), v.size()); }
  else o.u = bits_of(v);
}
template <class V, class A> void val_set(V &d, const Val &x, A &a) {
  if constexpr (is_ind_view<V>::value) {
    using T = std::remove_const_t<std::remove_reference_t<decltype(d.value())>>;
    T *p = a.template make<T>(); acc_set(*p, *x.m, a); d.reset(p);
  } else if constexpr (is_ind<V>::value) acc_set(d.value(), *x.m, a);
  else if constexpr (is_generated<V>) acc_set(d, *x.m, a);
  else if constexpr (std::is_same_v<V, std::string_view>) d = std::string_view(a.dup(x.s), x.s.size());
  else if constexpr (str_like<V>) d.assign(x.s.data(), x.s.size());
  else if constexpr (byte_seq<V> && view_seq<V>) d = V((const std::byte *)a.dup(x.s), x.s.size());
  else if constexpr (byte_seq<V>) d.assign((const std::byte *)x.s.data(), (const std::byte *)x.s.data() + x.s.size());
  else d = from_bits<V>(x.u);
}

template <class C> void fld_get(Msg &r, int idx, const C &c) {
  const FieldDesc &f = r.d->fields[idx];
  if constexpr (is_ind<C>::value || is_ind_view<C>::value || is_generated<C> || str_like<C> || byte_seq<C> || std::is_arithmetic_v<C> || std::is_enum_v<C>) {
    Val v; val_get(v, c, f); r.f[idx] = {std::move(v)};
  } else if constexpr (is_hpp_bool_opt<C>::value) {
    if (c.has_value() || (g_read_absent && C::has_default_value)) { Val v; v.u = *c; r.f[idx] = {v}; }
  } else if constexpr (opt_like<C>) {
    if constexpr (requires { requires C::has_default_value; }) { if (!c.has_value() && g_read_absent) { Val v; val_get(v, *c, f); r.f[idx] = {std::move(v)}; } }
    if (c.has_value()) { Val v; val_get(v, *c, f); r.f[idx] = {std::move(v)}; }
  } else if (f.kind == Kind::MAP) {
    if constexpr (requires { (*c.begin()).first; (*c.begin()).second; }) {
      auto &vec = r.f[idx];
      for (auto &&kv : c) {
        Val e; e.m = std::make_shared<Msg>(); e.m->d = &sub(f);
        Val k, v; val_get(k, kv.first, sub(f).fields[0]); val_get(v, kv.second, sub(f).fields[1]);
        e.m->f[0] = {std::move(k)}; e.m->f[1] = {std::move(v)};
        vec.push_back(std::move(e));
      }
      if (vec.empty()) r.f.erase(idx);
    }
  } else {
    if constexpr (!requires { (*c.begin()).first; (*c.begin()).second; }) {
      if (c.size() == 0) return;
      auto &vec = r.f[idx]; vec.reserve(c.size());
      for (auto &e : c) { Val v; val_get(v, e, f); vec.push_back(std::move(v)); }
    }
  }
}
template <class C, class A> void fld_set(const Msg &r, int idx, C &c, A &a) {
  auto it = r.f.find(idx);
  if (it == r.f.end() || it->second.empty()) return;
  const auto &vec = it->second;
  if constexpr (is_ind<C>::value || is_ind_view<C>::value || is_generated<C> || str_like<C> || byte_seq<C> || std::is_arithmetic_v<C> || std::is_enum_v<C>) val_set(c, vec[0], a);
  else if constexpr (is_hpp_bool_opt<C>::value) c = vec[0].u != 0;
  else if constexpr (is_opt_ind_view<C>::value) { using T = typename C::value_type; T *p = a.template make<T>(); acc_set(*p, *vec[0].m, a); c = p; }
  else if constexpr (opt_like<C>) val_set(c.emplace(), vec[0], a);
  else if constexpr (view_seq<C>) {
    using T = std::remove_const_t<typename C::element_type>;
    T *p = a.template make<T>(vec.size());
    for (size_t i = 0; i < vec.size(); ++i) {
      if constexpr (requires { p->first; p->second; }) { val_set(p[i].first, vec[i].m->f.at(0)[0], a); val_set(p[i].second, vec[i].m->f.at(1)[0], a); }
      else val_set(p[i], vec[i], a);
    }
    c = C(p, vec.size());
  } else if constexpr (requires { typename C::mapped_type; }) {
    for (auto &e : vec) {
      typename C::key_type k{}; typename C::mapped_type v{};
      val_set(k, e.m->f.at(0)[0], a); val_set(v, e.m->f.at(1)[0], a);
      c.insert_or_assign(std::move(k), std::move(v));
    }
  } else {
    for (auto &e : vec) { c.emplace_back(); val_set(c.back(), e, a); }
  }
}
template <size_t I, size_t N, class V> void one_get_i(Msg &r, const std::array<int, N> &ids, const V &v) {
  if constexpr (I < N) {
    if (v.index() == I + 1) { Val x; val_get(x, std::get<I + 1>(v), r.d->fields[ids[I]]); r.f[ids[I]] = {std::move(x)}; }
    else one_get_i<I + 1>(r, ids, v);
  }
}
template <size_t N, class V> void one_get(Msg &r, const std::array<int, N> &ids, const V &v) { static_assert(std::variant_size_v<V> == N + 1); one_get_i<0>(r, ids, v); }
template <size_t I, size_t N, class V, class A> void one_set_i(const Msg &r, const std::array<int, N> &ids, V &v, A &a) {
  if constexpr (I < N) {
    auto it = r.f.find(ids[I]);
    if (it != r.f.end() && !it->second.empty()) { v.template emplace<I + 1>(); val_set(std::get<I + 1>(v), it->second[0], a); }
    else one_set_i<I + 1>(r, ids, v, a);
  }
}
template <size_t N, class V, class A> void one_set(const Msg &r, const std::array<int, N> &ids, V &v, A &a) { one_set_i<0>(r, ids, v, a); }

template <class U> void unk_get(Msg &r, const U &u) {
  if constexpr (requires { (*u.fields.begin()).first; }) {
    std::vector<std::pair<uint32_t, std::string>> v;
    for (auto &&e : u.fields) v.emplace_back(e.first, std::string((const char *)e.second.data(), e.second.size()));
    std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &e : v) r.unk += canonical_records(e.second, e.first, r.d);
  } else if constexpr (requires { u.fields.size(); }) {
    if (u.fields.size()) r.unk = canonical_records(std::string_view((const char *)u.fields.data(), u.fields.size()), 0, r.d);
  } else { (void)r; (void)u; }
}


#ifndef VP_READS // bit set of ReadKind
#define VP_READS 1
#endif
#ifdef VP_LIMIT
#define VP_OPT , hpp_proto::recursion_limit<VP_LIMIT>
#else
#define VP_OPT
#endif
#ifndef VP_WRITES // bit set of WriteKind
#define VP_WRITES 1
#endif

// sink handing out separately allocated chunks
struct FixedBuf { // a contiguous range of bytes that cannot grow
  using value_type = std::byte; using element_type = std::byte;
  std::byte *p = nullptr; size_t n = 0;
  std::byte *begin() const { return p; }
  std::byte *end() const { return p + n; }
  std::byte *data() const { return p; }
  size_t size() const { return n; }
};
struct TestSink {
  using slice_type = std::span<const std::byte>;
  const SinkSpec &spec; SinkLog &log;
  std::vector<std::unique_ptr<std::byte[]>> bufs; std::vector<size_t> lens; size_t total = 0;
  void set_message_size(std::size_t n) { log.announced = n; total = n; ++log.set_calls; }
  std::span<std::byte> next_chunk() {
    size_t i = bufs.size(), n = spec.sizes.empty() ? total : spec.sizes[spec.sticky ? std::min(i, spec.sizes.size() - 1) : i % spec.sizes.size()];
    bufs.emplace_back(new std::byte[n]); lens.push_back(n);
    std::memset(bufs.back().get(), 0xEE, n);
    return {bufs.back().get(), n};
  }
  std::size_t chunk_size() const { return spec.cap; }
};

template <class M> constexpr bool owning_msg = !view_seq<typename M::hpp_proto_traits_type::template repeated_t<int>>;

#ifndef VP_LIMIT
#define VP_LIMIT_TAG 0
#else
#define VP_LIMIT_TAG VP_LIMIT
#endif
template <class M, int ID, unsigned Limit = VP_LIMIT_TAG> struct ObjImpl final : Obj {
  std::shared_ptr<Arena> arena = std::make_shared<Arena>();
  std::vector<std::shared_ptr<void>> keep; // inputs and arenas the message may refer to
  M m{};
  void set(const Msg &r) override { m = M{}; acc_set(m, r, *arena); }
  Msg get() const override { Msg r; r.d = &g_msgs[ID]; acc_get(m, r); return r; }
  template <class In, class... O> int do_read(const In &in, O... o0) {
    return do_read2(in, o0... VP_OPT);
  }
  template <class In, class... O> int do_read2(const In &in, O... o) {
    if constexpr (owning_msg<M>) return (int)hpp_proto::read_binpb(m, in, o...).ec;
    else return (int)hpp_proto::read_binpb(m, in, hpp_proto::alloc_from{arena->mr}, o...).ec;
  }
  const std::byte *hold(std::string_view b, bool pad) {
    std::shared_ptr<std::byte[]> p(new std::byte[b.size() + (pad ? 16 : 0)]);
    std::memcpy(p.get(), b.data(), b.size());
    if (pad) { p[b.size()] = std::byte{0}; for (int i = 1; i < 16; ++i) p[b.size() + (size_t)i] = std::byte(0x80 | (i * 37)); }
    keep.push_back(p); held.emplace_back(p.get(), std::string(b)); return p.get();
  }
  std::vector<std::pair<const std::byte *, std::string>> held; // inputs of the running read and what they held
  int unchanged(int ec) { for (auto &[p, s] : held) if (!s.empty() && std::memcmp(p, s.data(), s.size()) != 0) ec = -77; held.clear(); return ec; }
  int read(std::string_view b, ReadKind k) override {
    if constexpr (VP_READS & (1 << R_SPAN)) if (k == R_SPAN) return unchanged(do_read(std::span<const std::byte>(hold(b, false), b.size())));
    if constexpr (VP_READS & (1 << R_STRING)) if (k == R_STRING) return unchanged(do_read(std::string_view((const char *)hold(b, false), b.size())));
    if constexpr (VP_READS & (1 << R_PADDED)) if (k == R_PADDED) return unchanged(do_read(std::span<const std::byte>(hold(b, true), b.size()), hpp_proto::padded_input));
    if constexpr (VP_READS & (1 << R_VECTOR)) if (k == R_VECTOR) {
      auto v = std::make_shared<std::vector<std::byte>>((const std::byte *)b.data(), (const std::byte *)b.data() + b.size()); keep.push_back(v);
      return do_read(*v);
    }
    std::abort();
  }
  int read_chunks([[maybe_unused]] const std::vector<std::string> &c, [[maybe_unused]] int kind) override {
#ifdef VP_CHUNKED
    auto v = std::make_shared<std::vector<std::span<const std::byte>>>();
    for (auto &s : c) v->emplace_back(hold(s, false), s.size());
    keep.push_back(v);
    return unchanged(do_read(*v));
#else
    std::abort();
#endif
  }
  int write(std::string &out, WriteKind k, [[maybe_unused]] const SinkSpec &spec, [[maybe_unused]] SinkLog *log) const override {
    if constexpr (VP_WRITES & (1 << W_VECTOR)) if (k == W_VECTOR) {
      std::vector<std::byte> v(3, std::byte{0x55}); int ec = (int)hpp_proto::write_binpb(m, v VP_OPT).ec;
      out.assign((const char *)v.data(), v.size()); return ec;
    }
    if constexpr (VP_WRITES & (1 << W_STRING)) if (k == W_STRING) { out.clear(); return (int)hpp_proto::write_binpb(m, out).ec; }
    if constexpr (VP_WRITES & (1 << W_APPEND)) if (k == W_APPEND) return (int)hpp_proto::append_binpb(m, out).ec;
    if constexpr (VP_WRITES & (1 << W_SPAN)) if (k == W_SPAN) { // caller sizes `out`; an exact-size heap block behind a range that cannot grow
      std::unique_ptr<std::byte[]> p(new std::byte[out.size()]); std::memset(p.get(), 0xEE, out.size()); FixedBuf s{p.get(), out.size()};
      int ec = (int)hpp_proto::write_binpb(m, s).ec; out.assign((const char *)p.get(), out.size()); return ec;
    }
    if constexpr (VP_WRITES & (1 << W_ARENA)) if (k == W_ARENA) { // a view whose storage comes from the caller's memory resource
      std::pmr::monotonic_buffer_resource mr; hpp_proto::bytes_view junk_src{}; hpp_proto::bytes_view v = junk_src;
      int ec = (int)hpp_proto::write_binpb(m, v, hpp_proto::alloc_from{mr}).ec; out.assign((const char *)v.data(), v.size()); return ec;
    }
    if constexpr (VP_WRITES & (1 << W_RETURN)) if (k == W_RETURN) {
      auto r = hpp_proto::write_binpb(m); if (!r) return (int)r.error();
      out.assign((const char *)r->data(), r->size()); return 0;
    }
    if constexpr (((VP_WRITES >> W_SINK_CONT) & 15) != 0) {
      SinkLog dummy; TestSink sink{spec, log ? *log : dummy, {}, {}}; int ec = -1;
      if (k == W_SINK_CONT) ec = (int)hpp_proto::write_binpb(m, sink, hpp_proto::contiguous_mode).ec;
      if (k == W_SINK_ADAPT) ec = (int)hpp_proto::write_binpb(m, sink, hpp_proto::adaptive_mode).ec;
      if (k == W_SINK_CHUNK) ec = (int)hpp_proto::write_binpb(m, sink, hpp_proto::chunked_mode).ec;
      if (k == W_SINK_DEFAULT) ec = (int)hpp_proto::write_binpb(m, sink).ec;
      out.clear();
      for (size_t i = 0; i < sink.bufs.size(); ++i) { sink.log.chunks.emplace_back((const char *)sink.bufs[i].get(), sink.lens[i]); out += sink.log.chunks.back(); }
      return ec;
    }
    std::abort();
  }
  bool eq(const Obj &o) const override { return m == static_cast<const ObjImpl &>(o).m; }
  std::unique_ptr<Obj> clone() const override { auto p = std::make_unique<ObjImpl>(); p->m = m; p->keep = keep; p->keep.push_back(arena); return p; }
  void assign(const Obj &o) override { auto &s = static_cast<const ObjImpl &>(o); m = s.m; keep.insert(keep.end(), s.keep.begin(), s.keep.end()); keep.push_back(s.arena); }
  int merge([[maybe_unused]] Obj &o, [[maybe_unused]] bool move) override {
#ifdef VP_MERGE
    auto &s = static_cast<ObjImpl &>(o); keep.insert(keep.end(), s.keep.begin(), s.keep.end()); keep.push_back(s.arena);
    if constexpr (owning_msg<M>) { if (move) hpp_proto::merge(m, std::move(s.m)); else hpp_proto::merge(m, std::as_const(s.m)); }
    else { if (move) hpp_proto::merge(m, std::move(s.m), hpp_proto::alloc_from{arena->mr}); else hpp_proto::merge(m, std::as_const(s.m), hpp_proto::alloc_from{arena->mr}); }
    return 0;
#else
    std::abort();
#endif
  }
#ifdef VP_MEM
  struct Armed { Armed() { g_mem.armed = true; } ~Armed() { g_mem.armed = false; } };
  // runs f with the options that apply, while allocations are watched
  template <class F> int with_opts(std::pmr::memory_resource *alloc, std::pmr::memory_resource *cache, F f) {
    if constexpr (owning_msg<M>) {
      if (cache) { Armed a; return f(hpp_proto::cache_alloc_from{*cache}); }
      Armed a; return f();
    } else {
      if (cache) { Armed a; return f(hpp_proto::alloc_from{*alloc}, hpp_proto::cache_alloc_from{*cache}); }
      Armed a; return f(hpp_proto::alloc_from{*alloc});
    }
  }
#endif
  int mem_op([[maybe_unused]] MemOp op, [[maybe_unused]] std::string_view bytes, [[maybe_unused]] const std::vector<std::string> *chunks, [[maybe_unused]] Obj *other, [[maybe_unused]] std::string *out,
             [[maybe_unused]] std::pmr::memory_resource *alloc, [[maybe_unused]] std::pmr::memory_resource *cache) override {
#ifdef VP_MEM
    using BV = std::span<const std::byte>;
    switch (op) {
    case MO_SPAN: { // the input may be released after parsing
      std::unique_ptr<std::byte[]> p(new std::byte[bytes.size()]); std::memcpy(p.get(), bytes.data(), bytes.size());
      return with_opts(alloc, cache, [&](auto... o) { return (int)hpp_proto::read_binpb(m, BV(p.get(), bytes.size()), o...).ec; });
    }
    case MO_PADDED: { // the message refers to the input
      const std::byte *p = hold(bytes, true);
      return with_opts(alloc, cache, [&](auto... o) { return (int)hpp_proto::read_binpb(m, BV(p, bytes.size()), hpp_proto::padded_input, o...).ec; });
    }
    case MO_CHUNKS: {
      std::vector<std::vector<std::byte>> st; for (auto &c : *chunks) st.emplace_back((const std::byte *)c.data(), (const std::byte *)c.data() + c.size());
      return with_opts(alloc, cache, [&](auto... o) { return (int)hpp_proto::read_binpb(m, st, o...).ec; });
    }
    case MO_EXPECTED: {
      std::unique_ptr<std::byte[]> p(new std::byte[bytes.size()]); std::memcpy(p.get(), bytes.data(), bytes.size());
      return with_opts(alloc, cache, [&](auto... o) { auto r = hpp_proto::read_binpb<M>(BV(p.get(), bytes.size()), o...); if (!r) return (int)r.error(); m = std::move(*r); return 0; });
    }
    case MO_WRITE: {
      if constexpr (owning_msg<M>) {
        std::pmr::vector<std::byte> v(alloc); int ec = with_opts(alloc, cache, [&](auto... o) { return (int)hpp_proto::write_binpb(m, v, o...).ec; });
        out->assign((const char *)v.data(), v.size()); return ec;
      } else {
        hpp_proto::bytes_view v{}; int ec = with_opts(alloc, cache, [&](auto... o) { return (int)hpp_proto::write_binpb(m, v, o...).ec; });
        out->assign((const char *)v.data(), v.size()); return ec;
      }
    }
    case MO_SINK: {
      SinkSpec spec; spec.sizes = {13}; SinkLog log; std::vector<std::byte> room(1 << 20); size_t pos = 0;
      struct Sink { using slice_type = BV; std::vector<std::byte> &room; size_t &pos; void set_message_size(std::size_t) {} std::span<std::byte> next_chunk() { auto s = std::span(room).subspan(pos, pos + 13 > room.size() ? 0 : 13); pos += s.size(); return s; } std::size_t chunk_size() const { return 13; } } sink{room, pos};
      int ec = with_opts(alloc, cache, [&](auto... o) { return (int)hpp_proto::write_binpb(m, sink, hpp_proto::chunked_mode, o...).ec; });
      out->assign((const char *)room.data(), pos); return ec;
    }
    case MO_MERGE: case MO_MERGE_MOVE: {
      auto &s = static_cast<ObjImpl &>(*other); keep.insert(keep.end(), s.keep.begin(), s.keep.end()); keep.push_back(s.arena);
      if constexpr (owning_msg<M>) { Armed a; if (op == MO_MERGE) hpp_proto::merge(m, std::as_const(s.m)); else hpp_proto::merge(m, std::move(s.m)); }
      else { Armed a; if (op == MO_MERGE) hpp_proto::merge(m, std::as_const(s.m), hpp_proto::alloc_from{*alloc}); else hpp_proto::merge(m, std::move(s.m), hpp_proto::alloc_from{*alloc}); }
      return 0;
    }
    case MO_COPY: { auto &s = static_cast<ObjImpl &>(*other); keep.insert(keep.end(), s.keep.begin(), s.keep.end()); keep.push_back(s.arena); Armed a; m = s.m; return 0; }
    default: std::abort();
    }
#else
    std::abort();
#endif
  }
#ifdef VP_ANY
  template <class A> static void any_out(const A &a, std::string &url, std::string &value) {
    url.assign(std::string_view(a.type_url)); value.assign((const char *)a.value.data(), a.value.size());
  }
  template <class A> int do_unpack(const std::string &url, const std::string &value, bool returning, bool &has_value) {
    A a{};
    const std::byte *p = hold(value, false); const char *u = (const char *)hold(url, false);
    if constexpr (owning_msg<A>) { a.type_url.assign(u, url.size()); a.value.assign(p, p + value.size()); }
    else { a.type_url = std::string_view(u, url.size()); a.value = hpp_proto::bytes_view(p, value.size()); }
    int ec;
    if (returning) {
      auto done = [&](auto r) { has_value = r.has_value(); if (r) { m = *r; return 0; } return (int)r.error(); };
      if constexpr (owning_msg<M>) ec = done(hpp_proto::unpack_any<M>(a)); else ec = done(hpp_proto::unpack_any<M>(a, hpp_proto::alloc_from{arena->mr}));
      if constexpr (!owning_msg<M> && owning_msg<A>) { auto k = std::make_shared<A>(std::move(a)); keep.push_back(k); }
    } else {
      if constexpr (owning_msg<M>) ec = (int)hpp_proto::unpack_any(a, m).ec;
      else {
        auto k = std::make_shared<A>(std::move(a)); keep.push_back(k);
        ec = (int)hpp_proto::unpack_any(*k, m, hpp_proto::alloc_from{arena->mr}).ec;
        if (std::string_view(k->type_url) != url || std::string_view((const char *)k->value.data(), k->value.size()) != value) ec = -77;
      }
      has_value = ec == 0;
    }
    if constexpr (owning_msg<M>) if (std::string_view(a.type_url) != url || std::string_view((const char *)a.value.data(), a.value.size()) != value) ec = -77;
    return unchanged(ec);
  }
  template <class A> int do_pack(std::string &url, std::string &value) const {
    A a{}; int ec; std::pmr::monotonic_buffer_resource mr;
    if constexpr (owning_msg<A>) { // whatever the Any held before is replaced
      a.type_url = "some/other.Type.with.a.long.name.so.that.it.is.on.the.heap"; a.value.resize(value.size(), std::byte{7});
      ec = (int)hpp_proto::pack_any(a, m).ec;
    } else ec = (int)hpp_proto::pack_any(a, m, hpp_proto::alloc_from{mr}).ec;
    any_out(a, url, value); return ec;
  }
#endif
  int pack([[maybe_unused]] int kind, [[maybe_unused]] std::string &url, [[maybe_unused]] std::string &value) const override {
#ifdef VP_ANY
    if constexpr (!requires { message_type_url(m); }) return -99; else { // groups have no type URL
    if (kind == 0) return do_pack<google::protobuf::Any<typename M::hpp_proto_traits_type>>(url, value);
    if (kind == 1) return do_pack<google::protobuf::Any<hpp_proto::default_traits>>(url, value);
    return do_pack<google::protobuf::Any<hpp_proto::non_owning_traits>>(url, value); }
#else
    std::abort();
#endif
  }
  int unpack([[maybe_unused]] int kind, [[maybe_unused]] const std::string &url, [[maybe_unused]] const std::string &value, [[maybe_unused]] bool returning, [[maybe_unused]] bool &has_value) override {
#ifdef VP_ANY
    if constexpr (!requires { message_type_url(m); }) return -99; else {
    if (kind == 0) return do_unpack<google::protobuf::Any<typename M::hpp_proto_traits_type>>(url, value, returning, has_value);
    if (kind == 1) return do_unpack<google::protobuf::Any<hpp_proto::default_traits>>(url, value, returning, has_value);
    return do_unpack<google::protobuf::Any<hpp_proto::non_owning_traits>>(url, value, returning, has_value); }
#else
    std::abort();
#endif
  }
};
template <class M, int ID, unsigned Limit = VP_LIMIT_TAG> Box make_box( const char *traits, bool keep_all) {
  Box b; b.id = ID; b.traits = traits; b.keep_all = keep_all; b.owning = owning_msg<M>; b.pmr = requires(typename M::hpp_proto_traits_type::string_t s) { s.get_allocator().resource(); };
  b.make = [] { return std::make_unique<ObjImpl<M, ID, Limit>>(); };
  return b;
}
} // namespace ref

// One translation unit: -DVP_TU_PROTO=vp3 -DVP_TU_TRAITS=... -DVP_TU_NAME="..." -DVP_TU_KEEP=0/1
