// P22: grpc::ByteBuffer payloads against the plain encoding of the same messages and bytes.
#include "vp2.pb.hpp"
#include "vp3.pb.hpp"
#include "vpe.pb.hpp"
#include <hpp_proto/grpc/serialization.hpp>
#include <grpc/grpc.h>
#include "ref.hpp"
#include "mon.hpp"
#include <atomic>
#include <memory_resource>
using namespace ref;
namespace hg = hpp_proto::grpc;

static std::atomic<uint64_t> g_made{0}, g_destroyed{0};
struct Block { char *p; };
static void destroy_block(void *u) { auto *b = static_cast<Block *>(u); delete[] b->p; delete b; ++g_destroyed; }

static std::string dump(const ::grpc::ByteBuffer &b) {
  std::vector<::grpc::Slice> s; std::string o;
  if (!b.Valid()) return o;
  if (!b.Dump(&s).ok()) return "dump failed";
  for (auto &x : s) o.append((const char *)x.begin(), x.size());
  return o;
}
static size_t slices_of(const ::grpc::ByteBuffer &b) { std::vector<::grpc::Slice> s; if (!b.Valid() || !b.Dump(&s).ok()) return 0; return s.size(); }

// a byte buffer with the given contents, in slices of every kind
static ::grpc::ByteBuffer build(std::string_view b, Rng &r, std::string &how) {
  std::vector<::grpc::Slice> s;
  int style = (int)r.below(6);
  size_t pos = 0;
  how = "style" + std::to_string(style) + ":";
  auto add = [&](std::string_view part) {
    int kind = (int)r.below(3);
    if (kind == 0) s.emplace_back(part.data(), part.size()); // copied: inline when small
    else {
      auto *blk = new Block{new char[part.size()]}; // exact size: reading past the slice is seen by AddressSanitizer
      if (!part.empty()) std::memcpy(blk->p, part.data(), part.size());
      ++g_made;
      s.emplace_back(blk->p, part.size(), destroy_block, blk);
    }
    if (how.size() < 200) how += std::to_string(part.size()) + "chu"[kind] + ",";
  };
  if (b.empty() && style < 2) { if (style == 0) return {}; return {s.data(), 0}; }
  while (pos < b.size()) {
    size_t n;
    switch (style) {
    case 0: n = b.size(); break;
    case 1: n = 1; break;
    case 2: n = 1 + r.below(8); break;
    case 3: n = 1 + r.below(40); break;
    case 4: n = 1 + r.below(b.size()); break;
    default: n = r.chance(1, 3) ? 1 + r.below(3) : 20 + r.below(8); break;
    }
    if (r.chance(1, 6)) add({});
    n = std::min(n, b.size() - pos);
    add(b.substr(pos, n)); pos += n;
  }
  if (r.chance(1, 6)) add({});
  if (s.size() > 400) mon::count("slices-beyond-the-stack-buffer");
  if (s.size() > 1) mon::count("several-slices");
  return {s.data(), s.size()};
}

static std::string damage(std::string s, Rng &r) {
  if (s.empty()) return std::string(1, (char)r.next());
  switch (r.below(5)) {
  case 0: s.resize(r.below(s.size())); break;
  case 1: s[r.below(s.size())] ^= (char)(1 << r.below(8)); break;
  case 2: s.insert(r.below(s.size() + 1), 1, (char)r.next()); break;
  case 3: s += (char)r.next(); break;
  default: s[r.below(s.size())] = (char)0xff; break;
  }
  return s;
}

template <class M> struct Held { std::pmr::monotonic_buffer_resource mr; M msg{}; };

template <class M> std::string plain_write(const M &m, bool &ok) {
  std::vector<std::byte> v; ok = hpp_proto::write_binpb(m, v).ok();
  return ok ? std::string((const char *)v.data(), v.size()) : std::string();
}

template <class M, bool Owning> void one(const char *name, const MsgDesc &d, Rng &r, bool big) {
  GenOpts go; go.max_depth = 1 + (int)r.below(3); go.str_max = r.chance(1, 3) ? 300 : 20; go.rep_max = r.chance(1, 8) ? 40 : 4;
  std::string bytes;
  Msg m = gen(d, r, go);
  if (r.chance(1, 2)) bytes = encode(m); else { AltOpts a; alt_encode(m, r, a, go, bytes); }
  bool hurt = !big && r.chance(1, 4);
  if (hurt) bytes = damage(bytes, r);
  std::string how;
  {
    std::string what = std::string("p22 ") + name;
    mon::begin(what.c_str(), bytes);
  }
  auto bad = [&](const std::string &k, const std::string &t) { mon::fail("p22:" + std::string(name) + ":" + k, t + "\nslices " + how + "\nbytes " + mon::hexs(bytes)); };
  Held<M> a; // the plain parse
  auto st = hpp_proto::read_binpb(a.msg, bytes, hpp_proto::alloc_from(a.mr));
  mon::count(st.ok() ? "payload-valid" : "payload-malformed");
  if (!bytes.empty()) mon::seen(name, bytes);
  // ---- reading
  Held<M> c;
  uint64_t made = g_made, gone = g_destroyed;
  if (r.chance(1, 2)) { std::string other = encode(gen(d, r, go)); (void)hpp_proto::read_binpb(c.msg, other, hpp_proto::alloc_from(c.mr)); } // used objects are reset
  {
    ::grpc::ByteBuffer b = build(bytes, r, how);
    const bool absent = !b.Valid();
    if (absent) mon::count("payload-absent");
    ::grpc::Status gs;
    const bool traits = r.chance(1, 3);
    if (traits) {
      hpp_proto::pb_context ctx{hpp_proto::alloc_from(c.mr)};
      hpp_proto::with_pb_context w{c.msg, ctx};
      gs = ::grpc::SerializationTraits<decltype(w)>::Deserialize(&b, &w);
      if (b.Length() != 0) bad("not-cleared", "Deserialize left " + std::to_string(b.Length()) + " bytes in the buffer");
    } else {
      gs = hg::read_binpb(c.msg, b, hpp_proto::alloc_from(c.mr));
      if (dump(b) != bytes) bad("input-changed", "the byte buffer's contents changed while it was read");
    }
    mon::count("reads");
    if (gs.ok() != st.ok()) bad("status", "plain parse says " + std::to_string((int)st.ec) + ", gRPC status " + std::to_string(gs.error_code()));
    if (r.chance(1, 2)) b.Clear();
    if (gs.ok() && st.ok()) {
      if constexpr (Owning) b.Clear(); // the message must not refer to the buffer
      bool o1, o2; auto w1 = plain_write(a.msg, o1), w2 = plain_write(c.msg, o2);
      if (o1 != o2 || w1 != w2) bad("value", "message read from slices differs: plain " + mon::hexs(w1) + " slices " + mon::hexs(w2));
      else mon::count("read-equal");
    }
  }
  if (g_made - made != g_destroyed - gone) bad("slice-references", std::to_string(g_made - made) + " slices made, " + std::to_string(g_destroyed - gone) + " released");
  else mon::count("slices-released", g_made - made);
  if (!st.ok()) return;
  // ---- writing
  bool ok; std::string plain = plain_write(a.msg, ok);
  auto written = [&](const char *mode, const ::grpc::Status &gs, const ::grpc::ByteBuffer &o) {
    mon::count(std::string("writes-") + mode);
    if (gs.ok() != ok) return bad(std::string("write-status-") + mode, "plain write " + std::string(ok ? "succeeds" : "fails") + ", gRPC status " + std::to_string(gs.error_code()));
    if (!ok) { mon::count("write-refused"); return; }
    auto got = dump(o);
    if (got != plain) bad(std::string("written-") + mode, "payload of " + std::to_string(got.size()) + " bytes: " + mon::hexs(got, 400) + "\nplain encoding of " + std::to_string(plain.size()) + ": " + mon::hexs(plain, 400));
    if (!o.Valid()) bad(std::string("written-nothing-") + mode, "a successful write left no payload");
    if (slices_of(o) > 1) mon::count("several-slices-written");
  };
  std::string ignore;
  ::grpc::ByteBuffer o0 = r.chance(1, 2) ? build("left over", r, ignore) : ::grpc::ByteBuffer(), o1, o2, o3;
  written("default", hg::write_binpb(a.msg, o0), o0);
  written("contiguous", hg::write_binpb(a.msg, o1, hpp_proto::contiguous_mode), o1);
  if (slices_of(o1) > 1) bad("contiguous-slices", "contiguous mode gave " + std::to_string(slices_of(o1)) + " slices");
  written("adaptive", hg::write_binpb(a.msg, o2, hpp_proto::adaptive_mode), o2);
  written("chunked", hg::write_binpb(a.msg, o3, hpp_proto::chunked_mode), o3);
  {
    hpp_proto::pb_context ctx{hpp_proto::chunked_mode};
    const auto &cm = a.msg;
    hpp_proto::with_pb_context w{cm, ctx};
    ::grpc::ByteBuffer o; bool own = false;
    auto gs = ::grpc::SerializationTraits<std::remove_const_t<decltype(w)>>::Serialize(w, &o, &own);
    written("traits", gs, o);
    if (gs.ok() && !own) bad("not-owned", "Serialize gave the buffer away without saying so");
  }
  // recursion limits given as options fail in the same cases
  {
    std::vector<std::byte> v; ::grpc::ByteBuffer o;
    auto p = hpp_proto::write_binpb(a.msg, v, hpp_proto::recursion_limit<1>); auto gs = hg::write_binpb(a.msg, o, hpp_proto::recursion_limit<1>);
    if (p.ok() != gs.ok()) bad("write-limit", "write with recursion_limit<1>: plain " + std::to_string((int)p.ec) + ", gRPC " + std::to_string(gs.error_code()));
    mon::count(gs.ok() ? "limit-fits" : "limit-refused");
    Held<M> x, y; ::grpc::ByteBuffer b = build(bytes, r, how);
    auto q = hpp_proto::read_binpb(x.msg, bytes, hpp_proto::alloc_from(x.mr), hpp_proto::recursion_limit<1>);
    auto qs = hg::read_binpb(y.msg, b, hpp_proto::alloc_from(y.mr), hpp_proto::recursion_limit<1>);
    if (q.ok() != qs.ok()) bad("read-limit", "read with recursion_limit<1>: plain " + std::to_string((int)q.ec) + ", gRPC " + std::to_string(qs.error_code()));
  }
  // the sink itself, with every chunk size, used for two payloads in a row
  if (ok) {
    static const size_t sizes[] = {1, 2, 3, 5, 7, 9, 10, 11, 16, 22, 23, 24, 25, 31, 32, 33, 64, 4096, std::numeric_limits<std::size_t>::max()};
    size_t cs = sizes[r.below(std::size(sizes))];
    if (big) cs = std::max<size_t>(cs, 4096);
    std::pmr::monotonic_buffer_resource mr;
    hg::byte_buffer_sink sink(mr, cs);
    auto mode = [&](const auto &msg) -> bool {
      switch (r.below(3)) {
      case 0: return hpp_proto::write_binpb(msg, sink).ok();
      case 1: return hpp_proto::write_binpb(msg, sink, hpp_proto::adaptive_mode).ok();
      default: return hpp_proto::write_binpb(msg, sink, hpp_proto::chunked_mode).ok();
      }
    };
    how = "sink chunk " + std::to_string(cs);
    ::grpc::ByteBuffer f, g;
    if (!mode(a.msg)) bad("sink-status", "writing to a byte_buffer_sink failed");
    sink.finalize(f);
    if (dump(f) != plain) bad("sink", "payload " + mon::hexs(dump(f)) + " plain " + mon::hexs(plain));
    M none{};
    if (mode(none)) { sink.finalize(g); bool k; if (dump(g) != plain_write(none, k)) bad("sink-second", "second payload differs: " + mon::hexs(dump(g))); }
    if (dump(f) != plain) bad("sink-first-changed", "the first payload changed when the sink was used again");
    mon::count("sink-payloads", 2);
  }
  if (dump(o1) != plain && ok) bad("changed-later", "a finished payload changed");
}

// payloads around the chunk size of the adaptor (1 MiB)
static void large(Rng &r) {
  using M = vp3::Scalars<>;
  const MsgDesc &d = g_msgs[ID_vp3_Scalars];
  (void)d;
  M m{};
  size_t target = (1 + r.below(3)) * 1048576 + r.below(70) - 35;
  size_t head = r.below(3) ? 6 : 0;
  m.f_string = std::string(target - head, 'x');
  for (size_t i = 0; i < m.f_string.size(); i += 997) m.f_string[i] = (char)('a' + i % 26);
  mon::begin(("p22 large " + std::to_string(target)).c_str());
  bool ok; auto plain = plain_write(m, ok);
  auto check = [&](const char *mode, const ::grpc::Status &s, const ::grpc::ByteBuffer &b) {
    if (!s.ok() || dump(b) != plain) mon::fail(std::string("p22:large:") + mode, "payload of " + std::to_string(plain.size()) + " bytes differs from the plain encoding");
    if (slices_of(b) > 1) mon::count("large-payload-slices", slices_of(b));
    M back; 
    if (!hg::read_binpb(back, b).ok() || back != m) mon::fail(std::string("p22:large-back:") + mode, "payload of " + std::to_string(plain.size()) + " bytes is not read back");
  };
  ::grpc::ByteBuffer a, b, c, e;
  check("default", hg::write_binpb(m, a), a);
  check("contiguous", hg::write_binpb(m, b, hpp_proto::contiguous_mode), b);
  check("adaptive", hg::write_binpb(m, c, hpp_proto::adaptive_mode), c);
  check("chunked", hg::write_binpb(m, e, hpp_proto::chunked_mode), e);
  mon::seen("large", std::to_string(plain.size()));
  mon::count("large-payloads");
}

// nesting beyond the recursion limit must give a failing status, and nothing half written is trusted
static void deep(Rng &r) {
  int n = 90 + (int)r.below(25);
  vp3::Node<> root; vp3::Node<> *p = &root;
  for (int i = 0; i < n; ++i) { p->child.emplace(); p = &*p->child; p->v = 1; }
  mon::begin(("p22 deep " + std::to_string(n)).c_str());
  std::vector<std::byte> v; ::grpc::ByteBuffer b;
  auto st = hpp_proto::write_binpb(root, v); auto gs = hg::write_binpb(root, b);
  if (st.ok() != gs.ok()) mon::fail("p22:deep", "plain write " + std::to_string((int)st.ec) + " gRPC " + std::to_string(gs.error_code()));
  if (!gs.ok() && gs.error_message().empty()) mon::fail("p22:deep-message", "failing status without a message");
  mon::count(gs.ok() ? "deep-fits" : "deep-refused");
}

int main(int argc, char **argv) {
  mon::init(argc, argv);
  grpc_init();
  Rng r(mon::g.seed * 1000003 + (uint64_t)mon::g.shard);
  using NO = hpp_proto::non_owning_traits; using PS = hpp_proto::pmr_stable_traits; using KD = hpp_proto::keep_unknown_fields<hpp_proto::default_traits>;
  for (uint64_t i = 0; i < mon::g.cases; ++i) {
    switch (r.below(14)) {
#define C(n, T, TR, own) one<T<TR>, own>(#T "/" #TR, g_msgs[n], r, false)
    case 0: C(ID_vp3_Scalars, vp3::Scalars, hpp_proto::default_traits, true); break;
    case 1: C(ID_vp3_Repeateds, vp3::Repeateds, hpp_proto::default_traits, true); break;
    case 2: C(ID_vp3_Maps, vp3::Maps, hpp_proto::default_traits, true); break;
    case 3: C(ID_vp3_Node, vp3::Node, KD, true); break;
    case 4: C(ID_vp3_Oneofs, vp3::Oneofs, PS, true); break;
    case 5: C(ID_vp2_Groups, vp2::Groups, KD, true); break;
    case 6: C(ID_vp2_Packed, vp2::Packed, hpp_proto::default_traits, true); break;
    case 7: C(ID_vpe_Ed, vpe::Ed, hpp_proto::default_traits, true); break;
    case 8: C(ID_vp3_Repeateds, vp3::Repeateds, NO, false); break;
    case 9: C(ID_vp3_Scalars, vp3::Scalars, NO, false); break;
    case 10: C(ID_vp3_Node, vp3::Node, NO, false); break;
    case 11: C(ID_vp3_Maps, vp3::Maps, PS, true); break;
    case 12: C(ID_vp3_Empty, vp3::Empty, KD, true); break;
    default: C(ID_vp2_Required, vp2::Required, PS, true); break;
    }
    if (i % 500 == 13) large(r);
    if (i % 50 == 7) deep(r);
    if (i < 3) mon::sample(mon::cur);
  }
  return mon::finish();
}
