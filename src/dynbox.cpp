// Boxes for dynamic messages: the drivers run the same monitors on them as on generated messages.
// -DVP_FDS="path of the descriptor set"
#include <hpp_proto/dynamic_message/factory.hpp>
#include <hpp_proto/dynamic_message/binpb.hpp>
#include "boxif.hpp"
#include "dynacc.hpp"
#include <fstream>
#include <sstream>
namespace ref {
namespace {
namespace hp = hpp_proto;
hp::dynamic_message_factory &factory() {
  static hp::dynamic_message_factory f = [] {
    std::ifstream in(VP_FDS, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
    auto r = hp::dynamic_message_factory::create(std::span<const char>(s.data(), s.size()));
    if (!r) { std::fprintf(stderr, "no factory: %d\n", (int)r.error()); std::exit(2); }
    return std::move(*r);
  }();
  return f;
}
// sink and fixed buffer as in box.hpp
struct FixedBuf { using value_type = std::byte; using element_type = std::byte; std::byte *p = nullptr; size_t n = 0; std::byte *begin() const { return p; } std::byte *end() const { return p + n; } std::byte *data() const { return p; } size_t size() const { return n; } };
struct Sink {
  using slice_type = std::span<const std::byte>;
  const SinkSpec &spec; SinkLog &log;
  std::vector<std::unique_ptr<std::byte[]>> bufs; std::vector<size_t> lens; size_t total = 0;
  void set_message_size(std::size_t n) { log.announced = n; total = n; ++log.set_calls; }
  std::span<std::byte> next_chunk() {
    size_t i = bufs.size(), n = spec.sizes.empty() ? total : spec.sizes[spec.sticky ? std::min(i, spec.sizes.size() - 1) : i % spec.sizes.size()];
    bufs.emplace_back(new std::byte[n]); lens.push_back(n); std::memset(bufs.back().get(), 0xEE, n); return {bufs.back().get(), n};
  }
  std::size_t chunk_size() const { return spec.cap; }
};

template <unsigned Limit> struct DynObj final : Obj {
  const MsgDesc &d; std::shared_ptr<std::pmr::monotonic_buffer_resource> mr = std::make_shared<std::pmr::monotonic_buffer_resource>();
  hp::message_value_mref m; std::vector<std::shared_ptr<void>> keep; std::vector<std::pair<const std::byte *, std::string>> held;
  explicit DynObj(const MsgDesc &d_) : d(d_), m(*factory().get_message(d_.name, *mr)) {}
  void set(const Msg &r) override { m.reset(); dyn_set(m, r); }
  Msg get() const override { Msg r; r.d = &d; dyn_get(m.cref(), r); return r; }
  const std::byte *hold(std::string_view b, bool pad) {
    std::shared_ptr<std::byte[]> p(new std::byte[b.size() + (pad ? 16 : 0)]); std::memcpy(p.get(), b.data(), b.size());
    if (pad) { p[b.size()] = std::byte{0}; for (int i = 1; i < 16; ++i) p[b.size() + (size_t)i] = std::byte(0x80 | (i * 37)); }
    if (pad) keep.push_back(p); else transient.push_back(p); // without padding the input may go away after the call
    held.emplace_back(p.get(), std::string(b)); return p.get();
  }
  std::vector<std::shared_ptr<void>> transient;
  int unchanged(int ec) { for (auto &[p, s] : held) if (!s.empty() && std::memcmp(p, s.data(), s.size()) != 0) ec = -77; held.clear(); transient.clear(); return ec; }
  template <class In, class... O> int do_read(const In &in, O... o) {
    if constexpr (Limit) return (int)hp::read_binpb(m, in, o..., hp::recursion_limit<Limit>).ec; else return (int)hp::read_binpb(m, in, o...).ec;
  }
  int read(std::string_view b, ReadKind k) override {
    switch (k) {
    case R_STRING: return unchanged(do_read(std::string_view((const char *)hold(b, false), b.size())));
    case R_PADDED: return unchanged(do_read(std::span<const std::byte>(hold(b, true), b.size()), hp::padded_input));
    default: return unchanged(do_read(std::span<const std::byte>(hold(b, false), b.size())));
    }
  }
  int read_chunks(const std::vector<std::string> &c, int) override {
    std::vector<std::span<const std::byte>> v; for (auto &s : c) v.emplace_back(hold(s, false), s.size());
    return unchanged(do_read(v));
  }
  template <class B, class... O> int do_write(B &b, O... o) const {
    if constexpr (Limit) return (int)hp::write_binpb(m.cref(), b, o..., hp::recursion_limit<Limit>).ec; else return (int)hp::write_binpb(m.cref(), b, o...).ec;
  }
  int write(std::string &out, WriteKind k, const SinkSpec &spec, SinkLog *log) const override {
    switch (k) {
    case W_STRING: { out.clear(); return do_write(out); }
    case W_APPEND: { std::string t; int ec = do_write(t); out += t; return ec; } // dynamic messages have no append
    case W_SPAN: { std::unique_ptr<std::byte[]> p(new std::byte[out.size()]); std::memset(p.get(), 0xEE, out.size()); FixedBuf s{p.get(), out.size()}; int ec = do_write(s); out.assign((const char *)p.get(), out.size()); return ec; }
    case W_ARENA: { std::pmr::monotonic_buffer_resource r; hp::bytes_view v{}; int ec = do_write(v, hp::alloc_from{r}); out.assign((const char *)v.data(), v.size()); return ec; }
    case W_SINK_CONT: case W_SINK_ADAPT: case W_SINK_CHUNK: case W_SINK_DEFAULT: {
      SinkLog dummy; Sink sink{spec, log ? *log : dummy, {}, {}}; int ec = -1;
      if (k == W_SINK_CONT) ec = do_write(sink, hp::contiguous_mode);
      if (k == W_SINK_ADAPT) ec = do_write(sink, hp::adaptive_mode);
      if (k == W_SINK_CHUNK) ec = do_write(sink, hp::chunked_mode);
      if (k == W_SINK_DEFAULT) ec = do_write(sink);
      out.clear(); for (size_t i = 0; i < sink.bufs.size(); ++i) { sink.log.chunks.emplace_back((const char *)sink.bufs[i].get(), sink.lens[i]); out += sink.log.chunks.back(); }
      return ec;
    }
    default: { std::vector<std::byte> v(3, std::byte{0x55}); int ec = do_write(v); out.assign((const char *)v.data(), v.size()); return ec; }
    }
  }
  bool eq(const Obj &o) const override { Msg a = get(), b = o.get(); canon(a); canon(b); return a == b; }
  std::unique_ptr<Obj> clone() const override { auto p = std::make_unique<DynObj>(d); p->m.clone_from(m.cref()); return p; }
  void assign(const Obj &o) override { m.clone_from(static_cast<const DynObj &>(o).m.cref()); }
  int merge(Obj &, bool) override { std::abort(); }
  int mem_op(MemOp, std::string_view, const std::vector<std::string> *, Obj *, std::string *, std::pmr::memory_resource *, std::pmr::memory_resource *) override { std::abort(); }
  int pack(int, std::string &, std::string &) const override { return -99; }
  int unpack(int, const std::string &, const std::string &, bool, bool &) override { return -99; }
};
template <unsigned Limit> void add(int id) {
  Box b; b.id = id; b.traits = Limit ? "dynamic@" + std::to_string(Limit) : "dynamic"; b.keep_all = false; b.drops = true; b.owning = true;
  b.make = [id] { return std::make_unique<DynObj<Limit>>(g_msgs[id]); };
  boxes().push_back(std::move(b));
}
struct Init { Init() {
  for (int i = 0; i < (int)std::size(g_msgs); ++i) {
    if (g_msgs[i].map_entry) continue;
    add<0>(i);
    for (int id : {ID_vp2_Node, ID_vp3_Node, ID_vp2_Groups, ID_vp3_Oneofs, ID_vp3_Maps, ID_vpe_Ed}) if (i == id) { add<3>(i); add<40>(i); add<300>(i); }
  }
} } init;
} // namespace
} // namespace ref
