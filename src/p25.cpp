// P25: threads that share one factory, its descriptors and const messages (dynamic and generated), run under
// ThreadSanitizer; every thread's results must be those of the same work done by one thread afterwards.
// -DVP_FDS="path of the descriptor set"
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <hpp_proto/dynamic_message/factory.hpp>
#include "vp2.desc.hpp"
#include "vp3.desc.hpp"
#include "vpe.desc.hpp"
#include "boxif.hpp"
#include "dynacc.hpp"
#include "mon.hpp"
#include <atomic>
#include <fstream>
#include <sstream>
#include <thread>
using namespace ref;
extern "C" bool is_utf8(const char *, size_t) { return true; }
namespace ref { std::vector<Box> &boxes() { static std::vector<Box> b; return b; } bool g_read_absent = false; MemWatch g_mem; }
using Factory = hp::dynamic_message_factory;
using Arena = std::pmr::monotonic_buffer_resource;

static const std::string &set_bytes() {
  static const std::string s = [] { std::ifstream in(VP_FDS, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); return ss.str(); }();
  return s;
}
static uint64_t hash(std::string_view s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }

struct DynShared { const MsgDesc *d; std::unique_ptr<Arena> arena; hp::message_value_mref m; std::string bytes; };
struct GenShared { const Box *box; std::unique_ptr<Obj> obj; std::string bytes; };
struct World {
  std::optional<Factory> factory;
  std::vector<DynShared> dyn;
  std::vector<GenShared> gen;
};

// what every thread does, in an order of its own; the results go to the transcript
struct Worker {
  const World &w; Rng r; std::vector<uint64_t> out; std::vector<std::string> what;
  bool names;
  void put(const char *op, std::string_view s) { out.push_back(hash(s)); if (names) what.emplace_back(op); }
  const MsgDesc &any_msg() { for (;;) { auto &d = g_msgs[r.below((uint64_t)g_nmsgs)]; if (!d.map_entry) return d; } }
  static GenOpts opts() { GenOpts o; return o; }

  void dyn_make() {
    auto &d = any_msg(); Arena a;
    auto e = w.factory->get_message(d.name, a);
    if (!e) { put("make", "none"); return; }
    Msg m = gen(d, r, opts()); dyn_set(*e, m);
    std::string s; auto st = hp::write_binpb(e->cref(), s);
    put("make", s + char(st.ok()));
    Msg back; back.d = &d; dyn_get(e->cref(), back); canon(back); put("make-get", encode(back));
  }
  void dyn_write() { auto &x = pick(); std::string s; auto st = hp::write_binpb(x.m.cref(), s); put("write", s + char(st.ok())); }
  void dyn_read_fields() { auto &x = pick(); Msg m; m.d = x.d; dyn_get(x.m.cref(), m); canon(m); put("get", encode(m)); }
  const DynShared &pick() { return w.dyn[r.below(w.dyn.size())]; }
  void dyn_parse() {
    auto &x = pick(); Arena a; auto e = w.factory->get_message(x.d->name, a);
    std::string b = x.bytes; if (r.chance(1, 3) && !b.empty()) b[r.below(b.size())] ^= (char)(1 << r.below(8));
    auto st = hp::read_binpb(*e, std::span<const std::byte>((const std::byte *)b.data(), b.size()));
    std::string s; if (st.ok()) (void)hp::write_binpb(e->cref(), s);
    put("parse", s + char(st.ok()));
  }
  void dyn_clone() { // a shared message is the source
    auto &x = pick(); Arena a; auto e = w.factory->get_message(x.d->name, a);
    e->clone_from(x.m.cref());
    std::string s; (void)hp::write_binpb(e->cref(), s); put("clone", s);
  }
  void dyn_lookup() {
    auto &x = pick(); auto c = x.m.cref(); std::string t;
    for (int k = 0; k < 12; ++k) {
      auto &d = any_msg(); const FieldDesc &f = x.d->fields[x.d->nfields ? r.below((uint64_t)x.d->nfields) : 0];
      if (x.d->nfields) {
        auto n = c.field_by_name(f.name); auto i = c.field_by_number(f.number);
        t += n && i && n->descriptor().proto().number == f.number ? "f" : "-";
        if (f.type == Type::STRING && f.kind == Kind::ONE) { auto v = c.field_value_by_name<std::string_view>(f.name); t += v ? std::string(*v) : "?"; }
        if (f.type == Type::ENUM && f.kind == Kind::ONE) i->visit([&](auto ref) { if constexpr (decltype(ref)::field_kind == hp::KIND_ENUM) { t += std::string(ref.name()); t += std::to_string(ref.number()); } });
      }
      t += c.field_by_name("no_such_field") ? "!" : "n"; t += c.field_by_number(99999) ? "!" : "n";
      auto &pool = c.descriptor().parent_file()->get_descriptor_pool();
      auto *md = pool.get_message_descriptor(d.name); t += md ? std::string(md->full_name()) : "none";
      t += std::to_string(pool.messages().size()) + "," + std::to_string(pool.enums().size());
      auto &ed = g_enums[r.below(std::size(g_enums))]; auto *en = pool.get_enum_descriptor(ed.name);
      if (en) { t += std::string(en->name_of(ed.values[r.below((uint64_t)ed.n)])); auto *v = en->value_of(ed.names[r.below((uint64_t)ed.n)]); t += v ? std::to_string(*v) : "?"; }
      t += pool.get_message_descriptor("no.such.Type") ? "!" : "n";
    }
    Arena a; t += w.factory->get_message("no.such.Type", a).has_value() ? "!" : "n";
    put("lookup", t);
  }
  const GenShared &gpick() { return w.gen[r.below(w.gen.size())]; }
  void gen_write() { auto &x = gpick(); std::string s; SinkSpec sp; SinkLog log; int k = (int)r.below(8); if (k != 2) { sp.sizes = {17}; sp.cap = 17; } static const WriteKind kinds[] = {W_VECTOR, W_STRING, W_SINK_CONT, W_SINK_ADAPT, W_SINK_CHUNK, W_SINK_DEFAULT, W_RETURN, W_ARENA}; int ec = x.obj->write(s, kinds[k], sp, &log); put("gen-write", s + std::to_string(ec)); }
  void gen_get() { auto &x = gpick(); Msg m = x.obj->get(); canon(m); put("gen-get", encode(m)); }
  void gen_copy() {
    auto &x = gpick(); auto c = x.obj->clone(); std::string t = c->eq(*x.obj) ? "=" : "!";
    auto d = x.box->make(); d->assign(*x.obj); t += d->eq(*x.obj) ? "=" : "!";
    std::string s; (void)d->write(s, W_VECTOR); put("gen-copy", t + s);
  }
  void gen_merge() {
    auto &x = gpick(); auto d = x.box->make(); d->set(gen(x.box->desc(), r, opts()));
    int ec = d->merge(const_cast<Obj &>(*x.obj), false); // the source stays const inside
    std::string s; (void)d->write(s, W_VECTOR); put("gen-merge", s + std::to_string(ec));
  }
  void gen_parse() {
    auto &x = gpick(); auto d = x.box->make();
    std::string b = x.bytes; if (r.chance(1, 3) && !b.empty()) b[r.below(b.size())] ^= (char)(1 << r.below(8));
    static const ReadKind kinds[] = {R_SPAN, R_STRING, R_PADDED};
    std::string s; int ec;
    if (r.chance(1, 3)) { std::vector<std::string> c; for (size_t i = 0; i < b.size();) { size_t n = std::min(b.size() - i, 1 + (size_t)r.below(20)); c.push_back(b.substr(i, n)); i += n; } ec = d->read_chunks(c, 0); }
    else ec = d->read(b, kinds[r.below(3)]);
    if (!ec) (void)d->write(s, W_VECTOR);
    put("gen-parse", s + std::to_string(ec));
  }
  void gen_own() { auto &x = gpick(); auto d = x.box->make(); Msg m = gen(x.box->desc(), r, opts()); d->set(m); std::string s; (void)d->write(s, W_VECTOR); put("gen-own", s + (d->eq(*x.obj) ? "=" : "!")); }
  void any() { auto &x = gpick(); std::string u, v; int ec = x.obj->pack((int)r.below(3), u, v); put("any", u + v + std::to_string(ec)); if (!ec) { bool has = false; auto d = x.box->make(); ec = d->unpack((int)r.below(3), u, v, r.chance(1, 2), has); put("any-unpack", std::to_string(ec) + (has ? "v" : "-") ); } }
  void run(int n) {
    for (int i = 0; i < n; ++i) switch (r.below(14)) {
      case 0: case 1: dyn_make(); break;
      case 2: dyn_write(); break;
      case 3: dyn_read_fields(); break;
      case 4: dyn_parse(); break;
      case 5: dyn_clone(); break;
      case 6: dyn_lookup(); break;
      case 7: gen_write(); break;
      case 8: gen_get(); break;
      case 9: gen_copy(); break;
      case 10: gen_merge(); break;
      case 11: gen_parse(); break;
      case 12: gen_own(); break;
      default: any(); break;
      }
  }
};

static std::expected<Factory, hp::dynamic_message_errc> make_factory(int how) {
  if (how == 0) return Factory::create(std::span<const char>(set_bytes().data(), set_bytes().size()));
  static const hp::distinct_file_descriptor_pb_array<3> a = [] { hp::distinct_file_descriptor_pb_array<3> x{}; size_t i = 0; for (auto &f : {hp::file_descriptors::vp2_proto::file_descriptor_, hp::file_descriptors::vp3_proto::file_descriptor_, hp::file_descriptors::vpe_proto::file_descriptor_}) x[i++] = f; return x; }();
  return Factory::create(a);
}

int main(int argc, char **argv) {
  mon::init(argc, argv);
  Rng r(mon::g.seed * 6151 + (uint64_t)mon::g.shard);
  for (uint64_t round = 0; round < mon::g.cases; ++round) {
    mon::begin(("p25 seed " + std::to_string(mon::g.seed) + " shard " + std::to_string(mon::g.shard) + " round " + std::to_string(round)).c_str());
    alarm(300);
    const int threads = 2 + (int)r.below(7), ops = 4 + (int)r.below(24);
    { // factories made at the same time (in the first round: the first use of everything)
      std::vector<std::thread> t; std::atomic<int> ready{0}, wrong{0};
      int k = round == 0 ? 4 : round % 8 == 0 ? 2 : 0;
      for (int i = 0; i < k; ++i) t.emplace_back([&, i] { ++ready; while (ready < k) std::this_thread::yield(); auto f = make_factory((i + (int)round / 8) % 2); Arena a; if (!f || !f->get_message(g_msgs[0].name, a).has_value()) ++wrong; });
      for (auto &x : t) x.join();
      if (wrong) mon::fail("p25:factory", "factories made at the same time fail");
      if (k) mon::count("factories-made-concurrently", (uint64_t)k);
    }
    World w;
    { auto f = make_factory((int)r.below(2)); if (!f) { mon::fail("p25:factory", "no factory"); return mon::finish(); } w.factory.emplace(std::move(*f)); }
    for (int i = 0; i < 6; ++i) {
      const MsgDesc *d; do d = &g_msgs[r.below((uint64_t)g_nmsgs)]; while (d->map_entry);
      auto a = std::make_unique<Arena>();
      auto e = std::as_const(*w.factory).get_message(d->name, *a);
      if (!e) { mon::fail("p25:factory", std::string("no message ") + d->name); continue; }
      Msg m = gen(*d, r, GenOpts{}); dyn_set(*e, m);
      w.dyn.push_back({d, std::move(a), *e, encode(m)});
      auto &box = boxes()[r.below(boxes().size())];
      auto o = box.make(); Msg g = gen(box.desc(), r, GenOpts{}); o->set(g);
      w.gen.push_back({&box, std::move(o), encode(g)});
    }
    std::vector<Worker> ws;
    std::vector<uint64_t> seeds;
    for (int i = 0; i < threads; ++i) { seeds.push_back(i && r.chance(1, 3) ? seeds[0] : r.next()); ws.push_back({w, Rng(seeds.back()), {}, {}, false}); }
    {
      std::vector<std::thread> t; std::atomic<int> ready{0};
      for (auto &x : ws) t.emplace_back([&] { ++ready; while (ready < threads) std::this_thread::yield(); x.run(ops); });
      for (auto &x : t) x.join();
    }
    for (int i = 0; i < threads; ++i) { // the same alone
      Worker alone{w, Rng(seeds[(size_t)i]), {}, {}, true};
      alone.run(ops);
      auto &x = ws[(size_t)i];
      if (x.out != alone.out) { size_t k = 0; while (k < x.out.size() && k < alone.out.size() && x.out[k] == alone.out[k]) ++k; mon::fail("p25:result:" + (k < alone.what.size() ? alone.what[k] : "end"), "thread " + std::to_string(i) + " of " + std::to_string(threads) + ": result " + std::to_string(k) + " (" + (k < alone.what.size() ? alone.what[k] : "end") + ") differs from the one a single thread gets"); }
      for (auto &n : alone.what) mon::count("ops:" + n);
      mon::evaluations += x.out.size(); mon::seen(std::to_string(seeds[(size_t)i]));
      mon::count("threads");
    }
    for (auto &x : w.gen) { std::string s; (void)x.obj->write(s, W_VECTOR); Msg m = x.obj->get(); (void)m; } // the shared ones are what they were
    for (auto &x : w.dyn) { Msg m; m.d = x.d; dyn_get(x.m.cref(), m); canon(m); std::string now = encode(m); if (round % 4 == 0) { Arena a; auto e = w.factory->get_message(x.d->name, a); (void)hp::read_binpb(*e, std::span<const std::byte>((const std::byte *)x.bytes.data(), x.bytes.size())); Msg b; b.d = x.d; dyn_get(e->cref(), b); canon(b); if (encode(b) != now) mon::fail("p25:shared-changed", std::string("a shared message of type ") + x.d->name + " changed"); else mon::count("shared-unchanged"); } }
  }
  return mon::finish();
}
