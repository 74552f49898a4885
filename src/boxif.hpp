// Interface between the drivers and the translation units that hold the generated messages.
#pragma once
#include "ref.hpp"
#include <functional>
#include <memory_resource>
namespace ref {
enum ReadKind { R_SPAN, R_STRING, R_PADDED, R_VECTOR };
enum WriteKind { W_VECTOR, W_STRING, W_APPEND, W_SPAN, W_SINK_CONT, W_SINK_ADAPT, W_SINK_CHUNK, W_SINK_DEFAULT, W_RETURN, W_ARENA };
struct SinkSpec { std::vector<size_t> sizes; size_t cap = 0; /* chunk_size() */ bool sticky = false; /* the last size repeats, instead of the whole sequence */ };
struct SinkLog { std::vector<std::string> chunks; size_t announced = 0; int set_calls = 0; };
// What the P16 driver observes and injects while the library runs (see drv.cpp).
struct MemWatch { bool armed = false; uint64_t events = 0, news = 0; int64_t fail_at = -1; };
extern MemWatch g_mem;
enum MemOp { MO_SPAN, MO_PADDED, MO_CHUNKS, MO_EXPECTED, MO_WRITE, MO_SINK, MO_MERGE, MO_MERGE_MOVE, MO_COPY, MO_ANY, MO_N };
struct Obj {
  virtual ~Obj() = default;
  virtual void set(const Msg &) = 0;                          // fill a default-constructed message
  virtual Msg get() const = 0;                                // raw contents (not canonicalised)
  virtual int read(std::string_view bytes, ReadKind) = 0;     // 0 or an errc; the object keeps the (exact-size) input alive
  virtual int read_chunks(const std::vector<std::string> &, int spare) = 0;
  virtual int write(std::string &out, WriteKind, const SinkSpec & = {}, SinkLog * = nullptr) const = 0;
  virtual bool eq(const Obj &) const = 0;
  virtual std::unique_ptr<Obj> clone() const = 0;
  virtual void assign(const Obj &) = 0;
  virtual int merge(Obj &, bool move) = 0;
  virtual int mem_op(MemOp, std::string_view bytes, const std::vector<std::string> *chunks, Obj *other, std::string *out, std::pmr::memory_resource *alloc, std::pmr::memory_resource *cache) = 0;
  // google.protobuf.Any of kind 0 (the traits of the message), 1 (default traits), 2 (non-owning traits)
  virtual int pack(int kind, std::string &url, std::string &value) const = 0;
  virtual int unpack(int kind, const std::string &url, const std::string &value, bool returning, bool &has_value) = 0;
};
struct Box {
  int id = -1; std::string traits; bool keep_all = false, owning = true, pmr = false, drops = false; // drops: keeps no unknown fields at all
  std::function<std::unique_ptr<Obj>()> make;
  const MsgDesc &desc() const { return g_msgs[id]; }
};
std::vector<Box> &boxes();
extern bool g_read_absent; // get() also reads absent fields that have a declared default
struct RegisterBox { RegisterBox(Box b) { boxes().push_back(std::move(b)); } };
} // namespace ref
