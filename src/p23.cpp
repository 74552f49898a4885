// P23: live calls between this library's clients and servers; both sides keep logs, which are compared with what the
// call's script says must happen.
#include "vpg.service.hpp"
#include <hpp_proto/grpc/client.hpp>
#include <hpp_proto/grpc/server.hpp>
#include <grpcpp/generic/generic_stub.h>
#include "ref.hpp"
#include "mon.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>
using ref::Rng;
using namespace std::chrono_literals;
using Part = vpg::Part<>;
namespace hg = hpp_proto::grpc;
namespace F = vpg::Flow;

// ---------------------------------------------------------------- what a call is to do; sent to the server as metadata
struct Script {
  uint64_t call = 0;
  int out = 0, reads = -1, code = 0, how = 0, worker = 0, delay = 0, bad_at = -1, garbage_at = -1, wait_cancel = 0, size = 10, last = 0;
  std::string text() const {
    std::ostringstream o;
    o << call << ' ' << out << ' ' << reads << ' ' << code << ' ' << how << ' ' << worker << ' ' << delay << ' ' << bad_at << ' ' << garbage_at << ' ' << wait_cancel << ' ' << size << ' ' << last;
    return o.str();
  }
  static Script parse(const std::string &s) {
    Script r; std::istringstream i(s);
    i >> r.call >> r.out >> r.reads >> r.code >> r.how >> r.worker >> r.delay >> r.bad_at >> r.garbage_at >> r.wait_cancel >> r.size >> r.last;
    return r;
  }
  static Script of(::grpc::CallbackServerContext &c) {
    auto &m = c.client_metadata();
    auto it = m.find("vp-script");
    return it == m.end() ? Script{} : parse(std::string(it->second.data(), it->second.size()));
  }
};
static std::string body_of(uint64_t call, int seq, int dir, int size) {
  Rng r(call * 1315423911u + (uint64_t)seq * 31 + (uint64_t)dir);
  size_t n = (size_t)size; if (n) n = size > 1000 ? n + r.below(3) : r.below(2 * n + 1);
  std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = i % 64 ? (char)(i * 7 + (size_t)seq) : (char)r.next();
  return s;
}
static Part make(uint64_t call, int seq, int dir, int size) {
  Part p; p.call = call; p.seq = seq;
  auto b = body_of(call, seq, dir, size);
  p.body.resize(b.size());
  for (size_t i = 0; i < b.size(); ++i) p.body[i] = (std::byte)b[i];
  p.note = "n" + std::to_string(seq);
  for (int i = 0; i < seq % 4; ++i) p.nums.push_back(seq - 2 * i);
  if (seq % 3 == 1) { p.nest.emplace(); p.nest->seq = -seq; }
  if (seq % 5 == 2) p.names.try_emplace(seq, "x" + std::to_string(seq));
  return p;
}
static void deepen(Part &p) { // beyond the recursion limit: cannot be serialized
  Part *q = &p;
  for (int i = 0; i < 130; ++i) { q->nest.emplace(); q = &*q->nest; }
}
static std::string garbage(uint64_t call) { static const std::string g[] = {"\x08", "\x1a\x7fxx", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x0b", "\x32\x03\x10\x80\x80"}; return g[call % 5]; }
static ::grpc::ByteBuffer bytes(const std::string &s, size_t cut = 0) {
  std::vector<::grpc::Slice> v;
  if (cut && cut < s.size()) { v.emplace_back(s.data(), cut); v.emplace_back(s.data() + cut, s.size() - cut); } else v.emplace_back(s.data(), s.size());
  return {v.data(), v.size()};
}
static std::string encode(const Part &p) { std::vector<std::byte> v; (void)hpp_proto::write_binpb(p, v); return {(const char *)v.data(), v.size()}; }
static bool same(const Part &p, uint64_t call, int seq, int dir, int size) { return p == make(call, seq, dir, size); }

// ---------------------------------------------------------------- logs
struct SLog {
  std::mutex mu; Script script; std::string kind;
  int ctor = 0, dtor = 0, done = 0, cancels = 0, eof = 0, read_cancel = 0, write_err = 0, write_ok = 0, get_bad = 0, absent = 0, after = 0, finish = 0;
  std::vector<int> read; std::string trouble;
};
static std::mutex g_mu;
static std::condition_variable g_cv;
static std::map<uint64_t, std::shared_ptr<SLog>> g_logs;
static std::atomic<int> g_active{0};
static std::shared_ptr<SLog> log_of(const Script &s, const char *kind) {
  std::lock_guard l(g_mu);
  auto &p = g_logs[s.call];
  if (!p) { p = std::make_shared<SLog>(); p->script = s; p->kind = kind; }
  return p;
}

// ---------------------------------------------------------------- worker threads of the server
class Workers {
  std::mutex mu_; std::condition_variable cv_; std::deque<std::function<void()>> q_; bool stop_ = false; std::vector<std::thread> t_;
public:
  Workers(int n) { for (int i = 0; i < n; ++i) t_.emplace_back([this] { run(); }); }
  ~Workers() { { std::lock_guard l(mu_); stop_ = true; } cv_.notify_all(); for (auto &t : t_) t.join(); }
  void post(std::function<void()> f) { { std::lock_guard l(mu_); q_.push_back(std::move(f)); } cv_.notify_one(); }
  void run() { for (;;) { std::function<void()> f; { std::unique_lock l(mu_); cv_.wait(l, [&] { return stop_ || !q_.empty(); }); if (q_.empty()) return; f = std::move(q_.front()); q_.pop_front(); } f(); } }
};
static Workers *g_workers;

// ---------------------------------------------------------------- the server
class Service;
struct HBase {
  Script s; std::shared_ptr<SLog> log; std::recursive_mutex mu; bool ended = false;
  HBase(::grpc::CallbackServerContext &c, const char *kind) : s(Script::of(c)), log(log_of(s, kind)) {
    std::lock_guard l(log->mu); ++log->ctor; ++g_active;
  }
  ~HBase() {
    { std::lock_guard l(log->mu); ++log->dtor; }
    { std::lock_guard l(g_mu); --g_active; }
    g_cv.notify_all();
  }
  template <class Fn> void note(Fn fn) { std::lock_guard l(log->mu); if (log->done) ++log->after; fn(*log); }
  void act(std::function<void()> f) { // at once, later, or on another thread
    int d = s.delay;
    if (s.worker) g_workers->post([f = std::move(f), d] { if (d) std::this_thread::sleep_for(std::chrono::microseconds(d)); f(); });
    else { if (d) std::this_thread::sleep_for(std::chrono::microseconds(d / 4)); f(); }
  }
  void on_done() { note([](SLog &l) { ++l.done; }); }
  ::grpc::Status status() const { return s.code ? ::grpc::Status((::grpc::StatusCode)s.code, "because " + std::to_string(s.code)) : ::grpc::Status(); }
  template <class Rpc> void reply(Rpc &rpc, int seq, int dir) { // unary and client streaming
    note([](SLog &l) { ++l.finish; });
    Part p = make(s.call, seq, dir, s.size);
    switch (s.how) {
    case 1: if constexpr (requires { rpc.finish(p, status()); }) rpc.finish(p, status()); else if (s.code) rpc.finish(status()); else rpc.finish(p); break;
    case 2: if (s.code) rpc.finish(status()); else rpc.finish(bytes(encode(p), 7)); break;
    case 3: rpc.finish(bytes(garbage(s.call))); break;
    case 4: deepen(p); rpc.finish(p); break;
    case 5: if (s.code) rpc.finish(status()); else rpc.finish(p, hpp_proto::chunked_mode); break;
    case 6: { vpg::Part<hpp_proto::non_owning_traits> v; v.call = p.call; v.seq = -77; if (s.code) rpc.finish(status()); else rpc.finish(v, hpp_proto::contiguous_mode); break; }
    default: if (s.code) rpc.finish(status()); else rpc.finish(p); break;
    }
  }
  // false: undecodable
  template <class T> bool got(const T &token, ::grpc::Status &st, int &seq) {
    Part p; st = token.get(p);
    if (!st.ok()) { note([](SLog &l) { ++l.get_bad; }); return false; }
    seq = p.seq;
    if (token.get()->Length() == 0 && p == Part{} && s.wait_cancel) { note([](SLog &l) { ++l.absent; }); return true; } // gRPC hands out no payload when the call was given up early
    if (p.call != s.call || !same(p, s.call, p.seq, 0, s.size)) note([&](SLog &l) { l.trouble = "message " + std::to_string(p.seq) + " arrived altered"; });
    note([&](SLog &l) { l.read.push_back(p.seq); });
    return true;
  }
};

struct UnaryH : HBase {
  using M = F::Unary; using rpc_t = hg::ServerRPC<M>;
  rpc_t *rpc_; bool waiting = false, cancelled = false;
  UnaryH(Service &, rpc_t &rpc, hg::RequestToken<M> token) : HBase(rpc.context(), "unary"), rpc_(&rpc) {
    ::grpc::Status st; int seq = 0;
    if (!got(token, st, seq)) { note([](SLog &l) { ++l.finish; }); rpc.finish(st); return; }
    if (s.wait_cancel) { std::unique_lock l(mu); waiting = true; if (cancelled) stop(l); return; }
    act([this, &rpc] { reply(rpc, 1, 1); });
  }
  void stop(std::unique_lock<std::recursive_mutex> &l) { if (ended) return; ended = true; l.unlock(); note([](SLog &x) { ++x.finish; }); rpc_->finish(::grpc::Status::CANCELLED); }
  void on_cancel() { note([](SLog &l) { ++l.cancels; }); std::unique_lock l(mu); cancelled = true; if (waiting) stop(l); }
};

template <class Method, bool Full> struct UpBase : HBase {
  using M = Method; using rpc_t = hg::ServerRPC<M>;
  int count = 0;
  UpBase(Service &, rpc_t &rpc) : HBase(rpc.context(), Full ? "up" : "up-plain") { rpc.start_read(); }
  void on_read_ok(rpc_t &rpc, hg::RequestToken<M> token) {
    ::grpc::Status st; int seq = 0;
    if (!got(token, st, seq)) { note([](SLog &l) { ++l.finish; }); rpc.finish(st); return; }
    ++count;
    if (s.reads == count) { act([this, &rpc] { reply(rpc, count, 1); }); return; }
    act([&rpc] { rpc.start_read(); });
  }
  bool on_read_eof(rpc_t &rpc) requires Full { note([](SLog &l) { ++l.eof; }); act([this, &rpc] { reply(rpc, count, 1); }); return true; }
  bool on_read_cancel(rpc_t &rpc) requires Full { note([](SLog &l) { ++l.read_cancel; }); if (s.last) return false; note([](SLog &l) { ++l.finish; }); rpc.finish(::grpc::Status::CANCELLED); return true; }
  void on_cancel() { note([](SLog &l) { ++l.cancels; }); }
};
struct UpH : UpBase<F::Up, true> { using UpBase::UpBase; };
struct UpPlainH : UpBase<F::UpPlain, false> { using UpBase::UpBase; };

template <class Method, bool Full> struct DownBase : HBase {
  using M = Method; using rpc_t = hg::ServerRPC<M>;
  rpc_t *rpc_; int sent = 0; bool waiting = false, cancelled = false;
  DownBase(Service &, rpc_t &rpc, hg::RequestToken<M> token) : HBase(rpc.context(), Full ? "down" : "down-plain"), rpc_(&rpc) {
    ::grpc::Status st; int seq = 0;
    if (!got(token, st, seq)) { note([](SLog &l) { ++l.finish; }); rpc.finish(st); return; }
    act([this] { next(); });
  }
  void next() {
    if (s.wait_cancel && sent == s.wait_cancel) { std::unique_lock l(mu); waiting = true; if (cancelled) stop(l); return; }
    if (sent == s.out) { note([](SLog &l) { ++l.finish; }); rpc_->finish(status()); return; }
    int i = sent++;
    Part p = make(s.call, i, 1, s.size);
    if (i == s.bad_at) { deepen(p); note([](SLog &l) { ++l.finish; }); rpc_->write(p); return; }
    if (i == s.garbage_at) { rpc_->write(bytes(garbage(s.call))); return; }
    if (s.last && i + 1 == s.out && !s.wait_cancel) {
      note([](SLog &l) { ++l.finish; });
      switch (s.how) {
      case 1: rpc_->finish(bytes(encode(p), 3), ::grpc::WriteOptions(), status()); break;
      case 2: if (!s.code) { rpc_->finish(p); break; } [[fallthrough]];
      case 4: if (!s.code) { rpc_->finish(p, ::grpc::WriteOptions()); break; } [[fallthrough]];
      default: rpc_->finish(p, ::grpc::WriteOptions(), status()); break;
      }
      return;
    }
    switch (s.how) {
    case 1: rpc_->write(bytes(encode(p), 5)); break;
    case 3: rpc_->write(p, ::grpc::WriteOptions().set_no_compression()); break;
    case 5: rpc_->write(p, hpp_proto::contiguous_mode); break;
    default: rpc_->write(p); break;
    }
  }
  void on_write_ok(rpc_t &) { note([](SLog &l) { ++l.write_ok; }); act([this] { next(); }); }
  bool on_write_error(rpc_t &rpc) requires Full { note([](SLog &l) { ++l.write_err; }); if (s.last) return false; note([](SLog &l) { ++l.finish; }); rpc.finish(::grpc::Status::CANCELLED); return true; }
  void stop(std::unique_lock<std::recursive_mutex> &l) { if (ended) return; ended = true; l.unlock(); note([](SLog &x) { ++x.finish; }); rpc_->finish(::grpc::Status::CANCELLED); }
  void on_cancel() { note([](SLog &l) { ++l.cancels; }); std::unique_lock l(mu); cancelled = true; if (waiting) stop(l); }
};
struct DownH : DownBase<F::Down, true> { using DownBase::DownBase; };
struct DownPlainH : DownBase<F::DownPlain, false> { using DownBase::DownBase; };

struct BothH : HBase { // echoes, reading and writing at the same time
  using M = F::Both; using rpc_t = hg::ServerRPC<M>;
  std::deque<int> queue; bool writing = false, eof = false; int count = 0, sent = 0;
  BothH(Service &, rpc_t &rpc) : HBase(rpc.context(), "both") { rpc.start_read(); }
  void end(rpc_t &rpc, ::grpc::Status st) { if (ended) return; ended = true; note([](SLog &l) { ++l.finish; }); rpc.finish(std::move(st)); }
  void pump(rpc_t &rpc) {
    std::lock_guard l(mu);
    if (ended || writing) return;
    if (!queue.empty()) {
      int q = queue.front(); queue.pop_front(); writing = true;
      Part p = make(s.call, q, 1, s.size);
      if (sent++ == s.bad_at) { deepen(p); rpc.write(p); return; } // the library ends the call; we are not told
      if (s.last && queue.empty() && eof && !s.how) { ended = true; note([](SLog &x) { ++x.finish; }); rpc.finish(p, ::grpc::WriteOptions(), status()); return; }
      if (s.how == 5) rpc.write(p, hpp_proto::chunked_mode); else if (s.how == 1) rpc.write(bytes(encode(p), 2)); else rpc.write(p);
    } else if (eof || (s.reads >= 0 && count >= s.reads)) end(rpc, status());
  }
  void on_read_ok(rpc_t &rpc, hg::RequestToken<M> token) {
    ::grpc::Status st; int seq = 0;
    std::lock_guard l(mu);
    if (!got(token, st, seq)) { end(rpc, st); return; }
    ++count; queue.push_back(seq);
    if (s.reads < 0 || count < s.reads) rpc.start_read();
    pump(rpc);
  }
  void on_write_ok(rpc_t &rpc) { note([](SLog &l) { ++l.write_ok; }); std::lock_guard l(mu); writing = false; pump(rpc); }
  bool on_write_error(rpc_t &rpc) { note([](SLog &l) { ++l.write_err; }); std::lock_guard l(mu); end(rpc, ::grpc::Status::CANCELLED); return true; }
  bool on_read_eof(rpc_t &rpc) { note([](SLog &l) { ++l.eof; }); std::lock_guard l(mu); eof = true; pump(rpc); return true; }
  bool on_read_cancel(rpc_t &rpc) { note([](SLog &l) { ++l.read_cancel; }); std::lock_guard l(mu); end(rpc, ::grpc::Status::CANCELLED); return true; }
  void on_cancel() { note([](SLog &l) { ++l.cancels; }); }
};
struct BothPlainH : HBase { // leaves every ending to the library
  using M = F::BothPlain; using rpc_t = hg::ServerRPC<M>;
  bool writing = false; int sent = 0;
  BothPlainH(Service &, rpc_t &rpc) : HBase(rpc.context(), "both-plain") { rpc.start_read(); }
  void on_read_ok(rpc_t &rpc, hg::RequestToken<M> token) {
    ::grpc::Status st; int seq = 0;
    std::lock_guard l(mu);
    (void)got(token, st, seq);
    if (!writing) { writing = true; Part p = make(s.call, sent, 1, s.size); if (sent++ == s.bad_at) deepen(p); rpc.write(p); }
    rpc.start_read();
  }
  void on_write_ok(rpc_t &) { note([](SLog &l) { ++l.write_ok; }); std::lock_guard l(mu); writing = false; }
};

class Service : public hg::CallbackService<Service, F::_methods> {
public:
  auto handle(F::Unary) -> UnaryH;
  auto handle(F::Up) -> UpH;
  auto handle(F::Down) -> DownH;
  auto handle(F::Both) -> BothH;
  auto handle(F::UpPlain) -> UpPlainH;
  auto handle(F::DownPlain) -> DownPlainH;
  auto handle(F::BothPlain) -> BothPlainH;
};
using Stub = hg::Stub<F::_methods>;

// ---------------------------------------------------------------- clients
struct Ctl { Script s; int n = 0; int cancel_writes = -1, cancel_reads = -1, bad_write = -1, garbage_write = -1; bool use_last = false, hold = false, cancel_later = false; int deadline_ms = 0; };
struct CState {
  std::mutex mu; std::condition_variable cv; int done = 0, events_after_done = 0; ::grpc::Status status; std::vector<int> got; std::string trouble;
  int bad_got = 0, bad_writes = 0, writes_ok = 0, writes_failed = 0; bool has_response = false; Part response; ::grpc::Status response_status;
  void ended(const ::grpc::Status &s) { std::lock_guard l(mu); ++done; status = s; cv.notify_all(); }
  bool wait(std::chrono::seconds t = 25s) { std::unique_lock l(mu); return cv.wait_for(l, t, [&] { return done > 0; }); }
};
static void prepare(::grpc::ClientContext &c, const Ctl &ctl) {
  c.AddMetadata("vp-script", ctl.s.text());
  if (ctl.deadline_ms) c.set_deadline(std::chrono::system_clock::now() + std::chrono::milliseconds(ctl.deadline_ms));
}
template <class Method> struct Cli : hg::ClientCallbackReactor<Method> {
  const Ctl &ctl; CState &st; ::grpc::ClientContext &ctx; int next = 0, reads = 0; std::recursive_mutex mu; bool closed = false; std::atomic<int> unsettled{0};
  std::condition_variable_any wcv; bool write_idle = true, write_dead = false;
  Cli(const Ctl &c, CState &s, ::grpc::ClientContext &x) : ctl(c), st(s), ctx(x) {}
  void OnDone(const ::grpc::Status &s) override {
    if constexpr (Method::client_streaming && !Method::server_streaming)
      if (s.ok()) { Part p; auto r = this->get_response(p); std::lock_guard l(st.mu); st.response_status = r; st.response = p; st.has_response = true; }
    if constexpr (!Method::client_streaming && !Method::server_streaming)
      if (s.ok()) { Part p; auto r = this->get_response(p); std::lock_guard l(st.mu); st.response_status = r; st.response = p; st.has_response = true; }
    st.ended(s);
  }
  void write_next() requires Method::client_streaming { // one write at a time, from OnWriteDone or the writer thread
    for (;;) {
      std::lock_guard l(mu);
      if (closed) return;
      if (next == ctl.cancel_writes) { closed = true; ctx.TryCancel(); return; }
      if (next >= ctl.n) { closed = true; this->write_done(); return; }
      int i = next++;
      Part p = make(ctl.s.call, i, 0, ctl.s.size);
      if (i == ctl.bad_write) deepen(p);
      ::grpc::Status r;
      if (ctl.use_last && i + 1 == ctl.n) { closed = true; r = this->write_last(p, ::grpc::WriteOptions()); if (!r.ok()) this->write_done(); }
      else if (i % 3 == 1) r = this->write(p, ::grpc::WriteOptions().set_no_compression(), hpp_proto::chunked_mode);
      else r = this->write(p);
      if (r.ok()) { write_idle = false; if (i == ctl.bad_write) { std::lock_guard g(st.mu); st.trouble = "write of an unserializable message reported success"; } return; }
      std::lock_guard g(st.mu); ++st.bad_writes;
      if (i != ctl.bad_write) st.trouble = "write of message " + std::to_string(i) + " failed: " + r.error_message();
      if (closed) return;
    }
  }
};
template <class Method> struct UpCli : Cli<Method> {
  using Cli<Method>::Cli;
  void OnWriteDone(bool ok) override {
    { std::lock_guard l(this->st.mu); if (this->st.done) ++this->st.events_after_done; ++(ok ? this->st.writes_ok : this->st.writes_failed); }
    if (this->ctl.hold) { std::lock_guard l(this->mu); this->write_idle = true; if (!ok) this->write_dead = true; this->wcv.notify_all(); return; }
    if (ok) this->write_next();
  }
};
template <class Method> static void read_done(Cli<Method> &c, bool ok) {
  { std::lock_guard l(c.st.mu); if (c.st.done) ++c.st.events_after_done; }
  if (!ok) return;
  Part p; auto r = c.get_response(p);
  {
    std::lock_guard l(c.st.mu);
    if (!r.ok()) ++c.st.bad_got;
    else { c.st.got.push_back(p.seq); if (p.call != c.ctl.s.call || !same(p, c.ctl.s.call, p.seq, 1, c.ctl.s.size)) c.st.trouble = "message " + std::to_string(p.seq) + " from the server arrived altered"; }
  }
  if (++c.reads == c.ctl.cancel_reads) c.ctx.TryCancel();
  c.start_read();
}
template <class Method> struct DownCli : Cli<Method> { using Cli<Method>::Cli; void OnReadDone(bool ok) override { read_done(*this, ok); } };
template <class Method> struct BothCli : UpCli<Method> { using UpCli<Method>::UpCli; void OnReadDone(bool ok) override { read_done(*this, ok); } };
struct UnaryCli : Cli<F::Unary> { using Cli::Cli; };

// byte level client, for requests this library's client cannot send
struct RawCli : ::grpc::ClientBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer> {
  const Ctl &ctl; CState &st; int next = 0; ::grpc::ByteBuffer out, in;
  RawCli(const Ctl &c, CState &s) : ctl(c), st(s) {}
  void go() {
    if (next >= ctl.n) { StartWritesDone(); return; }
    int i = next++;
    out = bytes(i == ctl.garbage_write ? garbage(ctl.s.call) : encode(make(ctl.s.call, i, 0, ctl.s.size)), (size_t)(i * 5));
    StartWrite(&out);
  }
  void OnWriteDone(bool ok) override { if (ok) go(); }
  void OnReadDone(bool ok) override {
    if (!ok) return;
    Part p; auto r = hg::read_binpb(p, in);
    { std::lock_guard l(st.mu); if (!r.ok()) ++st.bad_got; else st.got.push_back(p.seq); }
    StartRead(&in);
  }
  void OnDone(const ::grpc::Status &s) override { st.ended(s); }
};

// ---------------------------------------------------------------- judging
static std::mutex g_fail_mu;
static void bad(const std::string &key, const Ctl &c, const std::string &text) {
  std::lock_guard l(g_fail_mu);
  mon::fail("p23:" + key, text + "\nscript " + c.s.text() + " n=" + std::to_string(c.n) + " cancel_writes=" + std::to_string(c.cancel_writes) + " cancel_reads=" + std::to_string(c.cancel_reads) + " bad_write=" + std::to_string(c.bad_write) +
                            " garbage_write=" + std::to_string(c.garbage_write) + " use_last=" + std::to_string(c.use_last) + " hold=" + std::to_string(c.hold));
}
static void cnt(const std::string &k) { std::lock_guard l(g_fail_mu); mon::count(k); }
static std::string list(const std::vector<int> &v) { std::string s; for (int x : v) s += std::to_string(x) + ","; return s; }
static std::string show(const ::grpc::Status &s) { return std::to_string(s.error_code()) + " '" + s.error_message() + "'"; }
static std::vector<int> upto(int n, int without = -1) { std::vector<int> v; for (int i = 0; i < n; ++i) if (i != without) v.push_back(i); return v; }
static bool prefix(const std::vector<int> &a, const std::vector<int> &b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static ::grpc::Status scripted(const Script &s) { return s.code ? ::grpc::Status((::grpc::StatusCode)s.code, "because " + std::to_string(s.code)) : ::grpc::Status(); }
static bool eq(const ::grpc::Status &a, const ::grpc::Status &b) { return a.error_code() == b.error_code() && a.error_message() == b.error_message(); }

struct Env { std::shared_ptr<::grpc::Channel> channel; std::unique_ptr<Stub> stub; std::unique_ptr<::grpc::GenericStub> raw; };

static bool settle(const char *kind, const Ctl &c, CState &st) {
  if (!st.wait()) { std::string srv = "no handler";
    { std::lock_guard k(g_mu); if (auto it = g_logs.find(c.s.call); it != g_logs.end()) { auto &log = it->second; std::lock_guard j(log->mu); srv = "handler read " + list(log->read) + " writes " + std::to_string(log->write_ok) + "+" + std::to_string(log->write_err) + " eof " + std::to_string(log->eof) + " read-cancel " + std::to_string(log->read_cancel) + " on_cancel " + std::to_string(log->cancels) + " finish " + std::to_string(log->finish) + " done " + std::to_string(log->done); } }
    { std::lock_guard k(st.mu); srv += "; client read " + list(st.got) + " bad " + std::to_string(st.bad_got) + " writes " + std::to_string(st.writes_ok) + "+" + std::to_string(st.writes_failed); }
    bad(std::string(kind) + ":hang", c, "the call did not finish within 25 s; " + srv); std::lock_guard l(g_fail_mu); mon::finish(); _exit(10); }
  std::lock_guard l(st.mu);
  if (!st.trouble.empty()) bad(std::string(kind) + ":altered", c, st.trouble);
  return true;
}
static bool failing_reply(const Script &s) { return s.how == 3 || s.how == 4; }

static void judge_reply(const char *kind, const Ctl &c, const ::grpc::Status &st, const Part *p, int seq, bool decoded_by_call) {
  const Script &s = c.s;
  if (s.how == 4) { if (st.error_code() != ::grpc::StatusCode::INTERNAL) bad(std::string(kind) + ":unserializable-reply", c, "status " + show(st)); else cnt("end:unserializable-reply"); return; }
  if (s.how == 3) {
    if (decoded_by_call ? st.ok() : !st.ok()) bad(std::string(kind) + ":garbage-reply", c, "status " + show(st));
    else cnt("end:garbage-reply");
    return;
  }
  if (!eq(st, scripted(s))) { bad(std::string(kind) + ":status", c, "client sees status " + show(st) + ", the handler finished with " + show(scripted(s))); return; }
  cnt(std::string("end:") + (s.code ? "error-status" : "ok"));
  if (st.ok() && p) {
    if (s.how == 6) { if (p->call != s.call || p->seq != -77) bad(std::string(kind) + ":reply", c, "reply with seq " + std::to_string(p->seq)); }
    else if (!same(*p, s.call, seq, 1, s.size)) bad(std::string(kind) + ":reply", c, "reply with seq " + std::to_string(p->seq) + " instead of " + std::to_string(seq) + " or with altered contents");
    else cnt("replies-equal");
  }
}

static void unary(Env &e, Rng &r, Ctl c) {
  Script &s = c.s;
  s.how = (int)r.below(7); s.code = r.chance(1, 4) ? 1 + (int)r.below(16) : 0; if (failing_reply(s)) s.code = 0;
  int way = (int)r.below(3), special = (int)r.below(8);
  if (special == 1) { s.wait_cancel = 1; c.deadline_ms = 5 + (int)r.below(30); }
  if (special == 2) { s.wait_cancel = 1; }
  auto ctx = std::make_shared<::grpc::ClientContext>(); prepare(*ctx, c);
  Part req = make(s.call, 0, 0, s.size);
  if (special == 3) deepen(req);
  CState st;
  std::thread canceller;
  if (special == 2) canceller = std::thread([ctx, d = r.below(3000)] { std::this_thread::sleep_for(std::chrono::microseconds(d)); ctx->TryCancel(); });
  if (way == 0) {
    Part resp = make(1, 9, 0, 3);
    auto g = r.chance(1, 2) ? e.stub->call<F::Unary>(*ctx, req, resp) : e.stub->call<F::Unary>(*ctx, req, resp, hpp_proto::chunked_mode);
    st.response = resp; st.has_response = g.ok(); st.ended(g);
  } else if (way == 1) {
    e.stub->async_call<F::Unary>(*ctx, req, st.response, [&st](const ::grpc::Status &g) { st.has_response = g.ok(); st.ended(g); });
  } else {
    struct Del : UnaryCli { std::shared_ptr<::grpc::ClientContext> keep; using UnaryCli::UnaryCli; void OnDone(const ::grpc::Status &g) override { auto k = keep; CState &x = st; if (g.ok()) { Part p; x.response_status = get_response(p); x.response = p; x.has_response = x.response_status.ok(); } ::grpc::Status copy = g.ok() && !x.response_status.ok() ? x.response_status : g; delete this; x.ended(copy); } };
    static_assert(!std::is_same_v<Del, UnaryCli>);
    auto *d = new Del(c, st, *ctx); d->keep = ctx;
    e.stub->async_call<F::Unary>(*ctx, req, d);
    d->start_call();
  }
  settle("unary", c, st);
  if (canceller.joinable()) canceller.join();
  cnt("calls:unary-" + std::string(way == 0 ? "blocking" : way == 1 ? "callback" : "reactor"));
  std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
  std::lock_guard l(st.mu);
  if (st.done != 1) bad("unary:done-count", c, "the end of the call was reported " + std::to_string(st.done) + " times");
  if (special == 3) { if (st.status.error_code() != ::grpc::StatusCode::INTERNAL) bad("unary:unserializable-request", c, "status " + show(st.status)); else cnt("end:unserializable-request"); return; }
  if (special == 1) { if (st.status.error_code() != ::grpc::StatusCode::DEADLINE_EXCEEDED) bad("unary:deadline", c, "status " + show(st.status)); else cnt("end:deadline"); return; }
  if (special == 2) { if (st.status.error_code() != ::grpc::StatusCode::CANCELLED) bad("unary:cancel", c, "status " + show(st.status)); else cnt("end:cancelled"); return; }
  judge_reply("unary", c, st.status, st.has_response ? &st.response : nullptr, 1, true);
}

static void missing(Env &e, Rng &, Ctl c) {
  ::grpc::ClientContext ctx; prepare(ctx, c);
  Part req = make(c.s.call, 0, 0, 3), resp;
  auto g = e.stub->call<F::Missing>(ctx, req, resp);
  if (g.error_code() != ::grpc::StatusCode::UNIMPLEMENTED) bad("missing:status", c, "status " + show(g));
  cnt("end:unimplemented");
}

template <class Method, class C> static void start_writes(C &cli, const Ctl &ctl) {
  if (!ctl.hold) { cli.start_call(); cli.write_next(); return; }
  cli.add_hold();
  cli.start_call();
  for (;;) { // this thread writes
    std::unique_lock l(cli.mu);
    cli.wcv.wait(l, [&] { return cli.write_idle || cli.write_dead; });
    if (cli.write_dead || cli.closed) break;
    cli.write_next();
    if (cli.closed) { cli.wcv.wait(l, [&] { return cli.write_idle || cli.write_dead; }); break; }
  }
  cli.remove_hold();
}

template <class Method> static void up(Env &e, Rng &r, Ctl c, bool full) {
  Script &s = c.s;
  s.how = (int)r.below(7); s.code = r.chance(1, 4) ? 1 + (int)r.below(16) : 0; if (failing_reply(s)) s.code = 0;
  c.n = (int)r.below(r.chance(1, 6) ? 60 : 7); c.use_last = r.chance(1, 2) && c.n; c.hold = r.chance(1, 3);
  int special = (int)r.below(6);
  if (special == 1) c.cancel_writes = (int)r.below((uint64_t)c.n + 1);
  if (special == 2 && c.n) s.reads = 1 + (int)r.below((uint64_t)c.n);
  if (special == 3 && c.n) c.bad_write = (int)r.below((uint64_t)c.n);
  if (c.cancel_writes >= 0 && c.cancel_writes == c.n && c.use_last) c.use_last = false;
  s.last = (int)r.below(2);
  ::grpc::ClientContext ctx; prepare(ctx, c);
  CState st; UpCli<Method> cli(c, st, ctx);
  e.stub->async_call<Method>(ctx, &cli);
  start_writes<Method>(cli, c);
  const char *kind = full ? "up" : "up-plain";
  settle(kind, c, st);
  cnt(std::string("calls:") + kind);
  std::lock_guard l(st.mu);
  if (st.done != 1 || st.events_after_done) bad(std::string(kind) + ":done-count", c, "done " + std::to_string(st.done) + " times, " + std::to_string(st.events_after_done) + " events afterwards");
  auto log = log_of(s, kind); std::lock_guard g(log->mu);
  auto all = upto(c.n, c.bad_write);
  if (!prefix(log->read, all)) bad(std::string(kind) + ":order", c, "the server read " + list(log->read) + " of " + list(all));
  if (c.cancel_writes >= 0) { if (st.status.error_code() != ::grpc::StatusCode::CANCELLED) bad(std::string(kind) + ":cancel", c, "status " + show(st.status)); else cnt("end:cancelled-stream"); return; }
  const int can = (int)all.size();
  if (s.reads > 0 && s.reads <= can) {
    if ((int)log->read.size() != s.reads) bad(std::string(kind) + ":early", c, "the server finished after " + std::to_string(log->read.size()) + " messages");
    judge_reply(kind, c, st.status, st.response_status.ok() ? &st.response : nullptr, s.reads, false); cnt("end:early-finish"); return;
  }
  if (log->read != all) bad(std::string(kind) + ":lost", c, "the server read " + list(log->read) + " of " + list(all));
  cnt("streams-complete");
  if (!full) return; // the library's own ending, without a reply
  if (log->eof != 1) bad("up:eof", c, "on_read_eof was called " + std::to_string(log->eof) + " times");
  judge_reply(kind, c, st.status, st.response_status.ok() ? &st.response : nullptr, can, false);
  if (st.status.ok() && st.response_status.ok() == (s.how == 3)) bad("up:decoding", c, "reply of how=" + std::to_string(s.how) + " decodes with status " + show(st.response_status));
}

template <class Method> static void down(Env &e, Rng &r, Ctl c, bool full) {
  Script &s = c.s;
  s.out = (int)r.below(r.chance(1, 6) ? 60 : 7); s.how = (int)r.below(6); s.last = (int)r.below(2); s.code = r.chance(1, 4) ? 1 + (int)r.below(16) : 0;
  int special = (int)r.below(7);
  if (special == 1 && s.out) s.bad_at = (int)r.below((uint64_t)s.out);
  if (special == 2 && s.out) s.garbage_at = (int)r.below((uint64_t)s.out);
  if (special == 3) { s.out = 3 + s.out; c.cancel_reads = 1 + (int)r.below((uint64_t)s.out); if (r.chance(1, 2)) s.wait_cancel = c.cancel_reads; }
  if (special == 4) { s.wait_cancel = (int)r.below((uint64_t)s.out + 1); if (s.wait_cancel) c.deadline_ms = 10 + (int)r.below(30); }
  const char *kind = full ? "down" : "down-plain";
  auto *ctx = new ::grpc::ClientContext; std::unique_ptr<::grpc::ClientContext> own(ctx); prepare(*ctx, c);
  CState st; DownCli<Method> cli(c, st, *ctx);
  Part req = make(s.call, 0, 0, s.size);
  if (special == 5) deepen(req);
  e.stub->async_call<Method>(*ctx, req, &cli);
  if (r.chance(1, 4)) { // reading is asked for by another thread
    cli.add_hold(); cli.start_call();
    std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
    cli.start_read(); cli.remove_hold();
  } else if (r.chance(1, 2)) { cli.start_read(); cli.start_call(); }
  else { cli.add_multiple_holds(2); cli.start_read(); cli.remove_hold(); cli.start_call(); cli.remove_hold(); }
  settle(kind, c, st);
  cnt(std::string("calls:") + kind);
  std::lock_guard l(st.mu);
  if (st.done != 1 || st.events_after_done) bad(std::string(kind) + ":done-count", c, "done " + std::to_string(st.done) + " times, " + std::to_string(st.events_after_done) + " events afterwards");
  if (special == 5) { if (st.status.error_code() != ::grpc::StatusCode::INTERNAL || !st.got.empty()) bad(std::string(kind) + ":unserializable-request", c, "status " + show(st.status)); else cnt("end:unserializable-request"); return; }
  auto all = upto(s.out, s.garbage_at);
  if (!prefix(st.got, all)) bad(std::string(kind) + ":order", c, "the client read " + list(st.got) + " of " + list(all));
  if (c.cancel_reads > 0 || c.deadline_ms) {
    auto code = st.status.error_code();
    bool fits = code == (c.deadline_ms ? ::grpc::StatusCode::DEADLINE_EXCEEDED : ::grpc::StatusCode::CANCELLED);
    // a stream whose end was already received may end as scripted
    if (!fits && !(!s.wait_cancel && st.got == all && eq(st.status, scripted(s)))) bad(std::string(kind) + ":cancel", c, "status " + show(st.status) + " after " + list(st.got));
    cnt(c.deadline_ms ? "end:deadline-stream" : "end:cancelled-stream");
    return;
  }
  if (s.bad_at >= 0 && !(s.last && s.bad_at + 1 == s.out && false)) {
    if (st.status.error_code() != ::grpc::StatusCode::INTERNAL || st.got != upto(s.bad_at)) bad(std::string(kind) + ":unserializable", c, "status " + show(st.status) + " after " + list(st.got));
    cnt("end:unserializable-message"); return;
  }
  if (st.got != all) bad(std::string(kind) + ":lost", c, "the client read " + list(st.got) + " of " + list(all));
  if (s.garbage_at >= 0) { if (st.bad_got != 1) bad(std::string(kind) + ":garbage", c, std::to_string(st.bad_got) + " undecodable messages"); cnt("end:garbage-message"); }
  else if (st.bad_got) bad(std::string(kind) + ":undecodable", c, std::to_string(st.bad_got) + " undecodable messages");
  if (!eq(st.status, scripted(s))) bad(std::string(kind) + ":status", c, "client sees " + show(st.status) + ", the handler finished with " + show(scripted(s)));
  cnt("streams-complete");
}

template <class Method> static void both(Env &e, Rng &r, Ctl c, bool full) {
  Script &s = c.s;
  c.n = (int)r.below(r.chance(1, 6) ? 60 : 7); c.use_last = r.chance(1, 2) && c.n; c.hold = r.chance(1, 3);
  s.how = (int)r.below(6); s.last = (int)r.below(2); s.code = full && r.chance(1, 4) ? 1 + (int)r.below(16) : 0;
  int special = (int)r.below(7);
  if (special == 1) c.cancel_writes = (int)r.below((uint64_t)c.n + 1);
  if (special == 2) { c.n += 2; c.cancel_reads = 1 + (int)r.below((uint64_t)c.n); }
  if (special == 3 && full && c.n) s.reads = 1 + (int)r.below((uint64_t)c.n);
  if (special == 4 && c.n) c.bad_write = (int)r.below((uint64_t)c.n);
  if (special == 5 && c.n) s.bad_at = (int)r.below((uint64_t)c.n);
  if (c.cancel_writes >= 0 && c.cancel_writes == c.n) c.use_last = false;
  const char *kind = full ? "both" : "both-plain";
  ::grpc::ClientContext ctx; prepare(ctx, c);
  CState st; BothCli<Method> cli(c, st, ctx);
  e.stub->async_call<Method>(ctx, &cli);
  cli.start_read();
  start_writes<Method>(cli, c);
  settle(kind, c, st);
  cnt(std::string("calls:") + kind);
  std::lock_guard l(st.mu);
  if (st.done != 1 || st.events_after_done) bad(std::string(kind) + ":done-count", c, "done " + std::to_string(st.done) + " times, " + std::to_string(st.events_after_done) + " events afterwards");
  auto log = log_of(s, kind); std::lock_guard g(log->mu);
  auto all = upto(c.n, c.bad_write);
  if (!prefix(log->read, all)) bad(std::string(kind) + ":order", c, "the server read " + list(log->read) + " of " + list(all));
  if (full) { if (!prefix(st.got, all)) bad("both:echo-order", c, "the client read " + list(st.got) + " of " + list(all)); }
  else if (!prefix(st.got, upto((int)st.got.size()))) bad("both-plain:echo-order", c, "the client read " + list(st.got));
  const auto code = st.status.error_code();
  if (c.cancel_writes >= 0) { if (code != ::grpc::StatusCode::CANCELLED) bad(std::string(kind) + ":cancel", c, "status " + show(st.status)); cnt("end:cancelled-stream"); return; }
  if (c.cancel_reads > 0) {
    if (code != ::grpc::StatusCode::CANCELLED && !(eq(st.status, scripted(s)) && (!full || st.got == all))) bad(std::string(kind) + ":cancel", c, "status " + show(st.status) + " after " + list(st.got));
    cnt("end:cancelled-stream"); return;
  }
  if (!full) {
    if (s.bad_at >= 0 && log->write_ok == s.bad_at && (int)log->read.size() > s.bad_at && code == ::grpc::StatusCode::INTERNAL) { cnt("end:unserializable-message"); return; }
    if (!(st.status.ok() || (s.bad_at >= 0 && code == ::grpc::StatusCode::INTERNAL))) bad("both-plain:status", c, "status " + show(st.status));
    if (log->read != all && st.status.ok()) bad("both-plain:lost", c, "the server read " + list(log->read) + " of " + list(all));
    if ((int)st.got.size() < log->write_ok) bad("both-plain:lost-reply", c, "the client read " + list(st.got) + ", the server wrote " + std::to_string(log->write_ok));
    cnt("streams-complete"); return;
  }
  if (s.bad_at >= 0 && s.bad_at < (int)all.size()) {
    if (code != ::grpc::StatusCode::INTERNAL || (int)st.got.size() != s.bad_at) bad("both:unserializable", c, "status " + show(st.status) + " after " + list(st.got));
    cnt("end:unserializable-message"); return;
  }
  if (s.reads > 0 && s.reads <= (int)all.size()) {
    std::vector<int> want(all.begin(), all.begin() + s.reads);
    if (log->read != want || st.got != want) bad("both:early", c, "the server read " + list(log->read) + ", the client " + list(st.got) + ", of " + list(want));
    if (!eq(st.status, scripted(s))) bad("both:status", c, "client sees " + show(st.status));
    cnt("end:early-finish"); return;
  }
  if (log->read != all || st.got != all) bad("both:lost", c, "the server read " + list(log->read) + ", the client " + list(st.got) + ", of " + list(all));
  if (log->eof != 1) bad("both:eof", c, "on_read_eof was called " + std::to_string(log->eof) + " times");
  if (!eq(st.status, scripted(s))) bad("both:status", c, "client sees " + show(st.status) + ", the handler finished with " + show(scripted(s)));
  cnt("streams-complete");
}

static void raw(Env &e, Rng &r, Ctl c) { // undecodable requests
  static const char *const methods[] = {F::Unary::method_name, F::Up::method_name, F::Down::method_name, F::Both::method_name};
  static const char *const kinds[] = {"unary", "up", "down", "both"};
  int m = (int)r.below(4);
  c.n = m == 0 || m == 2 ? 1 : 1 + (int)r.below(5);
  c.garbage_write = r.chance(3, 4) ? (int)r.below((uint64_t)c.n) : -1;
  c.s.out = 3;
  ::grpc::ClientContext ctx; prepare(ctx, c);
  CState st; RawCli cli(c, st);
  e.raw->PrepareBidiStreamingCall(&ctx, methods[m], ::grpc::StubOptions(), &cli);
  cli.StartRead(&cli.in); cli.StartCall(); cli.go();
  std::string kind = std::string("raw-") + kinds[m];
  settle(kind.c_str(), c, st);
  cnt("calls:" + kind);
  std::lock_guard l(st.mu);
  auto log = log_of(c.s, kinds[m]); std::lock_guard g(log->mu);
  auto all = upto(c.garbage_write >= 0 ? c.garbage_write : c.n);
  if (log->read != all) bad(kind + ":read", c, "the handler decoded " + list(log->read) + " of " + list(all));
  if (c.garbage_write >= 0) {
    if (log->get_bad != 1 || st.status.error_code() != ::grpc::StatusCode::INTERNAL) bad(kind + ":garbage", c, "status " + show(st.status) + ", " + std::to_string(log->get_bad) + " failed decodings");
    cnt("end:garbage-request");
  } else if (!st.status.ok()) bad(kind + ":status", c, "status " + show(st.status));
}

static std::atomic<uint64_t> g_call{0};

static void some_calls(Env &e, Rng r, int n) {
  for (int i = 0; i < n; ++i) {
    Ctl c; c.s.call = ++g_call; c.s.worker = (int)r.below(2); c.s.delay = r.chance(1, 2) ? (int)r.below(400) : 0;
    switch (r.below(12)) { case 0: c.s.size = 0; break; case 1: c.s.size = 20000; break; case 2: c.s.size = r.chance(1, 8) ? 1200000 : 3000; break; default: c.s.size = 1 + (int)r.below(60); }
    switch (r.below(18)) {
    case 0: case 1: case 2: case 3: unary(e, r, c); break;
    case 4: case 5: case 6: up<F::Up>(e, r, c, true); break;
    case 7: case 8: case 9: down<F::Down>(e, r, c, true); break;
    case 10: case 11: case 12: both<F::Both>(e, r, c, true); break;
    case 13: up<F::UpPlain>(e, r, c, false); break;
    case 14: down<F::DownPlain>(e, r, c, false); break;
    case 15: both<F::BothPlain>(e, r, c, false); break;
    case 16: raw(e, r, c); break;
    default: r.chance(1, 3) ? missing(e, r, c) : both<F::BothPlain>(e, r, c, false); break;
    }
    r.next();
    std::lock_guard l(g_fail_mu);
    ++mon::evaluations; mon::seen(c.s.text());
  }
}

int main(int argc, char **argv) {
  mon::init(argc, argv);
  Rng r(mon::g.seed * 7919 + (uint64_t)mon::g.shard);
  Workers workers(3); g_workers = &workers;
  uint64_t left = mon::g.cases;
  for (int round = 0; left; ++round) { // every round has a server of its own
    mon::begin(("p23 round " + std::to_string(round)).c_str());
    alarm(200);
    Service service;
    ::grpc::ServerBuilder b;
    const bool tcp = (mon::g.shard + round) % 2;
    int port = 0;
    b.SetMaxReceiveMessageSize(-1);
    // gRPC 1.51's own in-process transport loses the last message of a stream now and then, also without this library
    std::string address = tcp ? "127.0.0.1:0" : "unix-abstract:vp23-" + std::to_string(getpid()) + "-" + std::to_string(round);
    b.AddListeningPort(address, ::grpc::InsecureServerCredentials(), &port);
    b.RegisterService(&service);
    auto server = b.BuildAndStart();
    if (!server || !port) { std::printf("no server\n"); return 3; }
    ::grpc::ChannelArguments args; args.SetMaxReceiveMessageSize(-1);
    Env e;
    e.channel = ::grpc::CreateCustomChannel(tcp ? "127.0.0.1:" + std::to_string(port) : address, ::grpc::InsecureChannelCredentials(), args);
    e.stub = std::make_unique<Stub>(e.channel, ::grpc::StubOptions{});
    e.raw = std::make_unique<::grpc::GenericStub>(e.channel);
    cnt(tcp ? "rounds:tcp" : "rounds:unix-socket");
    int per = (int)std::min<uint64_t>(left, 320); left -= (uint64_t)per;
    const int threads = 1 + (int)r.below(8);
    {
      std::vector<std::thread> t;
      for (int i = 0; i < threads; ++i) { Rng sub(r.next()); int n = per / threads + (i < per % threads); t.emplace_back([&e, sub, n] { some_calls(e, sub, n); }); }
      for (auto &x : t) x.join();
    }
    { // every handler must come to its end
      std::unique_lock l(g_mu);
      if (!g_cv.wait_for(l, 15s, [] { return g_active == 0; })) { l.unlock(); Ctl c; std::string which;
        { std::lock_guard k(g_mu); for (auto &[id, log] : g_logs) { std::lock_guard j(log->mu); if (log->ctor != log->dtor) which += "\n  " + log->kind + " of script " + log->script.text() + ", read " + list(log->read) + " writes " + std::to_string(log->write_ok) + "+" + std::to_string(log->write_err) + " eof " + std::to_string(log->eof) + " read-cancel " + std::to_string(log->read_cancel) + " on_cancel " + std::to_string(log->cancels) + " finish " + std::to_string(log->finish); } }
        bad("handler-never-done", c, std::to_string(g_active.load()) + " handlers were never released:" + which); mon::finish(); _exit(10); }
    }
    e.raw.reset(); e.stub.reset(); e.channel.reset();
    server->Shutdown(std::chrono::system_clock::now() + 5s);
    server.reset();
    std::lock_guard l(g_mu);
    for (auto &[id, log] : g_logs) {
      Ctl c; c.s = log->script;
      if (!log->ctor) continue; // never reached the server
      mon::count("handlers");
      if (log->ctor != 1 || log->dtor != 1 || log->done != 1) bad(log->kind + ":handler-life", c, "handler made " + std::to_string(log->ctor) + ", done " + std::to_string(log->done) + ", destroyed " + std::to_string(log->dtor) + " times");
      if (log->after) bad(log->kind + ":after-done", c, std::to_string(log->after) + " callbacks after on_done");
      if (!log->trouble.empty()) bad(log->kind + ":server-altered", c, log->trouble);
      if (log->eof + log->read_cancel > 1) bad(log->kind + ":two-endings", c, "on_read_eof " + std::to_string(log->eof) + ", on_read_cancel " + std::to_string(log->read_cancel));
      if (log->absent) mon::count("server:no-payload");
      if (log->read_cancel) mon::count("server:read-cancel");
      if (log->write_err) mon::count("server:write-error");
      if (log->cancels) mon::count("server:on-cancel");
      mon::count("messages-read-by-servers", log->read.size());
    }
    g_logs.clear();
  }
  return mon::finish();
}
