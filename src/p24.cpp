// P24: the base64, timestamp, duration and field mask codecs against independent implementations of the JSON mapping.
#include "mon.hpp"
#include "ref.hpp"
#include <cassert>
#include <charconv>
#include <memory>
#include <memory_resource>
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/json/base64.hpp>
#include <hpp_proto/json/timestamp_codec.hpp>
#include <hpp_proto/json/duration_codec.hpp>
#include <hpp_proto/json/field_mask_codec.hpp>

using ref::Rng;
namespace {
struct TV { int64_t seconds; int32_t nanos; };
struct Ctx {} ctx;

std::string exact(std::string_view s) { return std::string(s); }
// a heap block of exactly the string's size, so that reading past it is caught
struct Blk { std::unique_ptr<char[]> p; size_t n; Blk(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); } std::string_view v() const { return {p.get(), n}; } };
// runs an encoder with exactly the room it announced (plus the spare room asked for)
template <class C, class V> std::pair<int64_t, std::string> enc(const V &v, size_t spare = 0) {
  size_t n = C::max_encode_size(v) + spare;
  std::unique_ptr<char[]> p(new char[n]); std::memset(p.get(), '~', n);
  int64_t k = C::encode(v, std::span<char>(p.get(), n));
  if (k > (int64_t)C::max_encode_size(v)) mon::fail(std::string("p24:announced-size"), "encoder announced " + std::to_string(C::max_encode_size(v)) + " and wrote " + std::to_string(k));
  return {k, k >= 0 && k <= (int64_t)n ? std::string(p.get(), (size_t)k) : std::string()};
}

// ------------------------------------------------------------------ base64
const char *AB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(std::string_view s) {
  std::string o; uint32_t acc = 0; int bits = 0;
  for (unsigned char c : s) { acc = acc << 8 | c; bits += 8; while (bits >= 6) { bits -= 6; o += AB[acc >> bits & 63]; } }
  if (bits) o += AB[acc << (6 - bits) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
enum Verdict { NO, YES, EITHER };
Verdict unb64(std::string_view s, std::string &out) {
  out.clear(); size_t n = s.size(), pad = 0;
  while (pad < 2 && pad < n && s[n - 1 - pad] == '=') ++pad;
  std::string_view body = s.substr(0, n - pad);
  bool url = false, std_ = false; uint32_t acc = 0; int bits = 0;
  for (unsigned char c : body) {
    const char *q = c ? std::strchr(AB, c) : nullptr; int v = q ? (int)(q - AB) : -1;
    if (c == '-') { v = 62; url = true; } else if (c == '_') { v = 63; url = true; } else if (c == '+' || c == '/') std_ = true;
    if (v < 0) return NO;
    acc = acc << 6 | v; bits += 6; if (bits >= 8) { bits -= 8; out += (char)(acc >> bits & 255); } acc &= (1u << bits) - 1;
  }
  if (body.size() % 4 == 1) return NO;
  if (n % 4 == 0) { if (acc) return EITHER; return url ? EITHER : YES; }
  if (pad == 0) return EITHER; // no padding: the mapping allows it
  (void)std_; return NO;
}
template <class Str> bool dec64(std::string_view s, Str &v) { Blk b(s); return hpp_proto::base64::decode(b.v(), v, ctx); }
template <class B> std::string flat(const B &b) { return std::string(reinterpret_cast<const char *>(b.data()), b.size()); }
void check64_dec(std::string_view s) {
  mon::begin("base64 decode", s); mon::seen("b64d", s);
  std::string want; Verdict v = unb64(s, want);
  std::string a = "leftover"; std::vector<std::byte> b(3); bool ra = dec64(s, a), rb = dec64(s, b);
  if (ra != rb || (ra && a != flat(b))) mon::fail("p24:base64:types", "string and byte vector targets disagree on " + std::string(s));
  if (v == YES && !ra) mon::fail("p24:base64:rejected", "valid base64 rejected: " + std::string(s));
  if (v == NO && ra) mon::fail("p24:base64:accepted", "invalid base64 accepted: " + mon::hexs(s) + " gave " + mon::hexs(a));
  if (v != NO && ra && a != want) mon::fail("p24:base64:value", "base64 " + std::string(s) + " gave " + mon::hexs(a) + " instead of " + mon::hexs(want));
  mon::count(v == YES ? "base64-valid" : v == NO ? "base64-invalid" : "base64-optional");
  // the non-owning target
  std::pmr::monotonic_buffer_resource mr; hpp_proto::pb_context c{hpp_proto::alloc_from{mr}};
  hpp_proto::bytes_view bv; Blk blk(s); bool rv = hpp_proto::base64::decode(blk.v(), bv, c);
  if (rv != ra || (rv && flat(bv) != a)) mon::fail("p24:base64:types", "string and view targets disagree on " + std::string(s));
}
void check64(std::string_view s) {
  mon::begin("base64 encode", s); mon::seen("b64", s);
  Blk blk(s); std::string want = b64(s);
  auto [k, got] = enc<hpp_proto::base64>(std::string_view(blk.v()));
  if (k < 0 || got != want) mon::fail("p24:base64:encode", mon::hexs(s) + " encodes as " + got + " instead of " + want);
  std::span<const std::byte> sp(reinterpret_cast<const std::byte *>(blk.p.get()), s.size());
  auto [k2, got2] = enc<hpp_proto::base64>(sp, 7);
  if (got2 != want) mon::fail("p24:base64:encode", "bytes: " + mon::hexs(s) + " encodes as " + got2);
  std::string back; if (!dec64(want, back) || back != s) mon::fail("p24:base64:roundtrip", mon::hexs(s));
  mon::count("base64-encoded");
}

// ------------------------------------------------------------------ timestamps
bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int mdays(int64_t y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
int64_t days_before_year(int64_t y) { --y; return y * 365 + y / 4 - y / 100 + y / 400; } // since 0001-01-01
int64_t civil(int64_t y, int m, int d) { int64_t n = days_before_year(y); for (int i = 1; i < m; ++i) n += mdays(y, i); return n + d - 1 - days_before_year(1970); }
std::string frac(uint32_t n) { if (!n) return ""; char t[16]; std::snprintf(t, sizeof t, ".%09u", n); std::string s = t; if (s.substr(7) == "000") s.resize(7); if (s.size() == 7 && s.substr(4) == "000") s.resize(4); return s; }
const int64_t TMIN = -62135596800, TMAX = 253402300799, DMAX = 315576000000;
std::string ts(int64_t s, int32_t n) {
  int64_t days = s / 86400, rem = s % 86400; if (rem < 0) { rem += 86400; --days; }
  int64_t dd = days + days_before_year(1970); int64_t y = dd / 366 + 1; while (days_before_year(y + 1) <= dd) ++y; int64_t doy = dd - days_before_year(y); int m = 1; while (doy >= mdays(y, m)) { doy -= mdays(y, m); ++m; }
  char t[64]; std::snprintf(t, sizeof t, "%04d-%02d-%02dT%02d:%02d:%02d", (int)y, m, (int)doy + 1, (int)(rem / 3600), (int)(rem / 60 % 60), (int)(rem % 60));
  return t + frac((uint32_t)n) + "Z";
}
bool digits(std::string_view s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
Verdict unts(std::string_view s, TV &v) { // NO, or YES with the value; offsets and other RFC 3339 forms: EITHER
  if (s.size() < 20) return NO;
  static const char *pat = "dddd-dd-ddTdd:dd:dd"; bool lower = false;
  for (int i = 0; i < 19; ++i) { char c = s[i]; if (pat[i] == 'd') { if (c < '0' || c > '9') return NO; } else if (pat[i] == 'T') { if (c == 't') lower = true; else if (c != 'T') return NO; } else if (c != pat[i]) return NO; }
  auto num = [&](int a, int n) { int x = 0; for (int i = 0; i < n; ++i) x = x * 10 + (s[a + i] - '0'); return x; };
  int y = num(0, 4), mo = num(5, 2), d = num(8, 2), h = num(11, 2), mi = num(14, 2), se = num(17, 2);
  if (y < 1 || mo < 1 || mo > 12 || d < 1 || d > mdays(y, mo) || h > 23 || mi > 59 || se > 60) return NO;
  std::string_view r = s.substr(19); int32_t n = 0;
  if (r[0] == '.') { size_t k = 1; while (k < r.size() && r[k] >= '0' && r[k] <= '9') ++k; if (k == 1 || k > 10) return NO; std::string f(r.substr(1, k - 1)); f.resize(9, '0'); n = std::atoi(f.c_str()); r.remove_prefix(k); }
  v = {civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + se, n};
  if (se == 60) return NO;
  if (r == "Z") return lower ? EITHER : YES;
  if (r == "z") return EITHER;
  if (r.size() == 6 && (r[0] == '+' || r[0] == '-') && digits(r.substr(1, 2)) && r[3] == ':' && digits(r.substr(4, 2))) { int off = (std::atoi(std::string(r.substr(1, 2)).c_str()) * 60 + std::atoi(std::string(r.substr(4, 2)).c_str())) * 60; v.seconds -= r[0] == '+' ? off : -off; return EITHER; }
  return NO;
}
void check_ts_dec(std::string_view s) {
  mon::begin("timestamp decode", s); mon::seen("tsd", s);
  TV want{}, got{77, 77}; Verdict v = unts(s, want); Blk b(s); bool r = hpp_proto::timestamp_codec::decode(b.v(), got, ctx);
  if (v == YES && !r) mon::fail("p24:timestamp:rejected", "valid timestamp rejected: " + std::string(s));
  if (v == NO && r) mon::fail("p24:timestamp:accepted", "invalid timestamp accepted: " + std::string(s) + " as " + std::to_string(got.seconds) + "," + std::to_string(got.nanos));
  if (v != NO && r && (got.seconds != want.seconds || got.nanos != want.nanos)) mon::fail("p24:timestamp:value", std::string(s) + " gave " + std::to_string(got.seconds) + "," + std::to_string(got.nanos) + " instead of " + std::to_string(want.seconds) + "," + std::to_string(want.nanos));
  mon::count(v == YES ? "timestamp-valid" : v == NO ? "timestamp-invalid" : "timestamp-optional");
}
void check_ts(int64_t s, int32_t n) {
  char id[64]; std::snprintf(id, sizeof id, "%lld,%d", (long long)s, n); mon::begin((std::string("timestamp encode ") + id).c_str()); mon::seen("ts", id);
  bool ok = s >= TMIN && s <= TMAX && n >= 0 && n <= 999999999;
  auto [k, got] = enc<hpp_proto::timestamp_codec>(TV{s, n}, s & 1 ? 3 : 0);
  if (!ok) { if (k >= 0) mon::fail("p24:timestamp:range", std::string(id) + " is out of range and was encoded as " + got); mon::count("timestamp-out-of-range"); return; }
  std::string want = ts(s, n);
  if (k < 0 || got != want) { mon::fail("p24:timestamp:encode", std::string(id) + " encodes as " + got + " instead of " + want); return; }
  TV back{}; Blk b(got); if (!hpp_proto::timestamp_codec::decode(b.v(), back, ctx) || back.seconds != s || back.nanos != n) mon::fail("p24:timestamp:roundtrip", std::string(id) + " -> " + got + " -> " + std::to_string(back.seconds) + "," + std::to_string(back.nanos));
  mon::count("timestamp-encoded");
}

// ------------------------------------------------------------------ durations
std::string du(int64_t s, int32_t n) { bool neg = s < 0 || n < 0; return (neg ? "-" : "") + std::to_string(s < 0 ? -s : s) + frac((uint32_t)(n < 0 ? -n : n)) + "s"; }
Verdict undu(std::string_view s, TV &v) {
  if (s.size() < 2 || s.back() != 's') return NO;
  s.remove_suffix(1); bool neg = false, odd = false; if (s[0] == '-') { neg = true; s.remove_prefix(1); } else if (s[0] == '+') { odd = true; s.remove_prefix(1); }
  size_t p = s.find('.'); std::string_view w = s.substr(0, p);
  if (w.empty()) odd = true; else if (!digits(w)) return NO;
  while (w.size() > 1 && w[0] == '0') { odd = true; w.remove_prefix(1); }
  if (w.size() > 12) return NO;
  int64_t sec = w.empty() ? 0 : std::strtoll(std::string(w).c_str(), nullptr, 10); int32_t n = 0;
  if (p != std::string_view::npos) { std::string f(s.substr(p + 1)); if (f.empty()) { odd = true; if (w.empty()) return NO; } else if (!digits(f)) return NO; if (f.size() > 9) return NO; f.resize(9, '0'); n = std::atoi(f.c_str()); }
  if (sec > DMAX) return NO;
  if (sec == DMAX && n > 0) odd = true;
  v = {neg ? -sec : sec, neg ? -n : n};
  return odd ? EITHER : YES;
}
void check_du_dec(std::string_view s) {
  mon::begin("duration decode", s); mon::seen("dud", s);
  TV want{}, got{77, 77}; Verdict v = undu(s, want); Blk b(s); bool r = hpp_proto::duration_codec::decode(b.v(), got, ctx);
  if (v == YES && !r) mon::fail("p24:duration:rejected", "valid duration rejected: " + std::string(s));
  if (v == NO && r) mon::fail("p24:duration:accepted", "invalid duration accepted: " + std::string(s) + " as " + std::to_string(got.seconds) + "," + std::to_string(got.nanos));
  if (v != NO && r && (got.seconds != want.seconds || got.nanos != want.nanos)) mon::fail("p24:duration:value", std::string(s) + " gave " + std::to_string(got.seconds) + "," + std::to_string(got.nanos) + " instead of " + std::to_string(want.seconds) + "," + std::to_string(want.nanos));
  mon::count(v == YES ? "duration-valid" : v == NO ? "duration-invalid" : "duration-optional");
}
void check_du(int64_t s, int32_t n) {
  char id[64]; std::snprintf(id, sizeof id, "%lld,%d", (long long)s, n); mon::begin((std::string("duration encode ") + id).c_str()); mon::seen("du", id);
  bool ok = s >= -DMAX && s <= DMAX && n >= -999999999 && n <= 999999999 && !((s > 0 && n < 0) || (s < 0 && n > 0));
  auto [k, got] = enc<hpp_proto::duration_codec>(TV{s, n}, s & 1 ? 3 : 0);
  if (!ok) { if (k >= 0) mon::fail("p24:duration:range", std::string(id) + " is out of range and was encoded as " + got); mon::count("duration-out-of-range"); return; }
  std::string want = du(s, n); bool edge = (s == DMAX || s == -DMAX) && n;
  if (edge && k < 0) return;
  if (k < 0 || got != want) { mon::fail("p24:duration:encode", std::string(id) + " encodes as " + got + " instead of " + want); return; }
  TV back{}; Blk b(got); if (!hpp_proto::duration_codec::decode(b.v(), back, ctx) || back.seconds != s || back.nanos != n) mon::fail("p24:duration:roundtrip", std::string(id) + " -> " + got + " -> " + std::to_string(back.seconds) + "," + std::to_string(back.nanos));
  mon::count("duration-encoded");
}

// ------------------------------------------------------------------ field masks
struct FM { std::vector<std::string> paths; };
struct FMV { hpp_proto::equality_comparable_span<const std::string_view> paths; };
std::string esc(const std::string &p) {
  std::string o; char t[8];
  for (unsigned char c : p) switch (c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; default: if (c < 32) { std::snprintf(t, sizeof t, "\\u%04x", c); o += t; } else o += (char)c; }
  return o;
}
void check_fm(const std::vector<std::string> &paths) {
  std::string want, raw; bool inv = true; for (size_t i = 0; i < paths.size(); ++i) { want += (i ? "," : "") + esc(paths[i]); raw += (i ? "," : "") + paths[i]; if (paths[i].find(',') != std::string::npos) inv = false; }
  if (paths.size() == 1 && paths[0].empty()) inv = false; // the same string as no path at all
  mon::begin("field mask", raw); mon::seen("fm", raw);
  auto [k, got] = enc<hpp_proto::field_mask_codec>(FM{paths});
  if (k < 0 || got != want) mon::fail("p24:field_mask:encode", mon::hexs(raw) + " encodes as " + got + " instead of " + want);
  // decoding sees the string after JSON unescaping
  FM back{{"x", "y", "z"}}; Blk b(raw); bool r = hpp_proto::field_mask_codec::decode(b.v(), back, ctx);
  if (!r) mon::fail("p24:field_mask:rejected", mon::hexs(raw));
  std::string rejoined; for (size_t i = 0; i < back.paths.size(); ++i) rejoined += (i ? "," : "") + back.paths[i];
  if (rejoined != raw || (inv && back.paths != paths) || (raw.empty() && !back.paths.empty())) mon::fail("p24:field_mask:roundtrip", mon::hexs(raw) + " -> " + mon::hexs(rejoined) + " in " + std::to_string(back.paths.size()) + " paths");
  std::pmr::monotonic_buffer_resource mr; hpp_proto::pb_context c{hpp_proto::alloc_from{mr}}; FMV v; std::string owned(raw); r = hpp_proto::field_mask_codec::decode(owned, v, c);
  if (!r || v.paths.size() != back.paths.size()) mon::fail("p24:field_mask:types", mon::hexs(raw)); else for (size_t i = 0; i < back.paths.size(); ++i) if (v.paths[i] != back.paths[i]) mon::fail("p24:field_mask:types", mon::hexs(raw));
  mon::count("field-masks");
}

std::string mutate(Rng &r, std::string s, const char *alpha) {
  size_t na = std::strlen(alpha);
  for (int k = 1 + (int)r.below(3); k-- > 0;) {
    size_t i = r.below(s.size() + 1);
    switch (r.below(5)) { case 0: if (i < s.size()) s[i] = alpha[r.below(na)]; break; case 1: s.insert(i, 1, alpha[r.below(na)]); break; case 2: if (i < s.size()) s.erase(i, 1); break; case 3: if (i < s.size()) s[i] = (char)r.below(256); break; default: if (s.size() > 1 && i + 1 < s.size()) std::swap(s[i], s[i + 1]); }
  }
  return s;
}
} // namespace

int main(int argc, char **argv) {
  mon::init(argc, argv);
  Rng r(mon::g.seed * 7919 + mon::g.shard);
  auto mine = [](uint64_t i) { return (int)(i % mon::g.nshards) == mon::g.shard; };
  uint64_t it = 0;
  // exhaustive: every two-byte input to the encoder, every last quartet shape with one or two odd characters
  for (int a = 0; a < 256; ++a) if (mine(it++)) { std::string s(1, (char)a); check64(s); for (int b = 0; b < 256; b += (mon::g.thorough ? 1 : 3)) check64(s + (char)b); }
  { std::string probe = "AB+/=-_ .\n*zZ09w\x7f"; probe += '\0'; probe += (char)0xff; for (char a : probe) if (mine(it++)) for (char b : probe) for (char c : probe) for (char d : probe) { std::string q{a, b, c, d}; check64_dec(q); if (r.below(8) == 0) { check64_dec(q + "QUJD"); check64_dec("QUJD" + q); } } }
  // every day boundary of the supported range in steps, and all range ends
  for (int64_t d = TMIN / 86400 - 2; d <= TMAX / 86400 + 2; d += mon::g.thorough ? 1 : 37) if (mine(it++)) for (int64_t o : {-1, 0, 1, 43200}) check_ts(d * 86400 + o, (d & 3) == 0 ? 0 : (int32_t)r.below(1000000000));
  static const int32_t N[] = {0, 1, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 100000, 999999, 1000000, 1000001, 1001000, 10000000, 100000000, 120000000, 123000000, 123456000, 123456789, 500000000, 999000000, 999999000, 999999999, 1000000000, INT32_MAX, -1, -1000, -1000000, -500000000, -999999999, -1000000000, INT32_MIN};
  static const int64_t S[] = {0, 1, -1, 59, 60, -60, 3599, 86399, 86400, 951782399, 951782400, 951868800, 4107542400, TMIN, TMIN - 1, TMIN + 1, TMAX, TMAX - 1, TMAX + 1, DMAX, DMAX + 1, DMAX - 1, -DMAX, -DMAX - 1, -DMAX + 1, INT64_MAX, INT64_MIN, INT64_MIN + 1, 9999999999, 100000000000, 99999999999};
  for (int64_t s : S) for (int32_t n : N) if (mine(it++)) { check_ts(s, n); check_du(s, n); }
  for (const char *s : {"", "Z", "s", "-s", "-", ".s", "-.s", "--1s", "-0s", "-0.0s", "-0.000000001s", "0.s", "1.s", ".5s", "1.0000000000s", "1.-5s", "1.+5s", "+1s", "1e3s", "0x1s", " 1s", "1 s", "1s ", "1S", "99999999999999999999s", "18446744073709551615s", "18446744073709551616s", "9223372036854775808s", "315576000000s", "315576000001s", "-315576000000s", "-315576000001s", "315576000000.5s", "1..5s", "1.5.5s", "00001s", "1.000000001s"}) check_du_dec(s);
  for (const char *s : {"2020-01-01T-0:00:00Z", "2020-01-01T00:-0:00Z", "2020-01-01T00:00:-0Z", "2020-01-01T00:00:00.-0Z", "2020-01-01T00:00:00.-1Z", "2020-01-01T00:00:00.Z", "2020-01-01T00:00:00.+1Z", "2020-02-30T00:00:00Z", "2019-02-29T00:00:00Z", "2020-02-29T00:00:00Z", "1900-02-29T00:00:00Z", "2000-02-29T00:00:00Z", "0000-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "-001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "10000-01-01T00:00:00Z", "2020-13-01T00:00:00Z", "2020-00-01T00:00:00Z", "2020-01-32T00:00:00Z", "2020-01-01T24:00:00Z", "2020-01-01T23:60:00Z", "2020-01-01T23:59:60Z", "2020-01-01 00:00:00Z", "2020-01-01T00:00:00", "2020-01-01T00:00:00z", "2020-01-01t00:00:00Z", "2020-01-01T00:00:00+00:00", "2020-01-01T00:00:00+08:00", "2020-01-01T00:00:00ZZ", "2020-01-01T00:00:00.1234567890Z", "2020-1-01T00:00:00Z", "20200101T000000Z", "2020-01-01T00:00Z", "2020-01-01T00:00:0Z", "2020-01-01T00:00:00.1 Z", " 2020-01-01T00:00:00Z", "2020-01-01T00:00:00.000000001Z", "2020-01-01T00:00:00.1Z"}) check_ts_dec(s);
  for (uint64_t c = mon::g.shard; c < mon::g.cases; c += mon::g.nshards) {
    std::string s; size_t n = r.below(6) ? r.below(80) : r.below(3000); for (size_t i = 0; i < n; ++i) s += (char)r.below(256);
    check64(s);
    std::string e = b64(s.substr(0, r.below(60))); check64_dec(e); check64_dec(mutate(r, e, "=ABYZabz019+/-_")); if (e.size()) check64_dec(e.substr(0, r.below(e.size())));
    int64_t sec; switch (r.below(5)) { case 0: sec = (int64_t)r.below(TMAX - TMIN + 1) + TMIN; break; case 1: sec = (int64_t)r.below(2 * DMAX + 1) - DMAX; break; case 2: sec = (int64_t)r.next(); break; case 3: sec = (int64_t)(r.next() >> r.below(64)) * (r.below(2) ? 1 : -1); break; default: sec = (int64_t)((uint64_t)S[r.below(std::size(S))] + r.below(5) - 2); }
    int32_t ns; switch (r.below(4)) { case 0: ns = N[r.below(std::size(N))]; break; case 1: ns = (int32_t)r.below(1000000000); break; case 2: ns = (int32_t)(r.below(1000) * (r.below(2) ? 1000000 : 1000)); break; default: ns = -(int32_t)r.below(1000000000); }
    check_ts(sec, ns); check_du(sec, ns); if (sec < 0) check_du(sec, -std::max(ns, -INT32_MAX));
    int64_t in = TMIN + (int64_t)r.below(TMAX - TMIN + 1); std::string t = ts(in, (int32_t)r.below(1000000000)); check_ts_dec(t); check_ts_dec(mutate(r, t, "0123456789-:TZ.+")); { std::string u = t.substr(0, 19) + "." + std::to_string(r.next() >> r.below(60)) + "Z"; check_ts_dec(u); }
    std::string d = du((int64_t)r.below(2 * DMAX) - DMAX, 0); d.pop_back(); d += "." + std::to_string(r.next() >> r.below(60)) + "s"; check_du_dec(d); check_du_dec(mutate(r, d, "0123456789-s.+")); check_du_dec(du((int64_t)(r.next() >> r.below(64)) / 2, (int32_t)r.below(1000000000)));
    std::vector<std::string> paths; for (int i = r.below(5); i-- > 0;) { std::string p; for (int j = r.below(12); j-- > 0;) p += r.below(4) ? (char)("abz_.XY/0"[r.below(9)]) : r.below(3) ? (char)r.below(256) : "\"\\\n\t\b\f\r,"[r.below(8)]; paths.push_back(p); } check_fm(paths);
    if (c % 701 == 0) mon::sample(t + " | " + d + " | " + e);
  }
  return mon::finish();
}
