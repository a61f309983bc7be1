// Dictionaries and JSON: what is written can be read back, any text is either parsed to what it denotes or refused.
#include "mc.hpp"
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <memory>
#include "onion/dict.h"
#include "onion/block.h"
#include "onion/low.h"
#include "onion/log.h"
using std::string; using mc::choose; using mc::fail; using mc::esc;
static void nolog(onion_log_level, const char *, int, const char *, ...) {}

struct Val; typedef std::vector<std::pair<string, Val>> Obj;
struct Val { bool dict = false; string s; Obj o; bool operator<(const Val &v) const { return dict != v.dict ? dict < v.dict : dict ? o < v.o : s < v.s; } bool operator==(const Val &v) const { return dict == v.dict && s == v.s && o == v.o; } };
static string show(const Obj &o) { string r = "{"; for (auto &e : o) r += "\"" + esc(e.first) + "\":" + (e.second.dict ? show(e.second.o) : "\"" + esc(e.second.s) + "\"") + ","; return r + "}"; }
static void norm(Obj &o) { for (auto &e : o) norm(e.second.o); std::sort(o.begin(), o.end()); }
static void vis(Obj *o, const char *k, const void *v, int f) { Val x; if (f & OD_DICT) { x.dict = true; onion_dict_preorder((onion_dict *)v, (void *)vis, &x.o); } else x.s = v ? (const char *)v : ""; o->push_back({k, x}); }
static Obj dump(onion_dict *d) { Obj o; onion_dict_preorder(d, (void *)vis, &o); norm(o); return o; }

// --- reference parser: 0 supported JSON, 1 not JSON, 2 unspecified ------------------------------
struct P {
  const string &t; size_t i = 0; int cls = 0; P(const string &s) : t(s) {}
  int peek() { return i < t.size() ? (unsigned char)t[i] : -1; }
  void ws() { while (peek() == ' ' || peek() == '\t' || peek() == '\n' || peek() == '\r') i++; }
  bool bad(int c = 1) { if (!cls || (cls == 2 && c == 1)) cls = c; return false; }
  static int hx(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  bool u4(unsigned &u) { u = 0; for (int k = 0; k < 4; k++) { int h = hx(peek()); if (h < 0) return false; u = u * 16 + h; i++; } return true; }
  static void utf8(unsigned u, string &o) { if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); } else { o += (char)(0xf0 | u >> 18); o += (char)(0x80 | (u >> 12 & 63)); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); } }
  bool str(string &o) {
    if (peek() != '"') return bad(); i++;
    while (true) {
      int c = peek(); if (c < 0) return bad(); i++;
      if (c == '"') return true;
      if (c < 32) bad(2);
      if (c != '\\') { o += (char)c; continue; }
      c = peek(); if (c < 0) return bad(); i++;
      switch (c) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case '"': case '\\': case '/': o += (char)c; break;
      case 'u': { unsigned u, v; if (!u4(u)) return bad(); if (!u) return bad(); if (u >= 0xdc00 && u < 0xe000) return bad(); if (u >= 0xd800 && u < 0xdc00) { if (peek() != '\\') return bad(); i++; if (peek() != 'u') return bad(); i++; if (!u4(v) || v < 0xdc00 || v > 0xdfff) return bad(); u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00); } utf8(u, o); break; }
      default: bad(2); o += (char)c; }
    }
  }
  bool obj(Obj &o) {
    ws(); if (peek() != '{') return bad(); i++; ws();
    if (peek() == '}') { i++; return true; }
    while (true) {
      string k; if (!str(k)) return false; ws(); if (peek() != ':') return bad(); i++; ws();
      Val v; int c = peek();
      if (c == '{') { v.dict = true; if (!obj(v.o)) return false; }
      else if (c == '"') { if (!str(v.s)) return false; }
      else if (c >= '0' && c <= '9') { while (peek() >= '0' && peek() <= '9') v.s += t[i++]; if (v.s.size() > 1 && v.s[0] == '0') bad(2); if (peek() == '.' || peek() == 'e' || peek() == 'E') return bad(2); }
      else if (c == '-' || c == '[' || c == 't' || c == 'f' || c == 'n') return bad(2);
      else return bad();
      o.push_back({k, v}); ws();
      if (peek() == '}') { i++; return true; }
      if (peek() != ',') return bad(); i++; ws();
      if (peek() == '}') { bad(2); i++; return true; }
    }
  }
  int run(Obj &o) { if (obj(o)) { ws(); if (i < t.size()) { cls = 1; } } return cls; }
};

static size_t live0;
static void check_parse(const string &t) {
  Obj exp; P p(t); int cls = p.run(exp); norm(exp);
  char *in = (char *)malloc(t.size() + 1); memcpy(in, t.c_str(), t.size() + 1);
  size_t l0 = mc::live_bytes();
  onion_dict *d = onion_dict_from_json(in);
  if (cls == 1 && d) fail("accepted malformed JSON %s as %s", esc(t).c_str(), show(dump(d)).c_str());
  if (cls == 0) { if (!d) fail("refused JSON %s", esc(t).c_str()); Obj g = dump(d); if (g != exp) fail("JSON %s read as %s, expected %s", esc(t).c_str(), show(g).c_str(), show(exp).c_str()); }
  mc::outcome_h(d ? mc::hash(show(dump(d))) : 0);
  if (d) onion_dict_free(d);
  if (mc::live_bytes() != l0) fail("parsing %s leaks %zd bytes", esc(t).c_str(), (ssize_t)(mc::live_bytes() - l0));
  free(in);
}
static void tokens() {
  static const char *T[] = {"{", "}", "\"a\"", "\"\"", ":", ",", "12", " ", "\"b", "x", "\"\\n\"", "-", "[", "\\"};
  int n = choose(mc::thorough() ? 8 : 7); string t; for (int i = 0; i < n; i++) { t += T[choose(n > 6 ? 10 : 14)]; if (i == 1) mc::shard(); } mc::shard();
  mc::note("%s", t.c_str()); check_parse(t);
}
static void members() { // well formed objects made of members, with optional damage at one place
  static const char *K[] = {"\"a\"", "\"b\"", "\"\\u00e9\"", "\"\""};
  static const char *V[] = {"\"x\"", "\"\"", "7", "042", "{}", "{\"a\":\"y\"}", "{\"q\":{\"r\":\"s\"},\"t\":1}", "\"\\ud83d\\ude00\"", "\"\\\\\\\"\"", "\"a\tb\""};
  static const char *S[] = {",", ", ", " ,\n\t\r"};
  int n = choose(4); string t = "{"; bool small = n == 3 && !mc::thorough();
  for (int i = 0; i < n; i++) { if (i) t += S[small ? 0 : choose(3)]; t += K[choose(n > 2 ? 2 : 4)]; if (!i) mc::shard(); t += !small && choose(2) ? " : " : ":"; t += V[choose(n > 2 ? (small ? 6 : 7) : 10)]; }
  mc::shard(); t += "}";
  int dmg = choose(4);
  if (dmg == 1) { t.erase(choose(t.size()), 1); } else if (dmg == 2) t.resize(choose(t.size() + 1)); else if (dmg == 3) { static const char *E[] = {" ", "\n", "x", "{}", "}", ","}; t += E[choose(6)]; }
  mc::note("%s", t.c_str()); check_parse(t);
}
static void truncations() { // every prefix / every single byte replaced
  static const char *B[] = {"{\"key\": \"val\\u20acue\", \"num\": 123, \"sub\": {\"a\": \"b\", \"c\": {}}}", " { \"a\" : \"\\\"\\\\\\/\\b\\f\\n\\r\\t\" } "};
  string t = B[choose(2)]; int p = choose(t.size()); mc::shard(); int b = choose(256); if (b == 0) t.resize(p); else t[p] = b; mc::note("%s", esc(t).c_str()); check_parse(t);
}
static void unicode() { // every code unit, every pair of surrogates (high x low), upper and lower case digits
  int hi = choose(256); mc::shard(); char t[64]; int step = 1;
  for (int lo = 0; lo < 256; lo++) { snprintf(t, sizeof t, lo & 1 ? "{\"k\":\"a\\u%02x%02xb\"}" : "{\"k\":\"a\\u%02X%02Xb\"}", hi, lo); mc::note("%s", t); check_parse(t); }
  for (int h = 0xd800 + hi * 4; h < 0xd800 + hi * 4 + 4; h++) for (int l = 0xdc00; l < 0xe000; l += step) { snprintf(t, sizeof t, "{\"k\":\"\\u%04x\\u%04X\"}", h, l); mc::note("%s", t); check_parse(t); if (!mc::thorough() && l > 0xdc10 && l < 0xdfe0) l += 12; }
  for (int x : {0xd7ff, 0xdbff, 0xd800, 0xe000, 0x41, 0, 0xdbfe}) { snprintf(t, sizeof t, "{\"k\":\"\\u%04x\\u%04X\"}", 0xd800 + hi * 4, x); mc::note("%s", t); check_parse(t); snprintf(t, sizeof t, "{\"k\":\"\\u%04x\\u%04X\"}", x, 0xdc00 + hi * 4); mc::note("%s", t); check_parse(t); }
}
// round trip
static void add_obj(onion_dict *d, const Obj &o) { for (auto &e : o) { if (e.second.dict) { onion_dict *s = onion_dict_new(); add_obj(s, e.second.o); onion_dict_add(d, e.first.c_str(), s, OD_DUP_KEY | OD_FREE_VALUE | OD_DICT); } else onion_dict_add(d, e.first.c_str(), e.second.s.c_str(), OD_DUP_ALL); } }
static void roundtrip_check(Obj o) {
  onion_dict *d = onion_dict_new(); add_obj(d, o); norm(o);
  onion_block *b = onion_dict_to_json(d); if (!b) fail("to_json failed for %s", show(o).c_str());
  string js(onion_block_data(b), onion_block_size(b));
  if (js.size() != strlen(onion_block_data(b))) fail("JSON holds a NUL");
  Obj r; P p(js); if (p.run(r)) fail("to_json wrote %s, which is not JSON", esc(js).c_str());
  norm(r); if (r != o) fail("to_json of %s is %s", show(o).c_str(), esc(js).c_str());
  onion_dict *e = onion_dict_from_json(onion_block_data(b)); if (!e) fail("cannot read back %s", esc(js).c_str());
  if (dump(e) != o) fail("%s read back as %s", show(o).c_str(), show(dump(e)).c_str());
  onion_dict_free(e); onion_block_free(b); onion_dict_free(d);
}
static string someStr(int which) { // deterministic strings with every kind of character and every length around growth steps
  static const char *T[] = {"", "a", "\"", "\\", "\n\r\t\b\f", "\x01\x1f\x7f", "\xc3\xa9\xe2\x82\xac", "a/b", "{\"a\":\"b\"}", "\\u0041", "&<>'"};
  if (which < 11) return T[which];
  return string(which - 11, 'z');
}
static void roundtrip() {
  int n = choose(4); Obj o;
  for (int i = 0; i < n; i++) { Val v; string k = someStr(choose(n >= 3 ? 5 : 11)); if (!i) mc::shard(); int t = choose(n >= 3 ? 6 : 13); if (t < (n >= 3 ? 4 : 11)) v.s = someStr(t); else { v.dict = true; if (t == (n >= 3 ? 5 : 12)) { Val w; w.s = someStr(k.size() % 11); v.o.push_back({"in", w}); v.o.push_back({k, w}); } } o.push_back({k, v}); }
  mc::shard(); mc::note("%s", show(o).c_str()); roundtrip_check(o);
}
static void roundtrip_len() { int a = choose(mc::thorough() ? 300 : 80), b = choose(mc::thorough() ? 60 : 40); mc::shard(); Obj o; Val v; v.s = string(a, 'v'); string k(b, 'k'); o.push_back({k, v}); if (choose(2)) { Val w; w.dict = true; w.o = o; o.push_back({"s", w}); } mc::note("key %d value %d", b, a); roundtrip_check(o); }
static void roundtrip_byte() { int c = 1 + choose(255), w = choose(3); mc::shard(); Obj o; Val v; v.s = w ? string(w, (char)c) + "x" : "v"; o.push_back({w == 1 ? "k" : string("k") + (char)c, v}); mc::note("byte %d", c); roundtrip_check(o); }
static void nested() { int depth = choose(60); mc::shard(); Obj o; Val leaf; leaf.s = "leaf"; o.push_back({"k", leaf}); for (int i = 0; i < depth; i++) { Val v; v.dict = true; v.o = o; Obj q; q.push_back({"k", v}); Val s; s.s = "side"; q.push_back({"z", s}); o = q; } mc::note("depth %d", depth); roundtrip_check(o); }

int main(int argc, char **argv) {
  onion_log = nolog;
  mc::rule("every token sequence up to 6-7 tokens, every combination of up to 3 members with every one-character deletion/truncation, every byte at every position of sample documents; every small dictionary shape for the round trip; distinct by parsed value");
  mc::assume("JSON outside strings, non negative integers and objects, duplicate-free or not, and lenient extensions (trailing comma, leading zeros, unknown escapes, raw control characters) are left open");
  mc::add("tokens", tokens); mc::add("members", members); mc::add("truncations", truncations); mc::add("unicode escapes", unicode); mc::add("roundtrip", roundtrip); mc::add("roundtrip_len", roundtrip_len); mc::add("roundtrip_byte", roundtrip_byte); mc::add("nested", nested);
  return mc::main(argc, argv);
}
