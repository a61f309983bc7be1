// Codecs: for all short inputs (and all lengths up to a bound) encoders and decoders are
// inverse, agree with independent reference codecs, and stay inside their buffers.
#include "mc.hpp"
#include <string.h>
#include <stdlib.h>
#include <memory>
#include "onion/codecs.h"
#include "onion/block.h"
#include "onion/low.h"
#include "onion/log.h"
using std::string; using mc::choose; using mc::fail; using mc::esc;

static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// ---- reference codecs -------------------------------------------------------------
static string ref_b64(const string &s) {           // unwrapped
  string r; unsigned v = 0; int bits = 0;
  for (unsigned char c : s) { v = (v << 8) | c; bits += 8; while (bits >= 6) { bits -= 6; r += B64[(v >> bits) & 63]; } }
  if (bits) r += B64[(v << (6 - bits)) & 63];
  while (r.size() % 4) r += '=';
  return r;
}
// 0 valid, 1 invalid for sure (NULL expected), 2 unspecified
static int ref_unb64(const string &in, string &out) {
  string s; for (char c : in) if (c != '\n' && c != '\r' && c != ' ') s += c;
  out.clear();
  if (s.empty()) return 2;
  if (s.size() % 4) return 1;
  for (char c : s) if (c != '=' && !strchr(B64, c)) return 1;
  size_t eq = s.find('='); 
  if (eq != string::npos) {
    if (eq < s.size() - 2) return 2;
    for (size_t i = eq; i < s.size(); i++) if (s[i] != '=') return 2;
  }
  unsigned v = 0; int bits = 0;
  for (char c : s) { if (c == '=') break; v = (v << 6) | (strchr(B64, c) - B64); bits += 6; if (bits >= 8) { bits -= 8; out += (char)(v >> bits); } v &= (1u << bits) - 1; }
  if (v) return 2;                                  // non canonical trailing bits: only memory safety is asked
  return 0;
}
static bool alnum(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static string ref_quote_unit(unsigned char c) { if (alnum(c)) return string(1, c); return mc::strf("%%%02X", c); }
static int hexv(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
// reference url decoding; false if malformed
static bool ref_unquote(const string &s, string &o) {
  o.clear();
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%') {
      if (i + 2 >= s.size() || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0) return false;
      o += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2;
    } else if (s[i] == '+') o += ' '; else o += s[i];
  }
  return true;
}
// evaluates (possibly several adjacent) C string literals; false if not well formed
static bool c_eval(const string &s, string &o) {
  o.clear(); size_t i = 0; bool any = false;
  while (i < s.size()) {
    if (s[i] == '\n' || s[i] == ' ') { i++; continue; }
    if (s[i] != '"') return false;
    i++; any = true;
    while (true) {
      if (i >= s.size() || s[i] == '\n') return false;
      if (s[i] == '"') { i++; break; }
      if (s[i] != '\\') { o += s[i++]; continue; }
      if (++i >= s.size()) return false;
      switch (s[i]) {
      case 'n': o += '\n'; i++; break; case 'r': o += '\r'; i++; break; case 't': o += '\t'; i++; break;
      case 'a': o += '\a'; i++; break; case 'b': o += '\b'; i++; break; case 'f': o += '\f'; i++; break; case 'v': o += '\v'; i++; break;
      case '"': case '\\': case '\'': case '?': o += s[i++]; break;
      case 'x': { int v = 0; i++; if (i >= s.size() || hexv(s[i]) < 0) return false; while (i < s.size() && hexv(s[i]) >= 0) v = v * 16 + hexv(s[i++]); if (v > 255) return false; o += (char)v; break; }
      default: { int v = 0, n = 0; while (n < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7') { v = v * 8 + s[i++] - '0'; n++; } if (!n || v > 255) return false; o += (char)v; }
      }
    }
  }
  return any;
}
static string ref_html(const string &s) {
  string r; for (char c : s) switch (c) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&#39;"; break; default: r += c; }
  return r;
}
static void utf8(unsigned u, string &o) {
  if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); }
  else if (u < 0x10000) { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
  else { o += (char)(0xf0 | u >> 18); o += (char)(0x80 | (u >> 12 & 63)); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
}
// 0: valid, value in o and consumed chars in used; 1: must be an error; 2: unspecified
static int ref_json(const string &s, string &o, size_t &used) {
  o.clear(); bool q = s.size() && s[0] == '"'; size_t i = q; 
  while (true) {
    if (i >= s.size()) { if (q) return 1; used = i; return 0; }
    unsigned char c = s[i];
    if (q && c == '"') { used = i + 1; return 0; }
    if (c != '\\') { o += c; i++; continue; }
    if (i + 1 >= s.size()) return 1;
    c = s[++i];
    switch (c) {
    case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
    case '"': case '\\': case '/': o += c; break;
    case 'u': {
      auto h4 = [&](size_t p) -> int { int v = 0; for (int k = 0; k < 4; k++) { if (p + k >= s.size() || hexv(s[p + k]) < 0) return -1; v = v * 16 + hexv(s[p + k]); } return v; };
      int u = h4(i + 1); if (u <= 0) return 1;
      i += 4;
      if (u >= 0xdc00 && u <= 0xdfff) return 1;
      if (u >= 0xd800 && u <= 0xdbff) {
        if (i + 2 >= s.size() || s[i + 1] != '\\' || s[i + 2] != 'u') return 1;
        int u2 = h4(i + 3); if (u2 < 0xdc00 || u2 > 0xdfff) return 1;
        i += 6; u = 0x10000 + ((u - 0xd800) << 10) + (u2 - 0xdc00);
      }
      utf8(u, o); break; }
    default: return 2;
    }
    i++;
  }
}

// exact-size heap copies, so that ASAN sees any overrun
static char *heapz(const string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static char *heapn(const string &s) { char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); return p; }

static string pick(const string &alphabet, int maxlen, int minlen = 0) {   // every string, 
  int n = minlen + choose(maxlen - minlen + 1); string s;
  for (int i = 0; i < n; i++) { s += alphabet[choose(alphabet.size())]; if (i == 1 || n < 2) mc::shard(); }
  mc::shard();
  return s;
}

// ---- base64 -----------------------------------------------------------------------
static void check_b64_roundtrip(const string &s) {
  char *in = heapn(s);
  char *e = onion_base64_encode(in, s.size());
  if (!e) fail("base64_encode returned NULL for %zu bytes", s.size());
  string enc = e, flat; size_t line = 0;
  for (char c : enc) { if (c == '\n') { line = 0; continue; } flat += c; if (++line > 76) fail("base64 line longer than 76 for length %zu", s.size()); }
  if (flat != ref_b64(s)) fail("base64_encode(%s) = %s, expected %s", esc(s).c_str(), esc(enc).c_str(), ref_b64(s).c_str());
  int l = -7; char *d = onion_base64_decode(e, &l);
  if (s.empty()) { if (d && l != 0) fail("decode of empty gives %d bytes", l); }
  else {
    if (!d) fail("base64_decode(encode(%s)) is NULL", esc(s).c_str());
    if (l != (int)s.size() || memcmp(d, s.data(), l)) fail("base64 round trip of %s gives %s", esc(s).c_str(), esc(string(d, l)).c_str());
    if (d[l] != 0) fail("decoded data is not terminated");
  }
  if (d) onion_low_free(d);
  onion_low_free(e); free(in);
}
static void b64_short() { // all strings of length <=2 over all bytes
  int n = choose(3); string s; for (int i = 0; i < n; i++) { s += (char)choose(256); if (!i) mc::shard(); }
  mc::shard(); mc::note("base64 %s", esc(s).c_str()); check_b64_roundtrip(s);
}
static void b64_mid() {
  static const unsigned char a[] = {0, 1, 3, 4, 15, 16, 31, 32, 48, 63, 64, 127, 128, 191, 192, 240, 252, 255, 'A', 'z'};
  string al((const char *)a, sizeof(a)); string s = pick(al, mc::thorough() ? 5 : 4, 3); mc::note("base64 %s", esc(s).c_str()); check_b64_roundtrip(s);
}
static void b64_len() { // all lengths, several contents
  int n = choose(mc::thorough() ? 1200 : 600), k = choose(5); mc::shard(); string s; unsigned x = 12345 + k;
  for (int i = 0; i < n; i++) { x = x * 1103515245 + 12345; s += k == 0 ? (char)0xff : k == 1 ? (char)0 : k == 2 ? (char)i : (char)(x >> 16); }
  mc::note("base64 length %d content %d", n, k); check_b64_roundtrip(s);
}
static void check_b64_decode(const string &s) {
  string exp; int kind = ref_unb64(s, exp);
  char *in = heapz(s); int l = -7; char *d = onion_base64_decode(in, &l);
  if (kind == 1 && d) fail("base64_decode(\"%s\") accepted malformed input, returned %d bytes", esc(s).c_str(), l);
  if (kind == 0) {
    if (!d) fail("base64_decode(\"%s\") rejected valid input", esc(s).c_str());
    if (l != (int)exp.size() || memcmp(d, exp.data(), l)) fail("base64_decode(\"%s\") = %d bytes %s, expected %s", esc(s).c_str(), l, esc(string(d, l > 0 ? l : 0)).c_str(), esc(exp).c_str());
  }
  if (d && (l < 0 || l > (int)s.size())) fail("base64_decode(\"%s\") reports length %d", esc(s).c_str(), l);
  char *d2 = onion_base64_decode(in, NULL);
  if (!d2 != !d) fail("base64_decode depends on the length pointer");
  if (d2) onion_low_free(d2);
  mc::outcome(mc::strf("%d %s", kind, d ? esc(string(d, l)).c_str() : "NULL"));
  if (d) onion_low_free(d);
  free(in);
}
static void b64_dec_any() { string s = pick(string("AQz/+=\n\r *-\x01\x7f\x80\xff", 15), mc::thorough() ? 6 : 5); mc::note("decode %s", esc(s).c_str()); check_b64_decode(s); }
static void b64_dec_ws() { string s = pick("Q= \n", mc::thorough() ? 11 : 9); mc::note("decode %s", esc(s).c_str()); check_b64_decode(s); }
static void b64_dec_byte() { // every byte value at every position of a valid text
  static const char *base[] = {"QUJD", "QUI=", "QQ==", "QUJDRA==", "QU\nJD\nQUI=\n"};
  string s = base[choose(5)]; int p = choose(s.size()); mc::shard(); int b = 1 + choose(255); s[p] = b; mc::note("decode %s", esc(s).c_str()); check_b64_decode(s);
}

// ---- URL quoting ------------------------------------------------------------------
static void check_quote(const string &s) {
  char *in = heapz(s); char *q = onion_quote_new(in); string full; for (unsigned char c : s) full += ref_quote_unit(c);
  if (!q) fail("quote_new NULL");
  string back; if (!ref_unquote(q, back) || back != s) fail("url quoting of %s is %s, which does not decode to it", esc(s).c_str(), esc(q).c_str());
  if (strpbrk(q, " &=?#/\"<>\r\n;")) fail("url quoting of %s leaves reserved characters: %s", esc(s).c_str(), esc(q).c_str());
  string enc = q;
  onion_unquote_inplace(q); if (s != q) fail("unquote(quote(%s)) = %s", esc(s).c_str(), esc(q).c_str());
  onion_low_free(q);
  for (size_t m = 1; m <= enc.size() + 2; m++) {
    char *r = (char *)malloc(m); memset(r, 0x55, m);
    int l = onion_quote(in, r, m);
    if (l < 0 || l >= (int)m || strlen(r) != (size_t)l) fail("onion_quote(%s, max %zu) returned %d", esc(s).c_str(), m, l);
    if (enc.compare(0, l, r, l)) fail("onion_quote(%s, max %zu) = %s is not a prefix of %s", esc(s).c_str(), m, r, enc.c_str());
    if (m > enc.size() && string(r) != enc) fail("onion_quote(%s, max %zu) = %s truncated needlessly", esc(s).c_str(), m, r);
    string t; if (!ref_unquote(r, t)) fail("onion_quote(%s, max %zu) = %s cuts an escape", esc(s).c_str(), m, r);
    free(r);
  }
  free(in);
}
static void url_quote() { static const char al[] = "aZ9%+ /&=?\x01\n\x7f\x80\xff"; string s = pick(al, mc::thorough() ? 5 : 4); mc::note("quote %s", esc(s).c_str()); check_quote(s); }
static void url_quote_byte() { int b = 1 + choose(255), k = choose(4); mc::shard(); string s = string(k == 1 || k == 3 ? "a" : "") + (char)b + (k >= 2 ? "/" : ""); mc::note("quote %s", esc(s).c_str()); check_quote(s); }
static void check_unquote(const string &s) {
  string exp; bool ok = ref_unquote(s, exp);
  char *in = heapz(s); onion_unquote_inplace(in);
  string got = in;
  if (ok) { string e = exp.c_str(); if (got != e) fail("unquote(%s) = %s, expected %s", esc(s).c_str(), esc(got).c_str(), esc(e).c_str()); }
  else { // malformed escape: only memory safety, and what precedes the escape survives
    string pre; size_t p = 0; for (p = 0; p < s.size(); p++) { if (s[p] == '%') { if (p + 2 < s.size() && hexv(s[p + 1]) >= 0 && hexv(s[p + 2]) >= 0) { pre += (char)(hexv(s[p + 1]) * 16 + hexv(s[p + 2])); p += 2; continue; } break; } pre += s[p] == '+' ? ' ' : s[p]; }
    pre = pre.c_str(); if (got.compare(0, pre.size(), pre)) fail("unquote(%s) = %s loses the part before the malformed escape", esc(s).c_str(), esc(got).c_str());
    if (got.size() > s.size()) fail("unquote(%s) grows", esc(s).c_str());
  }
  mc::outcome(got); free(in);
}
static void url_unquote() { string s = pick("%2aFg+z", mc::thorough() ? 8 : 6); mc::note("unquote %s", esc(s).c_str()); check_unquote(s); }
static void url_unquote_hex() { int b = choose(256); int cas = choose(3); mc::shard(); string s = mc::strf(cas == 0 ? "x%%%02Xy" : cas == 1 ? "x%%%02xy" : "%%%02x", b); mc::note("unquote %s", s.c_str()); check_unquote(s); }

// ---- C quoting --------------------------------------------------------------------
static void check_cquote(const string &s) {
  char *in = heapz(s); char *q = onion_c_quote_new(in); string v;
  if (!q) fail("c_quote_new NULL");
  if (!c_eval(q, v)) fail("c_quote(%s) = %s is not a C string literal", esc(s).c_str(), esc(q).c_str());
  if (v != s) fail("c_quote(%s) = %s denotes %s", esc(s).c_str(), esc(q).c_str(), esc(v).c_str());
  string full = q; onion_low_free(q);
  for (size_t m = 3; m <= full.size() + 3; m++) {
    char *r = (char *)malloc(m); memset(r, 0x55, m);
    char *x = onion_c_quote(in, r, m);
    if (x != r) fail("onion_c_quote must return its buffer");
    if (strnlen(r, m) >= m) fail("onion_c_quote(%s, max %zu) is not terminated", esc(s).c_str(), m);
    if (m > full.size() && string(r) != full) fail("onion_c_quote(%s, max %zu) = %s truncated needlessly", esc(s).c_str(), m, esc(r).c_str());
    string t; if (!c_eval(r, t) || s.compare(0, t.size(), t)) fail("onion_c_quote(%s, max %zu) = %s does not denote a prefix", esc(s).c_str(), m, esc(r).c_str());
    free(r);
  }
  free(in);
}
static void c_quote() { static const char al[] = "a7\"\\\n\r\t\x80\xff'?"; string s = pick(al, mc::thorough() ? 6 : 5); mc::note("c_quote %s", esc(s).c_str()); check_cquote(s); }
static void c_quote_byte() { int b = 1 + choose(255), k = choose(4); mc::shard(); string s = string(k & 1 ? "1" : "") + (char)b + (k & 2 ? "1" : ""); mc::note("c_quote %s", esc(s).c_str()); check_cquote(s); }

// ---- HTML -------------------------------------------------------------------------
static void check_html(const string &s) {
  char *in = heapz(s); string exp = ref_html(s);
  char *q = onion_html_quote(in);
  if (exp == s) { if (q) fail("html_quote(%s) must be NULL when nothing needs quoting", esc(s).c_str()); }
  else if (!q || exp != q) fail("html_quote(%s) = %s, expected %s", esc(s).c_str(), q ? esc(q).c_str() : "NULL", esc(exp).c_str());
  if (q) onion_low_free(q);
  char *d = (char *)onion_html_quote_dup(in);
  if (!d || exp != d) fail("html_quote_dup(%s) = %s, expected %s", esc(s).c_str(), d ? esc(d).c_str() : "NULL", esc(exp).c_str());
  if (d == in) fail("html_quote_dup must return a fresh string");
  onion_low_free(d); free(in);
}
static void html() { static const char al[] = "a<>&\"'; \xc3"; string s = pick(al, mc::thorough() ? 6 : 5); mc::note("html %s", esc(s).c_str()); check_html(s); }
static void html_byte() { int b = 1 + choose(255), k = choose(4); mc::shard(); string s = string(k & 1 ? "x" : "") + (char)b + (k & 2 ? "<" : ""); mc::note("html %s", esc(s).c_str()); check_html(s); }

// ---- JSON strings -----------------------------------------------------------------
struct Blk { onion_block *b; Blk() : b(onion_block_new()) {} ~Blk() { onion_block_free(b); } string s() { return string(onion_block_data(b), onion_block_size(b)); } };
static void check_jquote(const string &s, int pre) {
  char *in = heapz(s); Blk b; string prefix(pre, 'p'); onion_block_add_data(b.b, prefix.data(), pre);
  onion_json_quote_add(b.b, in); string q = b.s();
  if (q.compare(0, pre, prefix)) fail("json_quote_add(%s) changed what the block held", esc(s).c_str());
  q = q.substr(pre);
  for (unsigned char c : q) if (c < 32) fail("json_quote_add(%s) leaves raw control characters: %s", esc(s).c_str(), esc(q).c_str());
  string v; size_t used; if (ref_json("\"" + q + "\"", v, used) != 0 || v != s || used != q.size() + 2) fail("json_quote_add(%s) = %s does not denote it", esc(s).c_str(), esc(q).c_str());
  string lit = "\"" + q + "\""; char *l = heapz(lit); Blk u; ssize_t r = onion_json_unquote_add(u.b, l);
  if (r != (ssize_t)lit.size() || u.s() != s) fail("json_unquote(json_quote(%s)): returned %zd, %s", esc(s).c_str(), r, esc(u.s()).c_str());
  free(l); free(in);
}
static void json_quote() { static const char al[] = "a\"\\/\n\x01\x1f\x7f\xc3u"; string s = pick(al, mc::thorough() ? 6 : 4); mc::note("json quote %s", esc(s).c_str()); check_jquote(s, 0); check_jquote(s, 15); }
static void json_quote_byte() { int b = 1 + choose(255), k = choose(4); mc::shard(); string s = string(k & 1 ? "x" : "") + (char)b + (k & 2 ? "\\" : ""); mc::note("json quote %s", esc(s).c_str()); for (int p = 0; p < 18; p++) check_jquote(s, p); }
static void check_junquote(const string &s) {
  string exp; size_t used = 0; int kind = ref_json(s, exp, used);
  char *in = heapz(s); Blk b; onion_block_add_str(b.b, "p"); ssize_t r = onion_json_unquote_add(b.b, in);
  if (kind == 1 && r >= 0) fail("json_unquote(%s) accepted malformed string (returned %zd)", esc(s).c_str(), r);
  if (kind == 0) {
    if (r < 0) fail("json_unquote(%s) rejected valid string", esc(s).c_str());
    if (b.s() != "p" + exp) fail("json_unquote(%s) = %s expected %s", esc(s).c_str(), esc(b.s()).c_str(), esc(exp).c_str());
    if (s.size() && s[0] == '"' && r != (ssize_t)used) fail("json_unquote(%s) consumed %zd bytes, expected %zu", esc(s).c_str(), r, used);
  }
  if (r > (ssize_t)s.size() + 1) fail("json_unquote(%s) claims to have read %zd bytes", esc(s).c_str(), r);
  mc::outcome(mc::strf("%zd %s", r, esc(b.s()).c_str())); free(in);
}
static void json_unquote() { string s = pick("\"\\unb1aD", mc::thorough() ? 7 : 6); mc::note("json unquote %s", esc(s).c_str()); check_junquote(s); }
static void json_unquote_tok() { // concatenations of interesting tokens, quoted or not
  static const char *T[] = {"a", "\\n", "\\\"", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d", "\\ude00", "\\uD83D\\uDE00", "\\udbff\\udfff", "\\ud800\\udc00", "\\u0000", "\\u00g1", "\\u07ff", "\\u0800", "\\uffff", "\\u12", "\\", "\"", "\xc3\xa9", "\\u007f", "\\u0080", "\\/"};
  bool q = mc::flip(); int n = choose(mc::thorough() ? 5 : 4); string s = q ? "\"" : "";
  for (int i = 0; i < n; i++) { s += T[choose(23)]; if (!i) mc::shard(); }
  mc::shard(); if (mc::flip()) s += "\"";
  mc::note("json unquote %s", esc(s).c_str()); check_junquote(s);
}
static void json_u_all() { // every \uXXXX
  int hi = choose(256); mc::shard();
  for (int lo = 0; lo < 256; lo++) { check_junquote(mc::strf("\"\\u%02x%02x\"", hi, lo)); check_junquote(mc::strf("\"\\u%02X%02X\\udc0%x\"", hi, lo, lo & 15)); }
  mc::note("json \\u%02x00..ff", hi);
}

// ---- SHA1 -------------------------------------------------------------------------
static void ref_sha1(const string &m, unsigned char out[20]) {
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  string p = m; p += (char)0x80; while (p.size() % 64 != 56) p += '\0';
  uint64_t bl = m.size() * 8ull; for (int i = 7; i >= 0; i--) p += (char)(bl >> (8 * i));
  auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)(unsigned char)p[o + 4 * i] << 24 | (unsigned char)p[o + 4 * i + 1] << 16 | (unsigned char)p[o + 4 * i + 2] << 8 | (unsigned char)p[o + 4 * i + 3];
    for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1; else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6; uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
static void sha1() {
  int n = choose(300), k = choose(3); mc::shard(); string s; unsigned x = k * 77 + 1; for (int i = 0; i < n; i++) { x = x * 1103515245 + 12345; s += k ? (char)(x >> 16) : (char)0; }
  unsigned char e[20]; char *g = (char *)malloc(20); char *in = heapn(s); ref_sha1(s, e); onion_sha1(in, n, g);
  if (memcmp(e, g, 20)) fail("sha1 of %d bytes differs from the reference", n);
  free(g); free(in); mc::note("sha1 of %d bytes, content %d", n, k);
}

static void lengths() { // every length, plain, all special, and a special character at the end
  int L = choose(mc::thorough() ? 9000 : 1300), k = choose(6), pat = choose(3); mc::shard(); static const char sp[] = "%/<\"\n\xff"; string s; for (int i = 0; i < L; i++) s += pat == 0 || (pat == 2 && i != L - 1) ? (char)('a' + i % 23) : sp[i % 6]; mc::note("codec %d, length %d, pattern %d", k, L, pat);
  if (k == 0) check_quote(s); if (k == 1) { string q; for (char c : s) if (isalnum((unsigned char)c)) q += c; else q += mc::strf("%%%02x", (unsigned char)c); check_unquote(q); } if (k == 2) check_cquote(s); if (k == 3) check_html(s); if (k == 4) check_jquote(s, 0); if (k == 5) { string q = "\""; for (char c : s) if (c == '"') q += "\\\""; else if (c == '\n') q += "\\n"; else q += c; check_junquote(q + "\""); }
}
int main(int argc, char **argv) {
  onion_log_flags = OF_INIT | OF_NODEBUG | OF_NOINFO;
  mc::rule("every string up to the stated length over a per-codec alphabet of structural characters, every byte value in context, every length up to the bound; an execution is distinct by the value decoded/encoded");
  mc::assume("inputs longer than the bounds differ from covered ones only by repeated interior characters; each codec is a per-character transducer with finite look-ahead");
  mc::add("base64_short", b64_short); mc::add("base64_mid", b64_mid); mc::add("base64_len", b64_len);
  mc::add("base64_decode_any", b64_dec_any); mc::add("base64_decode_ws", b64_dec_ws); mc::add("base64_decode_byte", b64_dec_byte);
  mc::add("url_quote", url_quote); mc::add("url_quote_byte", url_quote_byte); mc::add("url_unquote", url_unquote); mc::add("url_unquote_hex", url_unquote_hex);
  mc::add("c_quote", c_quote); mc::add("c_quote_byte", c_quote_byte); mc::add("html", html); mc::add("html_byte", html_byte);
  mc::add("json_quote", json_quote); mc::add("json_quote_byte", json_quote_byte); mc::add("json_unquote", json_unquote); mc::add("json_unquote_tok", json_unquote_tok); mc::add("json_u_all", json_u_all);
  mc::add("sha1", sha1); mc::add("every length", lengths);
  return mc::main(argc, argv);
}
