// P22: the websocket handshake is accepted exactly when it is one, and every message written reaches the client as one well formed frame,
// or the writer is told that it could not.
#include "ws.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/crypto.h>
#include <stdarg.h>
using namespace wst; using mc::choose;
static string b64(const string &s) { static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o; size_t i = 0; for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += T[v & 63]; } if (s.size() - i == 2) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += "="; } else if (s.size() - i == 1) { unsigned v = (unsigned char)s[i] << 16; o += T[v >> 18]; o += T[v >> 12 & 63]; o += "=="; } return o; }
static string accept_of(const string &key) { string d(20, 0), k = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; gnutls_hash_fast(GNUTLS_DIG_SHA1, k.data(), k.size(), &d[0]); return b64(d); }
struct H { bool ws; Resp r; string after; };
static onion_connection_status nothing(void *, onion_websocket *, ssize_t) { return OCS_NEED_MORE_DATA; }
static H shake(const string &msg, std::function<void(onion_websocket *, Conn &)> act = nullptr, std::function<ssize_t(const char *, size_t)> wr = nullptr) {
  H h; h.ws = false; rx.clear(); rx_pos = 0; piece = 0; cuts.clear(); reads_at_end = 0; in_ws = false; Conn c(*sv); c.req->connection.fd = 77; size_t hs = 0; handler = [&](onion_request *q, onion_response *r) { onion_websocket *ws = onion_websocket_new(q, r); if (!ws) { onion_response_write0(r, "plain"); return OCS_PROCESSED; } if (onion_websocket_new(q, r) != ws) fail("asking again gives another websocket"); h.ws = true; hs = c.out.size(); c.on_write = wr; onion_websocket_set_callback(ws, nothing); if (act) act(ws, c); in_ws = true; return OCS_WEBSOCKET; };
  bool open = c.feed(msg); in_ws = false; if (h.ws) { h.after = c.out.substr(hs); c.out.resize(hs); } h.r = parse_response(c.out, 0, false, !c.open); if (h.ws && open) fail("the connection goes on as HTTP"); return h;
}
static void check_shake(const H &h, bool want, const string &key, const string *proto) {
  if (!h.r.err.empty()) fail("malformed answer (%s)", h.r.err.c_str()); if (h.ws != want) fail("%s", want ? "a websocket was refused" : "taken as a websocket"); if (!want) { if (h.r.code != 200 || h.r.body != "plain") fail("the plain answer is %d %s", h.r.code, esc(h.r.body).c_str()); return; }
  if (h.r.code != 101) fail("answer is %d", h.r.code); auto is = [&](const char *n, const string &v) { if (h.r.count(n) != 1) fail("%d %s headers", h.r.count(n), n); if (strcasecmp(h.r.get(n)->c_str(), v.c_str())) fail("%s: %s", n, h.r.get(n)->c_str()); }; is("Upgrade", "websocket"); is("Connection", "Upgrade"); if (h.r.count("Sec-WebSocket-Accept") != 1 || *h.r.get("Sec-WebSocket-Accept") != accept_of(key)) fail("accept is %s, expected %s", h.r.get("Sec-WebSocket-Accept") ? h.r.get("Sec-WebSocket-Accept")->c_str() : "missing", accept_of(key).c_str()); if (h.r.count("Content-Length") || h.r.count("Transfer-Encoding")) fail("the answer has a length");
  if (!proto) { if (h.r.count("Sec-WebSocket-Protocol")) fail("a protocol nobody asked for"); } else { if (h.r.count("Sec-WebSocket-Protocol") != 1) fail("%d protocol headers", h.r.count("Sec-WebSocket-Protocol")); const string &p = *h.r.get("Sec-WebSocket-Protocol"); bool found = false; for (size_t a = 0; a <= proto->size();) { size_t e = proto->find(',', a); if (e == string::npos) e = proto->size(); string t = proto->substr(a, e - a); t.erase(0, t.find_first_not_of(' ') == string::npos ? t.size() : t.find_first_not_of(' ')); if (t == p) found = true; a = e + 1; } if (!found) fail("protocol %s answered, offered %s", p.c_str(), proto->c_str()); }
}
static void handshakes() { static const char *up[] = {nullptr, "websocket", "WebSocket", "h2c", "", "websocketx", "websocket, x"}, *ver[] = {nullptr, "13", "8", "0", "", "x13", "-13", "130"}, *key[] = {nullptr, "dGhlIHNhbXBsZSBub25jZQ==", "x", "My-key"}, *pr[] = {nullptr, "chat", "chat, superchat", "a,b", "a"}; int u = choose(7), v = choose(8), k = choose(4); mc::shard(); int p = choose(5), first = choose(2); string m = "GET /ws HTTP/1.1\r\n"; if (first && up[u]) m += string("Upgrade: ") + up[u] + "\r\n"; m += "Connection: keep-alive, Upgrade\r\n"; if (ver[v]) m += string("Sec-WebSocket-Version: ") + ver[v] + "\r\n"; if (key[k]) m += string("sec-websocket-key: ") + key[k] + "\r\n"; if (pr[p]) m += string("Sec-Websocket-Protocol: ") + pr[p] + "\r\n"; if (!first && up[u]) m += string("upgrade: ") + up[u] + "\r\n"; mc::note("%s", esc(m).c_str()); H h = shake(m + "\r\n"); string pp = pr[p] ? pr[p] : ""; check_shake(h, (u == 1 || u == 2) && v == 1 && k > 0, key[k] ? key[k] : "", pr[p] ? &pp : nullptr); mc::outcome(m); }
static void keys() { int L = 1 + choose(300); mc::shard(); string k; for (int i = 0; i < L; i++) k += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[(i * 7 + L) % 64]; mc::note("key of %d bytes", L); H h = shake("GET / HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + k + "\r\nSec-WebSocket-Protocol: " + string(L, 'p') + "\r\n\r\n"); string p(L, 'p'); check_shake(h, true, k, &p); mc::outcome(k); }
// ---- messages ----
static string pat(size_t n, int k) { string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 11 + k + (i >> 8)); return s; }
static int vp(onion_websocket *w, const char *f, ...) { va_list a; va_start(a, f); int r = onion_websocket_vprintf(w, f, a); va_end(a); return r; }
struct Op { int kind; size_t n; int op; }; // 0 write, 1 printf, 2 vprintf, 3 set opcode, 4 close
static string text(const Op &o, int i) { return o.kind == 0 ? pat(o.n, i) : o.kind == 4 ? string("\x03\xe8") : [&] { string t(o.n, 'a'); for (size_t k = 0; k < t.size(); k++) t[k] = 'a' + (k + i) % 26; return t; }(); }
// runs the operations; want: the frames that were accepted. fault: the transport fails from some byte on
static void run(const vector<Op> &ops, std::function<ssize_t(const char *, size_t)> wr, long broken_at, const string &d) {
  vector<Frame> want; vector<int> rets; vector<string> sent; int cur = OWS_TEXT; H h = shake(HS, [&](onion_websocket *ws, Conn &) { int i = 0; for (auto &o : ops) { string t = text(o, i++); int r = 0; if (o.kind == 0) r = onion_websocket_write(ws, t.data(), t.size()); else if (o.kind == 1) r = i & 1 ? onion_websocket_printf(ws, "%s", t.c_str()) : t.size() ? onion_websocket_printf(ws, "%c%s", t[0], t.c_str() + 1) : onion_websocket_printf(ws, "%s", ""); else if (o.kind == 2) r = vp(ws, "%.*s%s", (int)(t.size() / 2), t.c_str(), t.c_str() + t.size() / 2); else if (o.kind == 3) { onion_websocket_set_opcode(ws, (onion_websocket_opcode)o.op); cur = o.op; if (onion_websocket_get_opcode(ws) != o.op) fail("opcode was not set"); continue; } else { onion_websocket_close(ws, t.data()); cur = OWS_CONNECTION_CLOSE; want.push_back({cur, t}); rets.push_back(0); sent.push_back(t); continue; } want.push_back({cur, t}); rets.push_back(r); sent.push_back(t); } }, wr);
  if (!h.ws) fail("no websocket"); string err; bool partial; vector<Frame> f = decode(h.after, err, partial); if (!err.empty()) fail("%s: the client can not understand what was sent (%s): %s", d.c_str(), err.c_str(), esc(h.after.substr(0, 100)).c_str()); bool lost = broken_at >= 0;
  if (!lost && partial) fail("%s: the last frame is not whole", d.c_str()); if (!lost && f.size() != want.size()) fail("%s: %zu frames sent, %zu messages written", d.c_str(), f.size(), want.size()); size_t n = std::min(f.size(), want.size()); if (f.size() > want.size()) fail("%s: too many frames", d.c_str());
  for (size_t i = 0; i < n; i++) { if (f[i].op != want[i].op || !f[i].fin) fail("%s: frame %zu has opcode %d%s, expected %d", d.c_str(), i, f[i].op, f[i].fin ? "" : " and is not final", want[i].op); if (f[i].data != want[i].data) fail("%s: message %zu of %zu bytes arrived as %zu bytes, or changed", d.c_str(), i, want[i].data.size(), f[i].data.size()); if (want[i].op != OWS_CONNECTION_CLOSE && !lost && rets[i] != (int)want[i].data.size()) fail("%s: a message of %zu bytes was sent, it said %d", d.c_str(), want[i].data.size(), rets[i]); }
  if (lost) for (size_t i = n; i < want.size(); i++) if (want[i].op != OWS_CONNECTION_CLOSE && rets[i] >= 0) fail("%s: message %zu of %zu bytes was not sent, it said %d", d.c_str(), i, want[i].data.size(), rets[i]);
}
static void lengths() { static vector<size_t> L; if (L.empty()) { for (size_t i = 0; i <= 300; i++) L.push_back(i); for (size_t c : {400, 511, 512, 1000, 1014, 1024, 1536, 2048, 3072, 4096, 8192, 65535, 65536, 65536 + 1024, 131072}) for (int d = -12; d <= 12; d++) L.push_back(c + d); L.push_back(1 << 20); L.push_back((1 << 20) + 1); } size_t n = L[choose(L.size())]; mc::shard(); for (int k = 0; k < 3; k++) { string d = mc::strf("kind %d, %zu bytes", k, n); mc::note("%s", d.c_str()); run({{k, n, 0}, {0, 3, 0}}, nullptr, -1, d); mc::state(mc::hash(d)); } mc::outcome(mc::strf("%zu", n)); }
static void programs() { static const vector<Op> A = {{0, 0}, {0, 1}, {0, 126}, {0, 1024}, {0, 2048}, {0, 65536}, {1, 5}, {1, 511}, {1, 512}, {1, 700}, {2, 600}, {3, 0, OWS_BINARY}, {3, 0, OWS_TEXT}, {3, 0, OWS_PING}, {4, 2}}; int n = 1 + choose(mc::thorough() ? 4 : 3); vector<Op> o; string d; for (int i = 0; i < n; i++) { int k = choose(A.size()); if (i == 0) mc::shard(); o.push_back(A[k]); d += mc::strf("%d/%zu ", A[k].kind, A[k].n + A[k].op); } mc::note("%s", d.c_str()); run(o, nullptr, -1, d); mc::outcome(d); }
// the transport takes less than it is given, or breaks after any number of bytes
static void short_writes() { static const size_t N[] = {0, 3, 125, 126, 500, 1014, 1020, 1024, 1030, 2100, 65536}; int a = choose(11), kind = choose(2); mc::shard(); static const size_t T[] = {1, 2, 3, 7, 100, 1000, 1023, 1025}; int t = choose(8); int first = choose(3); string d = mc::strf("%zu bytes kind %d, %zu at a time from write %d", N[a], kind, T[t], first); mc::note("%s", d.c_str()); int w = 0; run({{kind, N[a], 0}, {0, 5, 0}}, [&](const char *, size_t l) -> ssize_t { return w++ < first ? l : std::min(l, T[t]); }, -1, d); mc::outcome(d); }
static void broken() { static const size_t N[] = {0, 3, 126, 1020, 1024, 2100, 66000}; int a = choose(7), e = choose(2); mc::shard(); size_t tot = N[a] + 12 + 7; for (size_t at = 0; at <= tot; at += (at < 40 || at + 30 > tot || (at > 1000 && at < 1050)) ? 1 : 97) { string d = mc::strf("%zu bytes, the transport breaks after %zu (%s)", N[a], at, e ? "0" : "-1"); mc::note("%s", d.c_str()); size_t done = 0; run({{0, N[a], 0}, {1, 5, 0}}, [&](const char *, size_t l) -> ssize_t { if (done >= at) return e ? 0 : -1; size_t n = std::min(l, at - done); done += n; return n; }, at, d); mc::state(mc::hash(d)); } mc::outcome(mc::strf("%d %d", a, e)); }
static void not_ws() { int k = choose(3); mc::shard(); handler = nullptr; for (int i = 0; i < 4; i++) { size_t m0 = mc::live_bytes(); { H h = shake(k == 0 ? string("GET / HTTP/1.1\r\n\r\n") : k == 1 ? string("GET / HTTP/1.1\r\nUpgrade: websocket\r\n\r\n") : string("GET / HTTP/1.1\r\nUpgrade: websocket\r\nSec-Websocket-Key: k\r\nSec-Websocket-Version: 7\r\n\r\n")); check_shake(h, false, "", nullptr); } handler = nullptr; if (i > 1 && mc::live_bytes() > m0 + 64) fail("%zu bytes leaked", mc::live_bytes() - m0); } mc::outcome(mc::strf("%d", k)); }
int main(int c, char **v) {
  mc::rule("combinations of handshake headers, keys of every length, message lengths around every limit by write, printf and vprintf, programs of writes and opcodes, transports that take little or break at any byte; non-trivial: each execution decodes the stream with an independent client");
  mc::add("handshakes", handshakes, true, wst::init); mc::add("keys", keys, true, wst::init); mc::add("lengths", lengths, true, wst::init); mc::add("programs", programs, true, wst::init); mc::add("short writes", short_writes, true, wst::init); mc::add("broken transport", broken, true, wst::init); mc::add("not a websocket", not_ws, true, wst::init); return mc::main(c, v);
}
