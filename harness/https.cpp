// P28: over HTTPS everything is as over HTTP, and what does not arrive whole and unchanged is not believed
#include "corpus.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include <sys/socket.h>
#include <poll.h>
#include <thread>
#include <time.h>
extern "C" {
#include "onion/https.h"
#include "onion/websocket.h"
#include "onion/types.h"
}
using namespace onh; using mc::choose;
// ---- the listen point accepts what we give it; parameters for DH are not searched for
static int next_fd = -1; static int accept_fails = 0;
extern "C" int __wrap_accept4(int, struct sockaddr *a, socklen_t *l, int) { if (accept_fails) { errno = ECONNABORTED; return -1; } if (l) *l = 0; int f = next_fd; next_fd = -1; return f; }
extern "C" int __wrap_gnutls_dh_params_generate2(gnutls_dh_params_t p, unsigned) { return gnutls_dh_params_import_raw(p, &gnutls_ffdhe_2048_group_prime, &gnutls_ffdhe_2048_group_generator); }
extern "C" time_t __wrap_time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
static Server *plain; static onion *tls_o; static onion_listen_point *lp; static vector<string> seen; static gnutls_certificate_credentials_t cc; static vector<Msg> ms;
static size_t answer_n; static int how_answer;
static int on_request(onion_request *req, onion_response *res) {
  if (onion_request_is_secure(req) != (req->connection.listen_point == lp)) fail("the request says that it is %ssecure", onion_request_is_secure(req) ? "" : "not ");
  Seen s = observe(req); seen.push_back(s.text());
  string b = s.text(); if (answer_n) { b.assign(answer_n, 0); for (size_t i = 0; i < answer_n; i++) b[i] = "abcdefghijklmnopqrstuvwxyz\n"[i * 7 % 27 + 0] ^ (i / 4096 & 1); }
  if (how_answer == 1) onion_response_set_length(res, b.size()); if (how_answer == 2) { onion_request_set_no_keep_alive(req); }
  size_t p = 0; while (p < b.size()) { size_t k = how_answer == 3 ? std::min<size_t>(1000, b.size() - p) : b.size() - p; if (onion_response_write(res, b.data() + p, k) < 0) break; p += k; } return OCS_PROCESSED;
}
static int tls_handler(void *, onion_request *q, onion_response *r) { return on_request(q, r); }
static string certfile, keyfile;
static void make_cert() { // a self signed certificate
  gnutls_x509_privkey_t k; gnutls_x509_crt_t c; gnutls_x509_privkey_init(&k); gnutls_x509_privkey_generate(k, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0); gnutls_x509_crt_init(&c); gnutls_x509_crt_set_version(c, 3); unsigned char ser = 1; gnutls_x509_crt_set_serial(c, &ser, 1); gnutls_x509_crt_set_activation_time(c, 1600000000); gnutls_x509_crt_set_expiration_time(c, 4000000000u); gnutls_x509_crt_set_dn(c, "CN=localhost", nullptr); gnutls_x509_crt_set_key(c, k); gnutls_x509_crt_set_key_usage(c, GNUTLS_KEY_DIGITAL_SIGNATURE); if (gnutls_x509_crt_sign2(c, c, k, GNUTLS_DIG_SHA256, 0)) fail("cannot sign");
  auto save = [&](const string &f, const gnutls_datum_t &d) { spit(f, string((char *)d.data, d.size)); gnutls_free(d.data); }; gnutls_datum_t d; certfile = mc::scratch() + "/cert.pem"; keyfile = mc::scratch() + "/key.pem"; gnutls_x509_crt_export2(c, GNUTLS_X509_FMT_PEM, &d); save(certfile, d); gnutls_x509_privkey_export2(k, GNUTLS_X509_FMT_PEM, &d); save(keyfile, d); gnutls_x509_crt_deinit(c); gnutls_x509_privkey_deinit(k);
}
static void init() {
  gnutls_global_init(); make_cert(); ms = corpus(); plain = new Server(on_request); onion_log = nolog; tls_o = onion_new(O_ONE_LOOP | O_NO_SIGTERM); lp = onion_https_new(); if (!lp) fail("no https"); if (onion_https_set_certificate(lp, O_SSL_CERTIFICATE_KEY, certfile.c_str(), keyfile.c_str()) < 0) fail("the certificate is not accepted");
  onion_add_listen_point(tls_o, nullptr, nullptr, onion_http_new()); onion_add_listen_point(tls_o, nullptr, nullptr, lp); // a plain one first: that a port is the second makes no difference
  lp->listenfd = ::open("/dev/null", O_RDONLY); onion_set_root_handler(tls_o, onion_handler_new((onion_handler_handler)tls_handler, nullptr, nullptr)); onion_set_timeout(tls_o, 5000); gnutls_certificate_allocate_credentials(&cc); signal(SIGPIPE, SIG_IGN);
}
static const char *PRIO[] = {"NORMAL:-VERS-ALL:+VERS-TLS1.3", "NORMAL:-VERS-ALL:+VERS-TLS1.2"};
// ---- one client
struct TLS {
  int cfd = -1, sfd = -1; gnutls_session_t cs = nullptr; onion_request *req = nullptr; bool open = false, hs = false, bye = false, cut = false; string out, tap; bool tapping = false; // tapping: cipher text is kept, not sent
  long limit = -1; long sent = 0; long flip = -1; unsigned char mask = 0; int after = 0; // after `limit` bytes: 0 end, 1 silence
  static ssize_t push(gnutls_transport_ptr_t p, const void *d, size_t n) { TLS *t = (TLS *)p; string s((const char *)d, n); if (t->tapping) { t->tap += s; return n; } for (size_t i = 0; i < n; i++) if (t->sent + (long)i == t->flip) s[i] ^= t->mask; size_t k = n; if (t->limit >= 0) k = std::max<long>(0, std::min<long>(n, t->limit - t->sent)); if (k) (void)!::send(t->cfd, s.data(), k, MSG_NOSIGNAL); t->sent += n; if (t->limit >= 0 && t->sent >= t->limit && t->after == 0 && k < n) shutdown(t->cfd, SHUT_RDWR); return n; }
  static ssize_t pull(gnutls_transport_ptr_t p, void *d, size_t n) { TLS *t = (TLS *)p; return recv(t->cfd, d, n, 0); }
  static int pull_timeout(gnutls_transport_ptr_t p, unsigned ms) { struct pollfd f = {((TLS *)p)->cfd, POLLIN, 0}; return ::poll(&f, 1, ms == GNUTLS_INDEFINITE_TIMEOUT ? -1 : ms); }
  void dial(int prio) {
    int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp)) fail("no sockets"); cfd = sp[0]; sfd = sp[1]; int big = 1 << 20; setsockopt(sfd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big); setsockopt(cfd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
    gnutls_init(&cs, GNUTLS_CLIENT); gnutls_priority_set_direct(cs, PRIO[prio], nullptr); gnutls_credentials_set(cs, GNUTLS_CRD_CERTIFICATE, cc); gnutls_transport_set_ptr(cs, this); gnutls_transport_set_push_function(cs, push); gnutls_transport_set_pull_function(cs, pull); gnutls_transport_set_pull_timeout_function(cs, pull_timeout); gnutls_handshake_set_timeout(cs, GNUTLS_INDEFINITE_TIMEOUT);
  }
  void server_side() { next_fd = sfd; req = onion_request_new(lp); if (req && req->connection.fd < 0) { onion_request_free(req); req = nullptr; } open = req; }
  bool connect(int prio) { dial(prio); std::thread th([this] { struct timeval t = {flip >= 0 ? 0 : 20, 300000}; setsockopt(cfd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); int r; do r = gnutls_handshake(cs); while (r < 0 && r != GNUTLS_E_AGAIN && !gnutls_error_is_fatal(r)); hs = r == 0; if (!hs) shutdown(cfd, SHUT_RDWR); }); server_side(); th.join(); fcntl(cfd, F_SETFL, O_NONBLOCK); return hs && open; }
  void record(const string &d) { size_t p = 0; while (p < d.size()) { ssize_t n = gnutls_record_send(cs, d.data() + p, d.size() - p); if (n < 0) return; p += n; } }
  bool readable() { struct pollfd f = {sfd, POLLIN, 0}; return ::poll(&f, 1, 0) > 0; }
  void finish_server() { onion_request_free(req); req = nullptr; open = false; }
  // what the poller does: a call for each time there is something to read in the socket
  bool pump() { int n = 0; while (open && readable()) { int r = lp->read_ready(req); if (r < 0) { finish_server(); break; } if (++n > 10000) fail("it is told that there is data and does not read it"); } drain(); return open; }
  void drain() { char b[20000]; ssize_t n; while (!bye && !cut) { n = gnutls_record_recv(cs, b, sizeof b); if (n > 0) out.append(b, n); else if (n == 0) bye = true; else if (n == GNUTLS_E_AGAIN) break; else if (n == GNUTLS_E_INTERRUPTED || n == GNUTLS_E_REHANDSHAKE) continue; else cut = true; } }
  void hangup(bool polite) { if (cfd < 0) return; if (polite && hs) gnutls_bye(cs, GNUTLS_SHUT_WR); shutdown(cfd, SHUT_RDWR); pump(); if (open) fail("the client left and the server does not notice"); done(); }
  void done() { if (req) finish_server(); if (cs) gnutls_deinit(cs); cs = nullptr; if (cfd >= 0) ::close(cfd); cfd = -1; }
  ~TLS() { done(); }
};
static string same(const string &wire) { seen.clear(); Conn c(*plain); c.feed(wire); string r = c.out + (c.open ? "[open]" : "[closed]"); for (auto &s : seen) r += "\n" + s; c.close(); return r; }
static string result(TLS &t) { string r = t.out + (t.open ? "[open]" : "[closed]"); for (auto &s : seen) r += "\n" + s; return r; }
static void cmp(TLS &t, const string &want) { string got = result(t); if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; fail("over HTTPS it is different at %zu: %s instead of %s", i, esc(got.substr(i, 200)).c_str(), esc(want.substr(i, 200)).c_str()); } if (!t.open && !t.bye) fail("the connection was closed without saying so in TLS: the client can not know that it is complete"); }
struct Bal { int fds = mc::open_fds(); size_t mem = mc::live_bytes(); };
static void balance(const Bal &b, std::function<void()> again) { tmp_reset(); if (mc::open_fds() != b.fds) fail("%d descriptors left", mc::open_fds() - b.fds); if (mc::live_bytes() > b.mem) { size_t x[4]; for (int i = 0; i < 4; i++) { x[i] = mc::live_bytes(); again(); tmp_reset(); } if (x[1] > x[0] && x[2] > x[1] && x[3] > x[2]) fail("%zu bytes left each time", x[3] - x[2]); } }
// ---- every message, in one record or cut in two, three or equal ones
static void records() {
  int prio = choose(2), mi = choose(ms.size()); mc::shard(); const Msg &m = ms[mi]; const string &w = m.wire; size_t n = w.size(); answer_n = 0; how_answer = 1; string want = same(w); TLS t; t.connect(prio);
  auto go = [&](const vector<string> &pieces, bool pumped) { if (!t.open) { t.done(); t.~TLS(); new (&t) TLS; if (!t.connect(prio)) fail("the handshake fails"); } seen.clear(); t.out.clear(); for (auto &p : pieces) { if (!t.open) break; t.record(p); if (pumped) t.pump(); } t.pump(); cmp(t, want); mc::state(mc::hash(w.data(), n, pieces.size() * 31 + pumped)); if (t.open && !m.ok) { t.hangup(true); } };
  if (!t.hs) fail("the handshake fails"); mc::note("%s %s", PRIO[prio], m.name.c_str());
  go({w}, true); std::set<size_t> cuts; for (size_t i = 1; i < n; i++) if (n < 400 || i < 150 || n - i < 40 || i % 1500 < 3 || i % 1500 > 1497) cuts.insert(i);
  for (size_t i : cuts) for (int p = 0; p < 2; p++) { mc::note("cut at %zu, %s", i, p ? "one by one" : "together"); go({w.substr(0, i), w.substr(i)}, p); }
  for (size_t k : {1, 7, 100, 1499, 1500, 1501}) { if (n / k > 400) continue; for (int p = 0; p < 2; p++) { mc::note("pieces of %zu, %s", k, p ? "one by one" : "together"); vector<string> v; for (size_t i = 0; i < n; i += k) v.push_back(w.substr(i, k)); go(v, p); } }
  if (t.open) t.hangup(mi % 2); mc::outcome(m.name);
}
// ---- every size of body in one record around the buffers
static void bodies() {
  static const int C[] = {0, 1500, 3000, 4500, 6000, 9000, 15000, 16384, 32768}; int prio = choose(2), c = choose(9), kind = choose(2); mc::shard(); answer_n = 0; how_answer = 1; TLS t; if (!t.connect(prio)) fail("the handshake fails");
  for (int d = -130; d <= 20; d++) { int n = C[c] + d; if (n < 0) continue; string b; for (int i = 0; i < n; i++) b += "abcdefghij"[i * 3 % 10]; string w = kind ? "PUT /f HTTP/1.1\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n" + b : "POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n" + (n ? "a=" + b : "").substr(0, n); mc::note("body of %d bytes", n); string want = same(w); seen.clear(); t.out.clear(); t.record(w); t.pump(); cmp(t, want); tmp_reset(); if (!t.open) fail("closed"); mc::state(n * 2 + kind); }
  t.hangup(true); mc::outcome(mc::strf("%d %d", c, kind));
}
// ---- every size of answer around the records
static void answers() {
  static const int C[] = {1, 1500, 16384, 16384 * 2, 16384 * 3, 65536, 100000}; int prio = choose(2), c = choose(7); how_answer = choose(4); mc::shard(); TLS t;
  for (int d = -40; d <= 40; d += mc::thorough() || c < 3 ? 1 : 3) { int n = C[c] + d; if (n <= 0) continue; answer_n = n; mc::note("answer of %d bytes, kind %d", n, how_answer); string w = "GET / HTTP/1.1\r\n\r\n", want = same(w); if (!t.open) { t.~TLS(); new (&t) TLS; if (!t.connect(prio)) fail("the handshake fails"); } seen.clear(); t.out.clear(); t.record(w); t.pump(); cmp(t, want); mc::state(n * 4 + how_answer); }
  if (t.open) t.hangup(false); answer_n = 0; mc::outcome(mc::strf("%d %d", c, how_answer));
}
// ---- clients that leave or send anything else during the handshake
static long hello_size[2];
static void handshake_once(int prio, long k, int how, unsigned char mask) {
  seen.clear(); TLS t; if (how == 0) { t.limit = k; t.after = 0; } else { t.flip = k; t.mask = mask; } bool ok = t.connect(prio); if (t.open) { t.record("GET / HTTP/1.1\r\n\r\n"); t.pump(); }
  if (how == 0 && t.sent > k && !seen.empty()) fail("half a handshake and a request"); if (!ok && !seen.empty()) fail("a request without handshake"); t.hangup(false);
}
static void measure(int prio) { TLS t; if (!t.connect(prio)) fail("the handshake fails"); hello_size[prio] = t.sent; t.hangup(true); }
static void broken_handshake() {
  int prio = choose(2), how = choose(mc::thorough() ? 4 : 2) * (mc::thorough() ? 1 : 2), part = choose(16); mc::shard(); answer_n = 0; how_answer = 1; measure(prio); static const unsigned char M[] = {0, 1, 0x80, 0xff};
  for (long k = part; k < hello_size[prio]; k += 16) { mc::note("%s: %s at %ld of %ld", PRIO[prio], how ? mc::strf("changed by %02x", M[how]).c_str() : "left", k, hello_size[prio]); Bal b; handshake_once(prio, k, how, M[how]); balance(b, [&] { handshake_once(prio, k, how, M[how]); }); mc::state(k * 8 + prio * 4 + how); }
  mc::outcome(mc::strf("%d %d", prio, how));
}
// ---- something that is not TLS
static void raw_once(const string &d) { seen.clear(); int sp[2]; (void)!socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp); (void)!::send(sp[0], d.data(), d.size(), MSG_NOSIGNAL); shutdown(sp[0], SHUT_WR); next_fd = sp[1]; onion_request *r = onion_request_new(lp); if (r) { if (r->connection.fd >= 0) fail("accepted without handshake"); onion_request_free(r); } ::close(sp[0]); if (!seen.empty()) fail("a request without TLS"); }
static void not_tls() {
  int a = choose(256); mc::shard(); static const char *W[] = {"", "\x03\x01", "\x03\x03\x00\x05", "\x03\x03\xff\xff", "GET / HTTP/1.1\r\n\r\n", "\x03\x01\x00\x02\x01\x00"}; static const int L[] = {0, 2, 4, 4, 18, 6};
  for (int i = 0; i < 6; i++) { string d = string(1, a) + string(W[i], L[i]); mc::note("%s", esc(d).c_str()); Bal b; raw_once(d); balance(b, [&] { raw_once(d); }); mc::state(a * 8 + i); }
  if (a == 0) { mc::note("accept fails"); Bal b; auto f = [] { accept_fails = 1; onion_request *r = onion_request_new(lp); if (r) onion_request_free(r); accept_fails = 0; }; f(); balance(b, f); string d = "GET / HTTP/1.1\r\n\r\n"; raw_once(d); } mc::outcome(std::to_string(a));
}
// ---- cipher text cut or changed at each byte after the handshake
static string same_cut(const string &w) { vector<string> had = seen; string r = same(w); seen = had; size_t p = r.find("[open]"); if (p != string::npos) r.replace(p, 6, "[closed]"); return r; }
static void cipher_once(int prio, const string &w, long k, int how) {
  seen.clear(); TLS t; if (!t.connect(prio)) fail("the handshake fails"); t.tapping = true; t.record(w); t.tapping = false; string c = t.tap; if (how == 0) c.resize(k); else c[k] ^= how == 1 ? 1 : 0x80; (void)!::send(t.cfd, c.data(), c.size(), MSG_NOSIGNAL); shutdown(t.cfd, SHUT_WR); t.pump(); bool head = how && k < 5; // the five bytes before a record are not all of them part of what is signed
  if (!seen.empty() && !(head && seen.size() == 1 && result(t) == same_cut(w))) fail("a request was made of %s", how ? "changed data" : "half the data"); if (t.open) fail("it is still open"); t.done();
}
static void cipher() {
  int prio = choose(2), how = choose(3), wi = choose(2), part = choose(8); mc::shard(); string w = wi ? "POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 5\r\n\r\na=bcd" : "GET / HTTP/1.1\r\n\r\n"; long n; { TLS t; if (!t.connect(prio)) fail("the handshake fails"); t.tapping = true; t.record(w); t.tapping = false; n = t.tap.size(); }
  for (long k = part; k < n; k += 8) { mc::note("%s: %s at %ld of %ld", PRIO[prio], how == 0 ? "cut" : "changed", k, n); Bal b; cipher_once(prio, w, k, how); balance(b, [&] { cipher_once(prio, w, k, how); }); mc::state(k * 16 + prio * 8 + how * 2 + wi); } mc::outcome(mc::strf("%d %d %d", prio, how, wi));
}
// ---- a client that stops in the middle of the handshake and waits does not hold the server for longer than the timeout
static void silent() {
  int prio = choose(2), part = choose(mc::thorough() ? 64 : 32); mc::shard(); measure(prio); onion_set_timeout(tls_o, 60); long n = hello_size[prio]; 
  for (long k = part * 4; k < n; k += mc::thorough() ? 64 * 4 : 32 * 4) { mc::note("%s: silent after %ld of %ld bytes", PRIO[prio], k, n); seen.clear(); TLS t; t.limit = k; t.after = 1; t.dial(prio); struct timespec a, b; bool gave_up = false; clock_gettime(CLOCK_MONOTONIC, &a); std::thread th([&] { struct timeval tv = {3, 0}; setsockopt(t.cfd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); int r; do r = gnutls_handshake(t.cs); while (r < 0 && r != GNUTLS_E_AGAIN && !gnutls_error_is_fatal(r)); gave_up = r == GNUTLS_E_AGAIN; shutdown(t.cfd, SHUT_RDWR); }); t.server_side(); clock_gettime(CLOCK_MONOTONIC, &b); th.join(); if (gave_up) fail("the server is held by a silent client"); if (t.open) t.finish_server(); mc::state(k * 2 + prio); (void)a; (void)b; }
  onion_set_timeout(tls_o, 5000); mc::outcome(mc::strf("%d %d", prio, part));
}
// ---- websockets over TLS: frames in every grouping into records
extern "C" int __real_poll(struct pollfd *, nfds_t, int); static bool in_call, stuck;
extern "C" int __wrap_poll(struct pollfd *f, nfds_t n, int t) { if (!in_call) return __real_poll(f, n, t); int r = __real_poll(f, n, 0); if (r == 0) { stuck = true; return 0; } return r; }
static vector<string> heard; static string held_back; static int held_fd;
static onion_connection_status on_ws(void *, onion_websocket *ws, ssize_t n) { if (n < 0) return OCS_CLOSE_CONNECTION; string d; while ((ssize_t)d.size() < n) { char b[5000]; ssize_t r = onion_websocket_read(ws, b, std::min<size_t>(sizeof b, n - d.size())); if (r <= 0) return OCS_CLOSE_CONNECTION; d.append(b, r); } heard.push_back(d); onion_websocket_write(ws, d.data(), d.size()); return OCS_NEED_MORE_DATA; }
static int ws_handler(void *, onion_request *q, onion_response *r) { onion_websocket *ws = onion_websocket_new(q, r); if (!ws) return OCS_INTERNAL_ERROR; onion_websocket_set_callback(ws, on_ws); in_call = true; (void)!::send(held_fd, held_back.data(), held_back.size(), MSG_NOSIGNAL); return OCS_WEBSOCKET; }
static void websockets() {
  static const int L[] = {1, 5, 300, 4000}; int prio = choose(2), nf = 1 + choose(mc::thorough() ? 4 : 3); vector<int> l; for (int i = 0; i < nf; i++) l.push_back(choose(4)); mc::shard(); onion_handler *old = tls_o->root_handler, *h = onion_handler_new((onion_handler_handler)ws_handler, nullptr, nullptr); vector<string> want; string all; std::set<size_t> edges;
  auto frame = [](int op, const string &d) { string o(1, 0x80 | op); if (d.size() < 126) o += (char)(0x80 | d.size()); else { o += (char)0xfe; o += (char)(d.size() >> 8); o += (char)d.size(); } o += string("\x12\x9a\xff\x01", 4); for (size_t i = 0; i < d.size(); i++) o += (char)(d[i] ^ "\x12\x9a\xff\x01"[i & 3]); return o; };
  for (int i = 0; i < nf; i++) { string d; for (int k = 0; k < L[l[i]]; k++) d += (char)('a' + (k * 7 + i) % 26); want.push_back(d); string f = frame(1, d); for (size_t e : {(size_t)1, (size_t)2, (size_t)6, f.size() / 2, f.size() - 1, f.size()}) edges.insert(all.size() + e); all += f; } all += frame(8, string("\x03\xe8", 2));
  vector<size_t> ev(edges.begin(), edges.end()); tls_o->root_handler = h;
  auto once = [&](const vector<size_t> &cuts) { string cs; for (auto x : cuts) cs += " " + std::to_string(x); mc::note("%s, frames of %zu bytes in all, records end at%s", PRIO[prio], all.size(), cs.c_str()); TLS t; if (!t.connect(prio)) fail("the handshake fails"); heard.clear(); stuck = false; t.record("GET /ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"); size_t p = 0; t.tapping = true; for (auto c : cuts) { t.record(all.substr(p, c - p)); p = c; } t.record(all.substr(p)); t.tapping = false;
    held_back = t.tap; held_fd = t.cfd; t.pump(); in_call = false; if (stuck) fail("the server waits and has %zu of %d messages", heard.size(), nf); if (heard != want) fail("%zu messages, and not those that were sent", heard.size()); t.drain(); string o = t.out.substr(std::min(t.out.size(), t.out.find("\r\n\r\n") + 4)), w; for (auto &d : want) { size_t p = 0; (void)p; w += (char)0x81; if (d.size() < 126) w += (char)d.size(); else { w += (char)126; w += (char)(d.size() >> 8); w += (char)d.size(); } w += d; } if (o.compare(0, w.size(), w)) fail("the echo is different"); if (t.open) fail("it is still open"); t.done(); mc::state(mc::hash(cs.data(), cs.size(), mc::hash(all.data(), all.size(), prio))); };
  once({}); for (size_t i = 0; i < ev.size(); i++) { once({ev[i]}); for (size_t j = i + 1; j < ev.size(); j++) once({ev[i], ev[j]}); } once(ev); tls_o->root_handler = old; onion_handler_free(h); mc::outcome(mc::strf("%d %zu", nf, all.size()));
}
// ---- certificates
static void certs() {
  static const char *N[] = {"cert", "key", "nothing there", "not a certificate", "empty"}; int a = choose(5), b = choose(5), type = choose(6), der = choose(2); mc::shard(); string junk = mc::scratch() + "/junk", empty = mc::scratch() + "/empty"; spit(junk, "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"); spit(empty, ""); string F[] = {certfile, keyfile, mc::scratch() + "/none", junk, empty}; static const int TY[] = {O_SSL_CERTIFICATE_KEY, O_SSL_CERTIFICATE_CRL, O_SSL_CERTIFICATE_TRUST, O_SSL_CERTIFICATE_PKCS12, 0, 77}; mc::note("type %d, %s, %s%s", TY[type], N[a], N[b], der ? ", der" : ""); Bal bal; 
  auto f = [&] { onion_listen_point *l = onion_https_new(); if (!l) fail("no https"); int r = onion_https_set_certificate(l, (onion_ssl_certificate_type)(TY[type] | (der ? O_SSL_DER : 0)), F[a].c_str(), F[b].c_str()); bool good = !der && ((type == 0 && a == 0 && b == 1) || (type == 2 && a == 0)); if (good ? r < 0 : type < 2 || type > 3 ? r >= 0 && !(type == 1 && a == 4) : (type == 2 ? (a == 2 && r > 0) : r >= 0)) fail("set certificate gives %d", r); onion_listen_point_free(l); onion_listen_point *h = onion_http_new(); if (onion_https_set_certificate(h, O_SSL_CERTIFICATE_KEY, certfile.c_str(), keyfile.c_str()) >= 0) fail("a certificate for plain HTTP"); onion_listen_point_free(h); };
  f(); if (a != 3 && b != 3) balance(bal, f); /* GnuTLS itself leaks for certificates it can not read */ mc::outcome(mc::strf("%d %d %d %d", type, a, b, der));
}
int main(int c, char **v) {
  mc::rule("Messages of the corpus in every cut into TLS records, sizes of bodies and answers around every buffer, each byte of the handshake and of the cipher text cut or changed, every first byte of something else, every combination of certificate files; two protocol versions. Compared with the same bytes over plain HTTP. Distinct: messages x cuts, sizes, positions.");
  mc::assume("GnuTLS is right. The poller is modelled as: a call to read_ready whenever the socket is readable."); mc::assume("Only records that arrive whole: the server waits (at most the timeout) for the rest of a record.");
  mc::add("records", records, true, init); mc::add("bodies", bodies, true, init); mc::add("answers", answers, true, init); mc::add("broken handshake", broken_handshake, true, init); mc::add("not TLS", not_tls, true, init); mc::add("broken records", cipher, true, init); mc::add("silent clients", silent, true, init); mc::add("websockets", websockets, true, init); mc::add("certificates", certs, true, init);
  return mc::main(c, v);
}
