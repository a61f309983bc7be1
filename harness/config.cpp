// P35: the server is what it was configured to be, in whatever order
#include "onh.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <signal.h>
#include <poll.h>
#include <pwd.h>
#include <grp.h>
#include <sys/syscall.h>
#include <thread>
#include <mutex>
#include <atomic>
extern "C" {
#include "onion/https.h"
#include "onion/sessions_mem.h"
}
using namespace onh; using mc::choose;
// ---- what is asked to the system is written down; the ports are others, so that they are always free; nobody changes of user
static std::mutex mu; static vector<string> calls; static std::map<int, int> fault; static bool child; static int out;
static void bad(const char *f, ...) { char t[900]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); if (child) { if (write(out, t, strlen(t))) {} _exit(1); } fail("%s", t); }
static void rec(const string &s) { std::lock_guard<std::mutex> l(mu); calls.push_back(s); }
static vector<int> bound; static uid_t me_u = 0, me_e = 0; static gid_t me_g = 0; static string failing; static bool groups_done;
extern "C" int __real_bind(int, const struct sockaddr *, socklen_t); extern "C" int __real_accept4(int, struct sockaddr *, socklen_t *, int);
extern "C" int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) { char h[64] = "any"; int port = 0; struct sockaddr_storage s; memcpy(&s, a, l); if (a->sa_family == AF_INET) { auto *i = (struct sockaddr_in *)&s; port = ntohs(i->sin_port); if (i->sin_addr.s_addr) inet_ntop(AF_INET, &i->sin_addr, h, sizeof h); i->sin_port = 0; } else { auto *i = (struct sockaddr_in6 *)&s; port = ntohs(i->sin6_port); if (memcmp(&i->sin6_addr, &in6addr_any, 16)) inet_ntop(AF_INET6, &i->sin6_addr, h, sizeof h); i->sin6_port = 0; } if (failing == "bind") { errno = EADDRINUSE; return -1; } rec(mc::strf("bind %s:%d", h, port)); bound.push_back(fd); return __real_bind(fd, (struct sockaddr *)&s, l); }
extern "C" int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { int r = __real_accept4(fd, a, l, f); if (r >= 0) rec("accept"); return r; }
extern "C" int __wrap_gnutls_dh_params_generate2(gnutls_dh_params_t p, unsigned) { return gnutls_dh_params_import_raw(p, &gnutls_ffdhe_2048_group_prime, &gnutls_ffdhe_2048_group_generator); }
static struct passwd PW[2]; static bool user_of(const char *n, struct passwd *p) { int k = !strcmp(n, "alice") ? 0 : !strcmp(n, "bob") ? 1 : -1; if (k < 0) return false; static char none[] = "", sl[] = "/"; memset(p, 0, sizeof *p); p->pw_name = (char *)(k ? "bob" : "alice"); p->pw_passwd = none; p->pw_gecos = none; p->pw_dir = sl; p->pw_shell = none; p->pw_uid = 3001 + k; p->pw_gid = 4001 + k; return true; }
extern "C" struct passwd *__wrap_getpwnam(const char *n) { static struct passwd p; if (failing == "getpwnam") { errno = EIO; return nullptr; } if (user_of(n, &p)) return &p; errno = 0; return nullptr; }
extern "C" int __wrap_getpwnam_r(const char *n, struct passwd *p, char *, size_t, struct passwd **r) { *r = nullptr; if (failing == "getpwnam") return EIO; if (user_of(n, p)) *r = p; return 0; }
static int drop(const char *what, const string &call, bool root = true) { if (failing == what || (root && me_e != 0)) { errno = EPERM; return -1; } rec(call); return 0; }
extern "C" int __wrap_initgroups(const char *n, gid_t g) { return drop("initgroups", mc::strf("groups %s %d", n, (int)g)); }
extern "C" int __wrap_setgroups(size_t n, const gid_t *g) { return drop("initgroups", mc::strf("groups %zu %d", n, n ? (int)g[0] : -1)); }
static int setg(gid_t g) { int r = drop("setgid", mc::strf("gid %d", (int)g), g != me_g); if (!r) me_g = g; return r; } static int setu(uid_t u) { int r = drop("setuid", mc::strf("uid %d", (int)u), u != me_u); if (!r) me_u = me_e = u; return r; }
extern "C" int __wrap_setgid(gid_t g) { return setg(g); } extern "C" int __wrap_setregid(gid_t, gid_t g) { return setg(g); } extern "C" int __wrap_setresgid(gid_t, gid_t g, gid_t) { return setg(g); }
extern "C" int __wrap_setuid(uid_t u) { return setu(u); } extern "C" int __wrap_setreuid(uid_t, uid_t u) { return setu(u); } extern "C" int __wrap_setresuid(uid_t, uid_t u, uid_t) { return setu(u); }
extern "C" int __wrap_seteuid(uid_t u) { rec(mc::strf("euid %d", (int)u)); me_e = u; return 0; } extern "C" int __wrap_setegid(gid_t g) { rec(mc::strf("egid %d", (int)g)); return 0; }
extern "C" uid_t __wrap_getuid() { return me_u; } extern "C" uid_t __wrap_geteuid() { return me_e; } extern "C" gid_t __wrap_getgid() { return me_g; } extern "C" gid_t __wrap_getegid() { return me_g; }
static int systemd_n; extern "C" int __wrap_sd_listen_fds(int) { return systemd_n; }
static void fresh() { calls.clear(); bound.clear(); me_u = me_e = me_g = 0; failing.clear(); }
// ---- a certificate and clients
static string certfile, keyfile; static gnutls_certificate_credentials_t cc;
static void make_cert() {
  gnutls_x509_privkey_t k; gnutls_x509_crt_t c; gnutls_x509_privkey_init(&k); gnutls_x509_privkey_generate(k, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0); gnutls_x509_crt_init(&c); gnutls_x509_crt_set_version(c, 3); unsigned char ser = 1; gnutls_x509_crt_set_serial(c, &ser, 1); gnutls_x509_crt_set_activation_time(c, 1600000000); gnutls_x509_crt_set_expiration_time(c, 4000000000u); gnutls_x509_crt_set_dn(c, "CN=localhost", nullptr); gnutls_x509_crt_set_key(c, k); gnutls_x509_crt_set_key_usage(c, GNUTLS_KEY_DIGITAL_SIGNATURE); if (gnutls_x509_crt_sign2(c, c, k, GNUTLS_DIG_SHA256, 0)) fail("cannot sign");
  auto save = [&](const string &f, const gnutls_datum_t &d) { spit(f, string((char *)d.data, d.size)); gnutls_free(d.data); }; gnutls_datum_t d; certfile = mc::scratch() + "/cert.pem"; keyfile = mc::scratch() + "/key.pem"; gnutls_x509_crt_export2(c, GNUTLS_X509_FMT_PEM, &d); save(certfile, d); gnutls_x509_privkey_export2(k, GNUTLS_X509_FMT_PEM, &d); save(keyfile, d); gnutls_x509_crt_deinit(c); gnutls_x509_privkey_deinit(k);
}
static void init() { if (cc) return; gnutls_global_init(); make_cert(); gnutls_certificate_allocate_credentials(&cc); onion_log = nolog; signal(SIGPIPE, SIG_IGN); }
static int dial(int listenfd, const char *from = nullptr) {
  struct sockaddr_storage s; socklen_t l = sizeof s; if (getsockname(listenfd, (struct sockaddr *)&s, &l)) bad("the port is not open"); int port = s.ss_family == AF_INET ? ntohs(((sockaddr_in *)&s)->sin_port) : ntohs(((sockaddr_in6 *)&s)->sin6_port); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (s.ss_family == AF_INET && ((sockaddr_in *)&s)->sin_addr.s_addr) a.sin_addr = ((sockaddr_in *)&s)->sin_addr;
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (from) { sockaddr_in b; memset(&b, 0, sizeof b); b.sin_family = AF_INET; inet_pton(AF_INET, from, &b.sin_addr); if (__real_bind(fd, (sockaddr *)&b, sizeof b)) bad("can not be client %s", from); } struct timeval t = {20, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); if (connect(fd, (sockaddr *)&a, sizeof a)) bad("can not connect: %s", strerror(errno)); return fd;
}
static string plain_get(int fd, const string &q = "GET / HTTP/1.0\r\n\r\n") { if (send(fd, q.data(), q.size(), MSG_NOSIGNAL) < 0) return "?"; string r; char b[4096]; ssize_t n; while ((n = recv(fd, b, sizeof b, 0)) > 0) r.append(b, n); close(fd); return n < 0 ? r + "(nothing more comes)" : r; }
static string tls_get(int fd) { gnutls_session_t s; gnutls_init(&s, GNUTLS_CLIENT); gnutls_set_default_priority(s); gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cc); gnutls_transport_set_int(s, fd); gnutls_handshake_set_timeout(s, 20000); int r; do r = gnutls_handshake(s); while (r < 0 && !gnutls_error_is_fatal(r)); string o; if (r < 0) o = string("handshake: ") + gnutls_strerror(r); else { gnutls_record_send(s, "GET / HTTP/1.0\r\n\r\n", 18); char b[4096]; ssize_t n; while ((n = gnutls_record_recv(s, b, sizeof b)) > 0) o.append(b, n); } gnutls_deinit(s); close(fd); return o; }
static onion *srv; static int on_request(void *p, onion_request *q, onion_response *r) { onion_response_printf(r, "secure %d data %p client %s", (int)onion_request_is_secure(q), onion_client_data(*(onion **)p), onion_request_get_client_description(q)); return OCS_PROCESSED; }
// ---- all orders of configuration
struct LP { bool https; int cert; string host, port; string bind() const { return "bind " + (host.empty() ? string("any") : host) + ":" + (port.empty() ? "8080" : port); } };
static int freed[3]; static void free_a(void *p) { freed[*(int *)p]++; } static void free_b(void *p) { freed[*(int *)p]++; } static int DATA[3] = {0, 1, 2};
static int errors; static int own_error(void *, onion_request *, onion_response *r) { errors++; onion_response_set_code(r, 418); onion_response_write0(r, "own error"); return OCS_PROCESSED; } static int not_here(void *, onion_request *, onion_response *) { return OCS_NOT_PROCESSED; }
static const char *NAME[] = {"port 1111", "port 2222", "host .1", "host .2", "add http", "add https", "certificate", "bad certificate", "data A", "data B", "data C", "no data", "user alice", "user bob", "errors", "sessions"}; static const int NOPS = 16;
struct Model { vector<LP> lps; int data = -1, user = -1; bool err = false; int frees[3] = {0, 0, 0}; };
static void drop_data(Model &m) { if (m.data == 0 || m.data == 1) m.frees[m.data]++; m.data = -1; }
static void apply(onion *o, Model &m, int op, const string &prog) {
  auto first = [&]() -> LP & { if (m.lps.empty()) m.lps.push_back({false, 0, "", ""}); return m.lps[0]; };
  switch (op) {
  case 0: case 1: { char t[8]; strcpy(t, op ? "2222" : "1111"); onion_set_port(o, t); first().port = t; memset(t, 'x', 7); break; }
  case 2: case 3: { char t[16]; strcpy(t, op == 2 ? "127.0.0.1" : "127.0.0.2"); onion_set_hostname(o, t); first().host = t; memset(t, 'x', 15); break; }
  case 4: onion_add_listen_point(o, "127.0.0.3", "3333", onion_http_new()); m.lps.push_back({false, 0, "127.0.0.3", "3333"}); break;
  case 5: { onion_listen_point *l = onion_https_new(); if (onion_https_set_certificate(l, O_SSL_CERTIFICATE_KEY, certfile.c_str(), keyfile.c_str()) < 0) fail("the certificate is not accepted"); onion_add_listen_point(o, "127.0.0.4", "4444", l); m.lps.push_back({true, 1, "127.0.0.4", "4444"}); break; }
  case 6: { if (m.lps.empty()) m.lps.push_back({true, 0, "", ""}); m.lps[0].https = true; if (m.lps[0].cert == 0) m.lps[0].cert = 1; int r = onion_set_certificate(o, O_SSL_CERTIFICATE_KEY, certfile.c_str(), keyfile.c_str()); if (r < 0) fail("after%s: the certificate is not accepted", prog.c_str()); break; }
  case 7: { if (m.lps.empty()) m.lps.push_back({true, 0, "", ""}); m.lps[0].https = true; m.lps[0].cert = 2; int r = onion_set_certificate(o, O_SSL_CERTIFICATE_KEY, "/nonexistent/cert", "/nonexistent/key"); if (r >= 0) fail("after%s: a certificate that does not exist is accepted", prog.c_str()); break; }
  case 8: drop_data(m); onion_set_client_data(o, &DATA[0], free_a); m.data = 0; break; case 9: drop_data(m); onion_set_client_data(o, &DATA[1], free_b); m.data = 1; break; case 10: drop_data(m); onion_set_client_data(o, &DATA[2], nullptr); m.data = 2; break; case 11: drop_data(m); onion_set_client_data(o, nullptr, free_a); break;
  case 12: case 13: onion_set_user(o, op == 12 ? "alice" : "bob"); m.user = op - 12; break;
  case 14: onion_set_internal_error_handler(o, onion_handler_new((onion_handler_handler)own_error, nullptr, nullptr)); m.err = true; break; case 15: onion_set_session_backend(o, onion_sessions_mem_new()); break;
  }
  size_t n = 0; while (onion_get_listen_point(o, n)) n++; if (n != m.lps.size()) fail("after%s: %zu listen points instead of %zu", prog.c_str(), n, m.lps.size());
  for (size_t i = 0; i < n; i++) { onion_listen_point *l = onion_get_listen_point(o, i); string h = l->hostname ? l->hostname : "", p = l->port ? l->port : ""; if (h != m.lps[i].host || p != m.lps[i].port) fail("after%s: listen point %zu is %s:%s", prog.c_str(), i, h.c_str(), p.c_str()); if (l->server != o) fail("after%s: the server of listen point %zu is another", prog.c_str(), i); if (!!l->secure != m.lps[i].https) fail("after%s: listen point %zu is%s secure", prog.c_str(), i, l->secure ? "" : " not"); }
  if (onion_client_data(o) != (m.data < 0 ? nullptr : (void *)&DATA[m.data])) fail("after%s: the client data is another", prog.c_str()); for (int i = 0; i < 3; i++) if (freed[i] != m.frees[i]) fail("after%s: client data %d freed %d times instead of %d", prog.c_str(), i, freed[i], m.frees[i]);
}
static void program(const vector<int> &ops, bool serve) {
  string d; for (int o : ops) d += string(" [") + NAME[o] + "]"; mc::note("%s", d.c_str()); fresh(); memset(freed, 0, sizeof freed); errors = 0; onion *o = onion_new(O_POLL | O_DETACH_LISTEN | O_NO_SIGTERM | O_NO_SIGPIPE); srv = o; onion_set_root_handler(o, onion_handler_new((onion_handler_handler)on_request, &srv, nullptr)); Model m; string sofar; for (int op : ops) { sofar += string(" [") + NAME[op] + "]"; apply(o, m, op, sofar); }
  if (serve) {
    if (m.err) { onion_handler_free(onion_get_root_handler(o)); onion_set_root_handler(o, onion_handler_new((onion_handler_handler)not_here, nullptr, nullptr)); }
    int r = onion_listen(o); if (r) fail("after%s: it does not listen (%d)", d.c_str(), r); if (m.lps.empty()) m.lps.push_back({false, 0, "", ""}); size_t k = 0; vector<string> c; { std::lock_guard<std::mutex> l(mu); c = calls; } for (auto &x : m.lps) { if (k >= c.size() || c[k] != x.bind()) fail("after%s: opens '%s' instead of '%s'", d.c_str(), k < c.size() ? c[k].c_str() : "-", x.bind().c_str()); k++; }
    string want = m.user < 0 ? "" : mc::strf("groups %s %d|gid %d|uid %d|", m.user ? "bob" : "alice", 4001 + m.user, 4001 + m.user, 3001 + m.user), got; for (; k < c.size(); k++) got += c[k] + "|"; if (got != want) fail("after%s: when the ports are open it does '%s' instead of '%s'", d.c_str(), got.c_str(), want.c_str());
    for (size_t i = 0; i < m.lps.size(); i++) { if (m.lps[i].cert == 2) continue; int fd = dial(bound[i]); string a = m.lps[i].https ? tls_get(fd) : plain_get(fd); if (m.err) { if (a.find(" 418 ") == string::npos || a.find("own error") == string::npos) fail("after%s: listen point %zu answers '%s' and not the error", d.c_str(), i, esc(a).c_str()); continue; } string w = mc::strf("secure %d data %p client 127.0.0.1", (int)m.lps[i].https, m.data < 0 ? nullptr : (void *)&DATA[m.data]); size_t p = a.find("\r\n\r\n"); if (a.compare(0, 12, "HTTP/1.0 200") || p == string::npos || a.substr(p + 4, w.size()) != w) { string host = m.lps[i].host; fail("after%s: listen point %zu answers '%s' instead of '%s'", d.c_str(), i, esc(a).c_str(), w.c_str()); } }
    onion_listen_stop(o);
  }
  onion_free(o); drop_data(m); for (int i = 0; i < 3; i++) if (freed[i] != m.frees[i]) fail("after%s: client data %d freed %d times at the end instead of %d", d.c_str(), i, freed[i], m.frees[i]); mc::state(mc::hash(d.data(), d.size(), serve));
}
static vector<int> rest(long x, int n, vector<int> first) { for (int i = 0; i < n; i++, x /= NOPS) first.push_back(x % NOPS); return first; }
static void orders() { int n = mc::thorough() ? 5 : 4; int a = choose(NOPS), b = choose(NOPS); mc::shard(); long all = 1; for (int i = 2; i < n; i++) all *= NOPS; for (long x = 0; x < all; x++) program(rest(x, n - 2, {a, b}), false); mc::outcome(mc::strf("%d %d", a, b)); }
static void served() { int n = mc::thorough() ? 4 : 3; int len = choose(n + 1); int a = len ? choose(NOPS) : 0; mc::shard(); if (!len) { program({}, true); mc::outcome("-"); return; } long all = 1; for (int i = 1; i < len; i++) all *= NOPS; for (long x = 0; x < all; x++) program(rest(x, len - 1, {a}), true); mc::outcome(mc::strf("%d %d", len, a)); }
static void nothing_left() { int a = choose(NOPS), b = choose(NOPS); mc::shard(); for (int c = 0; c < NOPS; c++) { vector<int> p = {a, b, c}; size_t live = 0; int fds = 0; bool badcert = a == 7 || b == 7 || c == 7; for (int r = 0; r < 3; r++) { program(p, false); if (r == 1) { live = mc::live_bytes(); fds = mc::open_fds(); } } if (mc::open_fds() != fds) fail("descriptors are left"); size_t now = mc::live_bytes(); if (now > live && !badcert) fail("[%s] [%s] [%s]: %zu bytes are left", NAME[a], NAME[b], NAME[c], now - live); } mc::outcome(mc::strf("%d %d", a, b)); }
// ---- priviledges
static void users() {
  static const int MODE[] = {O_ONE, O_ONE_LOOP, O_POLL, O_POOL, O_POLL | O_DETACH_LISTEN, O_POOL | O_DETACH_LISTEN}; static const char *FAIL[] = {"", "getpwnam", "initgroups", "setgid", "setuid", "bind"}; int mode = choose(6), ports = 1 + choose(3), user = choose(4), fl = choose(6), rounds = 1 + choose(2); mc::shard(); string d = mc::strf("mode %d, %d ports, user %d, failing %s, %d times", mode, ports, user, FAIL[fl], rounds); mc::note("%s", d.c_str());
  fresh(); if (user == 3) { me_u = me_e = 3001; me_g = 4001; } int fds = mc::open_fds(); onion *o = onion_new(MODE[mode] | O_NO_SIGTERM | O_NO_SIGPIPE); srv = o; onion_set_root_handler(o, onion_handler_new((onion_handler_handler)on_request, &srv, nullptr)); onion_set_hostname(o, "127.0.0.1"); onion_set_port(o, "80"); for (int i = 1; i < ports; i++) onion_add_listen_point(o, "127.0.0.1", mc::strf("%d", 80 + i).c_str(), onion_http_new()); if (user == 1 || user == 3) onion_set_user(o, "alice"); if (user == 2) onion_set_user(o, "nobody at all"); onion_set_max_threads(o, 2);
  failing = FAIL[fl]; bool already = user == 3, shall_fail = fl == 5 || user == 2 || (user == 1 && fl >= 1) || (user == 3 && fl == 1);
  for (int round = 0; round < rounds; round++) {
    if (round && !shall_fail && user == 1) already = true; { std::lock_guard<std::mutex> l(mu); calls.clear(); bound.clear(); }
    std::atomic<int> ret{-99}; bool detach = MODE[mode] & O_DETACH_LISTEN; std::thread th; if (detach) ret = onion_listen(o); else th = std::thread([&] { ret = onion_listen(o); });
    if (shall_fail) { if (th.joinable()) { for (int i = 0; i < 2000 && ret == -99; i++) usleep(i < 100 ? 100 : 10000); if (ret == -99) fail("%s: it listens", d.c_str()); th.join(); } if (!ret) fail("%s: it listens although it can not be that user", d.c_str()); vector<string> c; { std::lock_guard<std::mutex> l(mu); c = calls; } for (auto &x : c) if (x == "accept") fail("%s: a client is accepted", d.c_str()); if (onion_flags(o) & O_LISTENING) fail("%s: it says that it listens", d.c_str()); if (fl != 5) for (int i = 0; i < ports; i++) if (onion_get_listen_point(o, i)->listenfd >= 0) fail("%s: the ports are still open", d.c_str()); if (!already && user == 1 && fl == 2) for (auto &x : c) if (x.compare(0, 3, "uid") == 0) fail("%s: it changes of user with the groups of before", d.c_str()); continue; }
    auto ready = [&] { std::lock_guard<std::mutex> l(mu); return (int)bound.size() == ports; }; for (int i = 0; !ready(); i++) { if (i > 4000) fail("%s: the ports are not opened", d.c_str()); usleep(i < 100 ? 100 : 5000); if (ret != -99 && !detach && !ready()) fail("%s: it does not listen (%d)", d.c_str(), (int)ret); }
    auto opened = [&] { std::lock_guard<std::mutex> l(mu); vector<string> c = calls; return !(user == 1 && !already) || (c.size() && c.back().compare(0, 3, "uid") == 0) || std::count(c.begin(), c.end(), "accept"); }; (void)opened; int nl = mode < 2 ? 1 : ports; if (mode == 0 && round) {}
    for (int i = 0; i < nl; i++) { string a; for (int t = 0;; t++) { int fd; { std::lock_guard<std::mutex> l(mu); fd = bound[i]; } struct sockaddr_storage s; socklen_t sl = sizeof s; int v = 0; sl = sizeof v; if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &sl) == 0 && v) { a = plain_get(dial(fd)); break; } if (t > 2000) fail("%s: port %d is not open", d.c_str(), i); usleep(1000); } if (a.find("secure 0") == string::npos) fail("%s: port %d answers '%s'", d.c_str(), i, esc(a).c_str()); if (mode == 0) break; }
    if (mode != 0) { for (int i = 0; i < 2000 && !(onion_flags(o) & O_LISTENING); i++) usleep(1000); onion_listen_stop(o); } if (th.joinable()) { th.join(); if (ret) fail("%s: listen returns %d", d.c_str(), (int)ret); } else if (ret) fail("%s: listen returns %d", d.c_str(), (int)ret);
    if (mode == 0) for (int i = 0; i < ports; i++) onion_listen_point_listen_stop(onion_get_listen_point(o, i));
    vector<string> c; { std::lock_guard<std::mutex> l(mu); c = calls; } string got, want; for (auto &x : c) if (x != "accept" || got.size() < 7 || got.compare(got.size() - 7, 7, "accept|")) got += x + "|"; for (int i = 0; i < ports; i++) want += mc::strf("bind 127.0.0.1:%d|", 80 + i); if (user == 1 && !already) want += "groups alice 4001|gid 4001|uid 3001|"; want += "accept|"; if (got != want) fail("%s: it does '%s' instead of '%s'", d.c_str(), got.c_str(), want.c_str());
  }
  onion_free(o); if (mc::open_fds() != fds) fail("%s: descriptors are left", d.c_str()); mc::outcome(d);
}
// ---- who the client is
static void clients() {
  static const char *FROM[] = {"127.0.0.1", "127.0.0.5", "127.1.2.3"}; int f = choose(3), reqs = 1 + choose(3), early = choose(2); mc::shard(); mc::note("client %s, %d requests, asked %s", FROM[f], reqs, early ? "in all" : "in the last one"); fresh(); onion *o = onion_new(O_POLL | O_DETACH_LISTEN | O_NO_SIGTERM | O_NO_SIGPIPE); static int n; static bool all; static int total; n = 0; all = early; total = reqs; onion_set_hostname(o, "127.0.0.1"); 
  onion_set_root_handler(o, onion_handler_new((onion_handler_handler)+[](void *, onion_request *q, onion_response *r) -> int { n++; if (!all && n < total) { onion_response_write0(r, "x"); return OCS_PROCESSED; } socklen_t l = 0; struct sockaddr_storage *s = onion_request_get_sockadd_storage(q, &l); char h[64] = "?"; if (s && l >= sizeof(sockaddr_in) && s->ss_family == AF_INET) inet_ntop(AF_INET, &((sockaddr_in *)s)->sin_addr, h, sizeof h); const char *a = onion_request_get_client_description(q), *b = onion_request_get_client_description(q); onion_response_printf(r, "[%s %s %s]", a ? a : "(none)", b ? b : "(none)", h); return OCS_PROCESSED; }, nullptr, nullptr));
  if (onion_listen(o)) fail("it does not listen"); int fd = dial(bound[0], FROM[f]), fd2 = dial(bound[0], "127.0.0.9"); string want = mc::strf("[%s %s %s]", FROM[f], FROM[f], FROM[f]); string q; for (int i = 0; i < reqs; i++) { bool last = i == reqs - 1; q = last ? "GET / HTTP/1.0\r\n\r\n" : "GET / HTTP/1.1\r\n\r\n"; if (last) { string a = plain_get(fd, q); if (a.find(want) == string::npos) fail("the answer is '%s'", esc(a).c_str()); } else { if (send(fd, q.data(), q.size(), MSG_NOSIGNAL) < 0) fail("send"); string a; char b[2000]; while (parse_response(a, 0, false, false).incomplete || a.empty()) { ssize_t k = recv(fd, b, sizeof b, 0); if (k <= 0) fail("no answer"); a.append(b, k); } if (early && a.find(want) == string::npos) fail("the answer is '%s'", esc(a).c_str()); } }
  n = total; string a = plain_get(fd2); if (a.find("[127.0.0.9 127.0.0.9 127.0.0.9]") == string::npos) fail("the other client is told '%s'", esc(a).c_str()); onion_listen_stop(o); onion_free(o); mc::outcome(mc::strf("%d %d %d", f, reqs, early));
}
// ---- signals and sockets of systemd, in processes of their own
static int apart(std::function<void()> f, const char *what) { int p[2]; if (pipe(p)) fail("pipe"); fflush(nullptr); pid_t pid = fork(); if (!pid) { child = true; out = p[1]; alarm(60); signal(SIGALRM, SIG_DFL); f(); _exit(0); } ::close(p[1]); string e; char b[700]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) e.append(b, n); ::close(p[0]); int st; waitpid(pid, &st, 0); if (!e.empty()) fail("%s: %s", what, e.c_str()); return st; }
static void idle(pid_t tid) { int quiet = 0; for (int i = 0; i < 20000 && quiet < 30; i++) { string s = slurp(mc::strf("/proc/self/task/%d/stat", tid).c_str()); size_t p = s.rfind(')'); quiet = p != string::npos && s.size() > p + 2 && s[p + 2] == 'S' ? quiet + 1 : 0; usleep(1000); } }
static void signals() {
  static const int MODE[] = {O_POLL, O_POOL, O_ONE_LOOP}; static const int SIG[] = {SIGINT, SIGTERM}; int mode = choose(3), sig = choose(2), flags = choose(2), rounds = choose(4), after = choose(2), ports = choose(2); if (ports && rounds) mc::prune(); mc::shard(); string d = mc::strf("mode %d, signal %d, %s, %d times, %s", mode, SIG[sig], flags ? "without signals" : "with signals", rounds, after ? "and once more when it is freed" : ""); mc::note("%s", d.c_str());
  int st = apart([&] { fresh(); signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); onion *o = onion_new(MODE[mode] | O_NO_SIGPIPE | (flags ? O_NO_SIGTERM : 0)); srv = o; onion_set_root_handler(o, onion_handler_new((onion_handler_handler)on_request, &srv, nullptr)); if (!ports) onion_set_hostname(o, "127.0.0.1"); onion_set_max_threads(o, 2); pid_t me = syscall(SYS_gettid); pthread_t mt = pthread_self();
    for (int r = 0; r < rounds; r++) { { std::lock_guard<std::mutex> l(mu); bound.clear(); } std::thread th([&] { sigset_t ss; sigfillset(&ss); pthread_sigmask(SIG_BLOCK, &ss, nullptr); for (int i = 0; !(onion_flags(o) & O_LISTENING); i++) { if (i > 5000) bad("it does not listen"); usleep(1000); } int fd; { std::lock_guard<std::mutex> l(mu); fd = bound[0]; } string a = plain_get(dial(fd)); if (a.find("secure 0") == string::npos) bad("it answers '%s'", esc(a).c_str()); idle(me); pthread_kill(mt, SIG[sig]); }); int e = onion_listen(o); th.join(); if (e) bad("listen returns %d", e); if (onion_flags(o) & O_LISTENING) bad("it is still listening"); if (onion_get_listen_point(o, 0)->listenfd >= 0) bad("the port is still open"); }
    onion_free(o); if (after) { raise(SIG[sig]); bad("the signal is still ignored or handled when the server is freed"); } }, d.c_str());
  bool dies = (flags && rounds) || after; if (dies ? !(WIFSIGNALED(st) && WTERMSIG(st) == SIG[sig]) : !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fail("%s: the process ends with %x", d.c_str(), st); mc::outcome(d);
}
static void given_sockets() {
  static const int MODE[] = {O_POLL, O_POOL, O_ONE_LOOP}; int mode = choose(3), n = choose(4) - 1, on = choose(2); mc::shard(); string d = mc::strf("mode %d, %d sockets given, %s", mode, n, on ? "O_SYSTEMD" : "no O_SYSTEMD"); mc::note("%s", d.c_str());
  int st = apart([&] { fresh(); int keep = dup(out); if (keep < 10) keep = fcntl(out, F_DUPFD, 50); out = keep; int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); __real_bind(l, (sockaddr *)&a, sizeof a); listen(l, 5); sockaddr_in b; socklen_t bl = sizeof b; getsockname(l, (sockaddr *)&b, &bl); dup2(l, 3); if (l != 3) close(l); systemd_n = n; bool given = on && n > 0; onion *o = onion_new(MODE[mode] | O_NO_SIGPIPE | O_NO_SIGTERM | (on ? O_SYSTEMD : 0)); srv = o; onion_set_root_handler(o, onion_handler_new((onion_handler_handler)on_request, &srv, nullptr)); onion_set_hostname(o, "127.0.0.1"); onion_set_max_threads(o, 2);
    std::thread th([&] { for (int i = 0; !(onion_flags(o) & O_LISTENING); i++) { if (i > 5000) bad("it does not listen"); usleep(1000); } int fd = 3; { std::lock_guard<std::mutex> lk(mu); if (given != bound.empty()) bad("%s", given ? "it opens a port" : "it opens no port"); if (!given) fd = bound[0]; } string x = plain_get(dial(fd)); if (x.find("secure 0") == string::npos) bad("it answers '%s'", esc(x).c_str()); onion_listen_stop(o); }); int e = onion_listen(o); th.join(); if (e) bad("listen returns %d", e); onion_free(o); }, d.c_str());
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fail("%s: the process ends with %x", d.c_str(), st); mc::outcome(d);
}
int main(int c, char **v) {
  mc::rule("Real server. All sequences of 4 (5) of 16 configuration calls, compared with a model after each; all of at most 3 (4), then listening and asked through each port over HTTP or TLS; memory after all those of 3. Priviledges: 6 modes x 1 to 3 ports x users x each call failing x 1 or 2 starts. Clients from several addresses and requests. Signals and systemd sockets in processes of their own. Distinct: programs.");
  mc::assume("Ports and changes of user are stand-ins that write down what they are asked."); mc::assume("Signals arrive when the thread that listens is waiting.");
  mc::add("orders", orders, true, init, 60); mc::add("served", served, true, init, 300); mc::add("nothing left", nothing_left, true, init, 60); mc::add("users", users, true, init); mc::add("clients", clients, true, init); mc::add("signals", signals, true, init); mc::add("systemd", given_sockets, true, init); return mc::main(c, v);
}
