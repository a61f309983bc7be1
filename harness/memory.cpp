// P32: with the memory and thread routines of the user, everything goes through them
#include "corpus.hpp"
#include <unordered_map>
#include <map>
#include <sys/wait.h>
#include <signal.h>
#include <pthread.h>
#include <security/pam_appl.h>
#include <ftw.h>
extern "C" {
#include "onion/low.h"
#include "onion/ptr_list.h"
#include "onion/url.h"
#include "onion/mime.h"
#include "onion/block.h"
#include "onion/codecs.h"
#include "onion/sessions.h"
#include "onion/sessions_mem.h"
#include "onion/shortcuts.h"
#include "onion/websocket.h"
#include "onion/random.h"
#include "onion/handlers/webdav.h"
#include "onion/handlers/exportlocal.h"
#include "onion/handlers/path.h"
#include "onion/handlers/static.h"
#include "onion/handlers/internal_status.h"
#include "onion/handlers/auth_pam.h"
onion_sessions *onion_sessions_sqlite3_new(const char *database_filename);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t); int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __real_pthread_join(pthread_t, void **);
}
using namespace onh; using mc::choose;
// ---- the routines of the user: blocks that the ones of the C library can not free
struct B { size_t n; bool scalar; }; static std::map<char *, B> blocks; static bool child; static long nalloc, fail_at = -1; static int failures; static bool watch; static bool in_pam; static bool failure_returns; static string what_failed; static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static void bad(const char *f, ...) { char t[400]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); watch = false; if (child) _exit(99); fail("%s", t); }
struct Lock { Lock() { pthread_mutex_lock(&big); } ~Lock() { pthread_mutex_unlock(&big); } };
static void *get(size_t n, bool scalar) { Lock l; if (++nalloc == fail_at) return nullptr; char *p = (char *)__real_malloc(n + 64) + 32; memset(p, scalar ? 0 : 0xa5, n); blocks[p] = {n, scalar}; return p; }
static void u_free(void *p) { Lock l; if (!p) return; auto it = blocks.find((char *)p); if (it == blocks.end()) bad("free of memory that was not given by the allocator of the user, or was freed before"); memset(p, 0x5a, it->second.n); blocks.erase(it); free((char *)p - 32); }
static void *u_malloc(size_t n) { return get(n, false); } static void *u_scalar(size_t n) { return get(n, true); } static void *u_calloc(size_t n, size_t s) { void *p = get(n * s, false); if (p) memset(p, 0, n * s); return p; }
static void *u_realloc(void *p, size_t n) { if (!p) return get(n, false); size_t old; bool sc; { Lock l; auto it = blocks.find((char *)p); if (it == blocks.end()) bad("realloc of memory that was not given by the allocator of the user"); old = it->second.n; sc = it->second.scalar; } void *q = get(n, sc); if (!q) return q; memcpy(q, p, std::min(n, old)); u_free(p); return q; }
static char *u_strdup(const char *s) { char *p = (char *)get(strlen(s) + 1, true); if (p) strcpy(p, s); return p; }
static void u_failure(const char *m) { failures++; what_failed = m ? m : ""; if (child) { if (failure_returns) return; _exit(what_failed.empty() ? 98 : 77); } bad("memory failure without one"); }
static void install() { onion_low_initialize_memory_allocation(u_malloc, u_scalar, u_calloc, u_realloc, u_strdup, u_free, u_failure); onion_log = nolog; }
extern "C" void *__wrap_malloc(size_t n) { if (watch && !in_pam) bad("malloc and not the allocator of the user"); return __real_malloc(n); }
extern "C" void *__wrap_calloc(size_t n, size_t s) { if (watch && !in_pam) bad("calloc and not the allocator of the user"); return __real_calloc(n, s); }
extern "C" void *__wrap_realloc(void *p, size_t n) { if (watch && !in_pam) bad("realloc and not the allocator of the user"); return __real_realloc(p, n); }
extern "C" char *__wrap_strdup(const char *s) { if (watch && !in_pam) bad("strdup and not the allocator of the user"); return __real_strdup(s); }
extern "C" char *__wrap_strndup(const char *s, size_t n) { if (watch && !in_pam) bad("strndup and not the allocator of the user"); return __real_strndup(s, n); }
// what is said to have no pointers has none: a collector does not look inside of it
static void scan() { Lock l; for (auto &b : blocks) if (b.second.scalar) for (size_t i = 0; i + 8 <= b.second.n; i += 8) { char *v; memcpy(&v, b.first + i, 8); if ((uintptr_t)v < 4096) continue; auto it = blocks.upper_bound(v); if (it == blocks.begin()) continue; --it; if (v < it->first + it->second.n) bad("a block of %zu bytes without pointers has a pointer to a block of %zu bytes", b.second.n, it->second.n); } }
// ---- PAM: takes the answers of the conversation, and frees them as PAM does
static struct pam_conv conv;
extern "C" int __wrap_pam_start(const char *, const char *, const struct pam_conv *c, pam_handle_t **h) { conv = *c; *h = (pam_handle_t *)&conv; return PAM_SUCCESS; }
extern "C" int __wrap_pam_authenticate(pam_handle_t *, int) { struct pam_message m[2] = {{PAM_PROMPT_ECHO_OFF, "Password: "}, {PAM_PROMPT_ECHO_OFF, "Again: "}}; const struct pam_message *pm[2] = {&m[0], &m[1]}; struct pam_response *r = nullptr; in_pam = true; int rc = conv.conv(2, pm, &r, conv.appdata_ptr); in_pam = false; bool ok = rc == PAM_SUCCESS && r && r[0].resp && !strcmp(r[0].resp, "pw"); if (r) { for (int i = 0; i < 2; i++) free(r[i].resp); free(r); } return ok ? PAM_SUCCESS : PAM_AUTH_ERR; }
extern "C" int __wrap_pam_acct_mgmt(pam_handle_t *, int) { return PAM_SUCCESS; }
extern "C" int __wrap_pam_end(pam_handle_t *, int) { return PAM_SUCCESS; }
extern "C" time_t __wrap_time(time_t *t) { if (t) *t = 1000000000; return 1000000000; }
// ---- servers
static string dir; static const int NH = 11; static const char *HN[] = {"everything", "export", "webdav", "urls", "paths", "status", "shortcuts", "pam", "websocket", "handlers one after another", "sessions in sqlite"};
static void prepare() { dir = mc::scratch() + "/m"; nftw(dir.c_str(), [](const char *p, const struct stat *, int, struct FTW *) { return remove(p); }, 16, FTW_DEPTH | FTW_PHYS); mkdir(dir.c_str(), 0755); mkdir((dir + "/sub").c_str(), 0755); spit(dir + "/a.html", "<html>\n"); spit(dir + "/sub/b.txt", string(3000, 'b')); }
static int everything(onion_request *q, onion_response *r) {
  scan(); dump(onion_request_get_header_dict(q)); dump(onion_request_get_query_dict(q)); dump(onion_request_get_post_dict(q)); dump(onion_request_get_file_dict(q)); dump(onion_request_get_cookies_dict(q)); onion_request_get_cookie(q, "a"); onion_request_get_client_description(q);
  char *lc = (char *)onion_request_get_language_code(q); onion_low_free(lc); onion_dict *s = onion_request_get_session_dict(q); onion_dict_add(s, "k", "v", OD_DUP_ALL | OD_REPLACE); onion_dict *sub = onion_dict_new(); onion_dict_add(sub, "x", "y", 0); onion_dict_add(s, "d", sub, OD_DICT | OD_DUP_ALL | OD_REPLACE); onion_dict_free(sub);
  onion_response_set_header(r, "X-A", "b"); onion_response_add_cookie(r, "c", "v w;", 100, "/", "host", OC_HTTP_ONLY); string big(800, 'z'); onion_response_printf(r, "%s %s", onion_request_get_path(q), big.c_str()); onion_response_write_html_safe(r, "<&>\""); onion_response_write(r, big.data(), big.size()); scan(); return OCS_PROCESSED; }
static int c_everything(void *, onion_request *q, onion_response *r) { return everything(q, r); }
static onion_connection_status ws_cb(void *, onion_websocket *ws, ssize_t n) { char b[300]; if (n > (ssize_t)sizeof b) n = sizeof b; int l = onion_websocket_read(ws, b, n); if (l <= 0) return OCS_CLOSE_CONNECTION; scan(); string big(900, 'p'); onion_websocket_printf(ws, "got %.*s %s", l, b, big.c_str()); onion_websocket_write(ws, b, l); return OCS_NEED_MORE_DATA; }
static int c_ws(void *, onion_request *q, onion_response *r) { onion_websocket *ws = onion_websocket_new(q, r); if (!ws) { onion_response_write0(r, "plain"); return OCS_PROCESSED; } onion_websocket_set_userdata(ws, onion_low_strdup("mine"), onion_low_free); onion_websocket_set_callback(ws, ws_cb); scan(); return OCS_WEBSOCKET; }
static int c_short(void *, onion_request *q, onion_response *r) { string p = onion_request_get_path(q); if (p.empty()) return onion_shortcut_redirect("/a b", q, r); if (p == "a" || p == "p") return onion_shortcut_internal_redirect("sub/new?k=v&l=%20w", q, r); if (p == "h" || p == "up") return onion_shortcut_response_extra_headers("text", 200, q, r, "X-A", "b", "X-C", "d", NULL); if (p == "c") { onion_dict *d = onion_dict_new(); onion_dict_add(d, "a", "b", 0); return onion_shortcut_response_json(d, q, r); } if (p == "q A") return onion_shortcut_response("text", 404, q, r); return onion_shortcut_response_file((dir + "/sub/b.txt").c_str(), q, r); }
static void setup(Server &s, int h) {
  onion_handler_free(onion_get_root_handler(s.o)); onion_set_root_handler(s.o, nullptr); onion_handler *all = onion_handler_new((onion_handler_handler)c_everything, nullptr, nullptr), *use = nullptr;
  switch (h) {
  case 0: use = all; all = nullptr; break; case 1: use = onion_handler_export_local_new(dir.c_str()); break; case 2: use = onion_handler_webdav(dir.c_str(), nullptr); break;
  case 3: { onion_url *u = onion_url_new(), *v = onion_url_new(); onion_url_add_static(v, "b.html", "static", 200); onion_url_add_handler(v, "^(.)(.)?", all); all = nullptr; onion_url_add_url(u, "^a/", v); onion_url_add(u, "up", (void *)c_everything); onion_url_add_with_data(u, "^([a-z])", (void *)c_everything, onion_low_strdup("data"), (void *)onion_low_free); use = onion_url_to_handler(u); break; }
  case 4: use = onion_handler_path("^/?a", all); all = nullptr; onion_handler_add(use, onion_handler_static("static text", 200)); break; case 5: use = onion_internal_status(); break; case 6: use = onion_handler_new((onion_handler_handler)c_short, nullptr, nullptr); break; case 7: use = onion_handler_auth_pam("realm", "onion", all); all = nullptr; break; case 8: use = onion_handler_new((onion_handler_handler)c_ws, nullptr, nullptr); break;
  case 9: use = onion_handler_new((onion_handler_handler)c_everything, onion_low_strdup("private"), onion_low_free); use->handler = [](void *, onion_request *, onion_response *) { return OCS_NOT_PROCESSED; }; onion_handler_add(use, all); all = nullptr; break; case 10: onion_set_session_backend(s.o, onion_sessions_sqlite3_new(":memory:")); use = all; all = nullptr; break; }
  if (all) onion_handler_free(all); onion_set_root_handler(s.o, use);
}
static const vector<Msg> &messages() { static vector<Msg> m; if (m.empty()) { m = corpus(); string ws = "GET /ws HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: a, b\r\n\r\n"; m.push_back({"websocket", ws + string("\x81\x83\0\0\0\0abc\x88\x80\0\0\0\0", 15), true}); m.push_back({"auth", "GET /x HTTP/1.1\r\nAuthorization: Basic YWw6cHc=\r\n\r\n", true}); m.push_back({"auth wrong", "GET /x HTTP/1.1\r\nAuthorization: Basic YWw6eHg=\r\n\r\n", true}); m.push_back({"auth bad", "GET /x HTTP/1.1\r\nAuthorization: Basic %\r\n\r\n", true}); m.push_back({"language", "GET /a HTTP/1.1\r\nAccept-Language: es-ES, en;q=0.5\r\nCookie: sessionid=xx; a=b\r\n\r\n", true}); m.push_back({"file", "GET /a.html HTTP/1.1\r\nRange: bytes=1-2\r\n\r\n", true}); m.push_back({"dir", "GET /sub/ HTTP/1.1\r\n\r\n", true});
    for (const char *w : {"PROPFIND / HTTP/1.1\r\nDepth: 1\r\n\r\n", "MKCOL /new HTTP/1.1\r\n\r\n", "MOVE /a.html HTTP/1.1\r\nDestination: http://x/b.html\r\n\r\n", "DELETE /sub/b.txt HTTP/1.1\r\n\r\n", "OPTIONS / HTTP/1.1\r\n\r\n", "GET /../x HTTP/1.1\r\n\r\n"}) m.push_back({string(w).substr(0, 12), w, true}); } return m; }
static void serve(int h, const string &wire, bool cut, int connections) { Server s(nullptr); setup(s, h); for (int k = 0; k < connections; k++) { Conn c(s); c.req->connection.fd = -1; if (!cut) { if (c.feed(wire)) { scan(); c.feed(wire); } } else for (char x : wire) if (!c.feed(string(1, x))) break; scan(); c.close(); tmp_reset(); } }
static void settle(size_t before, const char *name) { onion_mime_set(nullptr); if (blocks.size() > before) { string w; size_t n = 0; for (auto &b : blocks) if (++n > before && n < before + 5) w += mc::strf(" %zu", b.second.n); bad("%s: %zu blocks were not freed (of%s bytes)", name, blocks.size() - before, w.c_str()); } }
static void requests() { int h = choose(NH), mi = choose(messages().size()); mc::shard(); const Msg &m = messages()[mi]; for (int cut = 0; cut < 2; cut++) { mc::note("%s: %s%s", HN[h], m.name.c_str(), cut ? ", one byte at a time" : ""); size_t before = 0; for (int round = 0; round < 2; round++) { prepare(); before = blocks.size(); watch = true; serve(h, m.wire, cut, 2); watch = false; if (round) settle(before, m.name.c_str()); else onion_mime_set(nullptr); } } /* once before, for what is kept */ mc::outcome(mc::strf("%d %d", h, mi)); }
// ---- the rest of the interface
static void l_vis(void *, const char *, const void *, int) {}
static const int NA = 11; static const char *AN[] = {"dicts", "json", "codecs", "blocks", "lists", "mime", "sessions", "server", "urls", "random", "low"};
static void api(int k) { switch (k) {
  case 0: { onion_dict *d = onion_dict_new(); for (int f : {0, (int)OD_DUP_KEY, (int)OD_DUP_VALUE, (int)OD_DUP_ALL}) for (int i = 0; i < 6; i++) { static const char *K[] = {"a", "b", "c", "d", "e", "f"}; onion_dict_add(d, K[i], "value", f); } onion_dict_add(d, "a", onion_low_strdup("own"), OD_FREE_VALUE | OD_REPLACE); onion_dict_add(d, onion_low_strdup("key"), onion_low_strdup("own"), OD_FREE_ALL); onion_dict *s = onion_dict_new(); onion_dict_add(s, "x", "y", OD_DUP_ALL); onion_dict_add(d, "sub", s, OD_DICT | OD_FREE_VALUE); onion_dict_add(d, "copy", s, OD_DICT | OD_DUP_ALL); onion_dict_add(d, "copy", s, OD_DICT | OD_DUP_ALL | OD_REPLACE); onion_dict *h = onion_dict_hard_dup(d), *r = onion_dict_dup(h), *m = onion_dict_new(); onion_dict_merge(m, h); onion_dict_merge(m, h); onion_dict_free(h); onion_dict_remove(r, "a"); onion_dict_remove(r, "copy"); onion_dict_preorder(m, (void *)l_vis, nullptr); onion_dict_rget(d, "sub", "x", NULL); scan(); onion_dict_free(r); onion_dict_free(m); onion_dict_free(d); break; }
  case 1: for (const char *t : {"{}", "{\"a\":\"b\\u00e1\", \"c\":{\"d\":1, \"e\":{\"f\":\"g\"}}}", "{\"a\":{\"b\":", "{\"a\":\"b\",", "[", "{\"a\":\"\\", "x"}) { onion_dict *d = onion_dict_from_json(t); if (d) { onion_block *b = onion_dict_to_json(d); scan(); if (b) onion_block_free(b); onion_dict_free(d); } } break;
  case 2: { int l; string z(300, '<'); onion_low_free(onion_base64_decode("YWJj", &l)); onion_low_free(onion_base64_encode(z.data(), z.size())); onion_low_free(onion_base64_encode("", 0)); onion_low_free(onion_quote_new(z.c_str())); onion_low_free(onion_c_quote_new(z.c_str())); onion_low_free(onion_html_quote(z.c_str())); onion_low_free((void *)onion_html_quote_dup("plain")); onion_low_free(onion_html_quote("plain")); break; }
  case 3: { onion_block *b = onion_block_new(), *c = onion_block_new(); for (int i = 0; i < 40; i++) { onion_block_add_str(b, "some text"); onion_block_add_char(b, 'x'); onion_block_add_data(c, "data", 3); } onion_block_add_block(b, c); onion_block_add_block(b, b); onion_block_min_maxsize(c, 9000); onion_block_rewind(b, 3); onion_block_clear(b); onion_block_free(b); onion_block_free(c); break; }
  case 4: { onion_ptr_list *l = onion_ptr_list_new(); static int v[5]; for (int &x : v) l = onion_ptr_list_add(l, &x); l = onion_ptr_list_remove(l, &v[4]); l = onion_ptr_list_remove(l, &v[1]); l = onion_ptr_list_filter(l, [](void *, void *p) { return p != &v[2] && p != &v[3]; }, nullptr); if (onion_ptr_list_count(l) != 1) bad("the list has %zu", onion_ptr_list_count(l)); onion_ptr_list_free(l); break; }
  case 5: { onion_mime_set(nullptr); onion_mime_get("a.png"); onion_mime_update("xx", "yy"); onion_mime_update("xx", "zz"); onion_mime_update("xx", nullptr); onion_dict *d = onion_dict_new(); onion_dict_add(d, "a", "b", 0); onion_mime_set(d); onion_mime_get("x.a"); onion_mime_set(nullptr); break; }
  case 6: for (int kind = 0; kind < 2; kind++) { onion_sessions *s = kind ? onion_sessions_sqlite3_new((dir + "/db").c_str()) : onion_sessions_mem_new(); char *id = onion_sessions_create(s); onion_dict *d = onion_sessions_get(s, id); if (!d) bad("no session"); onion_dict_add(d, "a", "b", OD_DUP_ALL); onion_sessions_save(s, id, d); onion_dict_free(d); d = onion_sessions_get(s, id); onion_dict_free(d); onion_dict *none = onion_sessions_get(s, "none"); if (none) onion_dict_free(none); char *id2 = onion_sessions_create(s); onion_sessions_remove(s, id2); scan(); onion_low_free(id); onion_low_free(id2); onion_sessions_free(s); } break;
  case 7: { onion *o = onion_new(O_POOL | O_NO_SIGTERM | O_NO_SIGPIPE); onion_set_hostname(o, "127.0.0.1"); onion_set_hostname(o, "::1"); onion_set_port(o, "1"); onion_set_port(o, "2"); onion_set_max_threads(o, 3); onion_set_session_backend(o, onion_sessions_mem_new()); onion_set_internal_error_handler(o, onion_handler_static("x", 500)); onion_url *u = onion_root_url(o); onion_url_add_static(u, "a", "b", 200); onion_add_listen_point(o, "127.0.0.1", "3", onion_http_new()); scan(); onion_free(o); break; }
  case 8: { onion_url *u = onion_url_new(); onion_url_add(u, "^(unclosed", (void *)c_everything); onion_url_add(u, "^a.*$", (void *)c_everything); onion_url_add_handler(u, "b", onion_handler_static("x", 200)); onion_url_add_static(u, "^((", "x", 200); { onion_handler *h = onion_handler_static("x", 200); if (onion_url_add_handler(u, "^[", h)) onion_handler_free(h); } onion_url_free(u); onion_handler_free(onion_handler_export_local_new("/does/not/exist")); onion_handler *h = onion_handler_path("^(", onion_handler_static("x", 200)); if (h) onion_handler_free(h); break; }
  case 9: { onion_random_init(); char b[10]; onion_random_generate(b, 10); onion_random_init(); onion_random_free(); onion_random_free(); break; }
  case 10: { if (onion_low_strdup(nullptr) || onion_low_try_strdup(nullptr)) bad("a copy of nothing"); if (onion_low_calloc(0, 5) || onion_low_calloc(5, 0) || onion_low_try_calloc(0, 5)) bad("nothing is given"); onion_low_free(nullptr); void *p = onion_low_malloc(3), *q = onion_low_scalar_malloc(3); p = onion_low_realloc(p, 300); void *z = onion_low_calloc(3, 7); for (int i = 0; i < 21; i++) if (((char *)z)[i]) bad("not zero"); char *s = onion_low_strdup("abc"); if (strcmp(s, "abc")) bad("strdup"); if (blocks[(char *)p].n != 300 || blocks[(char *)p].scalar || !blocks[(char *)q].scalar || blocks[(char *)z].scalar) bad("the wrong routine was used"); for (void *x : {p, q, z, (void *)s}) onion_low_free(x); long n = nalloc; p = onion_low_try_malloc(5); q = onion_low_try_scalar_malloc(6); z = onion_low_try_calloc(2, 3); s = onion_low_try_strdup("x"); if (p) p = onion_low_try_realloc(p, 50) ?: p; if (nalloc != n + 5 && fail_at < 0) bad("%ld allocations", nalloc - n); for (void *x : {p, q, z, (void *)s}) onion_low_free(x); break; }
} }
static vector<int *> seen; static void see(void *p) { seen.push_back((int *)p); }
static void lists() { int n = mc::thorough() ? 7 : 6; vector<int> prog; for (int i = 0; i < n; i++) { prog.push_back(choose(8)); if (i == 1) mc::shard(); } static int v[3]; string d; for (int p : prog) d += mc::strf(" %d", p); mc::note("%s", d.c_str()); size_t before = blocks.size(); vector<int *> m; onion_ptr_list *l = onion_ptr_list_new();
  for (int p : prog) { if (p < 3) { l = onion_ptr_list_add(l, &v[p]); m.insert(m.begin(), &v[p]); } else if (p < 6) { l = onion_ptr_list_remove(l, &v[p - 3]); auto it = std::find(m.begin(), m.end(), &v[p - 3]); if (it != m.end()) m.erase(it); } else { static int keep; keep = p - 6; l = onion_ptr_list_filter(l, [](void *k, void *q) { return q != &v[*(int *)k]; }, &keep); m.erase(std::remove(m.begin(), m.end(), &v[keep]), m.end()); }
    seen.clear(); onion_ptr_list_foreach(l, see); if (seen != m || onion_ptr_list_count(l) != m.size()) fail("after%s the list has %zu elements, or others", d.c_str(), seen.size()); if (blocks.size() - before != m.size()) fail("after%s there are %zu blocks for %zu elements", d.c_str(), blocks.size() - before, m.size()); }
  onion_ptr_list_free(l); settle(before, "the list"); mc::state(mc::hash(m.data(), m.size() * sizeof(int *))); }
static void interface() { int k = choose(NA); mc::shard(); mc::note("%s", AN[k]); prepare(); for (int round = 0; round < 2; round++) { size_t before = blocks.size(); watch = true; api(k); watch = false; if (round) settle(before, AN[k]); else onion_mime_set(nullptr); } mc::outcome(AN[k]); }
// ---- no memory at any point: the user is told, and nothing goes on
static void run(int sc) { if (sc < NA) api(sc); else { sc -= NA; static const int M[] = {0, 8, 12, 13, 15, 19, 23, 26, -1, -2, -3}; int nm = sizeof M / sizeof *M, m = M[sc % nm]; auto &ms = messages(); string w = m >= 0 ? ms[m].wire : m == -1 ? ms[ms.size() - 13].wire : m == -2 ? ms[ms.size() - 12].wire : ms[ms.size() - 6].wire; serve(sc / nm, w, false, 1); } onion_mime_set(nullptr); }
static int forked(int sc, long k, bool returns, long *count) {
  int p[2]; if (pipe(p)) fail("pipe"); pid_t pid = fork(); if (!pid) { signal(SIGABRT, SIG_DFL); child = true; ::close(p[0]); int null = ::open("/dev/null", O_WRONLY); dup2(null, 2); failure_returns = returns; nalloc = 0; fail_at = k; watch = false; run(sc); if (write(p[1], &nalloc, sizeof nalloc)) {} _exit(0); }
  ::close(p[1]); long n = -1; if (read(p[0], &n, sizeof n) != sizeof n) n = -1; ::close(p[0]); if (count) *count = n; int st; waitpid(pid, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void nomemory() {
  static const int NS = NA + NH * 11; int sc = choose(NS), part = choose(4); mc::shard(); prepare(); string name = sc < NA ? AN[sc] : mc::strf("%s, message %d", HN[(sc - NA) / 11], (sc - NA) % 11); mc::note("%s", name.c_str()); long n; int r = forked(sc, -1, false, &n); if (r != 0 || n < 0) fail("%s: without failures it ends with %d", name.c_str(), r); int trying = sc == 10 ? 5 : 0; // the last of those are with routines that may fail
  for (long k = 1 + part; k <= n; k += 4) { if (sc == 6 || (sc >= NA && (sc - NA) / 11 == 2)) prepare(); r = forked(sc, k, false, nullptr); if (k > n - trying) { if (r) fail("%s: an allocation that may fail did, and it ends with %d", name.c_str(), r); } else if (r != 77) fail("%s: allocation %ld of %ld fails and the routine of the user %s (%d)", name.c_str(), k, n, r == 0 ? "is not called" : r == 98 ? "gets no message" : "is not the end", r); mc::state(mc::hash(&k, sizeof k, sc)); if (k % 8 < 4 && k <= n - trying) { r = forked(sc, k, true, nullptr); if (r != 1000 + SIGABRT) fail("%s: allocation %ld fails, the routine returns, and it does not abort (%d)", name.c_str(), k, r); } }
  mc::outcome(mc::strf("%d %d %ld", sc, part, n));
}
// ---- threads
static int made, joined, direct; static bool inside; static __thread int mine;
static int t_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { __atomic_add_fetch(&made, 1, __ATOMIC_SEQ_CST); return __real_pthread_create(t, a, f, p); } static int t_join(pthread_t t, void **r) { __atomic_add_fetch(&joined, 1, __ATOMIC_SEQ_CST); return __real_pthread_join(t, r); } static int t_cancel(pthread_t t) { return pthread_cancel(t); } static int t_detach(pthread_t t) { __atomic_add_fetch(&joined, 1, __ATOMIC_SEQ_CST); return pthread_detach(t); } static void t_exit(void *r) { pthread_exit(r); } static int t_sigmask(int h, const sigset_t *s, sigset_t *o) { return pthread_sigmask(h, s, o); }
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p) { direct++; return __real_pthread_create(t, a, f, p); }
extern "C" int __wrap_pthread_join(pthread_t t, void **r) { direct++; return __real_pthread_join(t, r); }
static void threads() {
  int mode = choose(6), n = choose(4); mc::shard(); static const int F[] = {O_POOL, O_POOL | O_DETACH_LISTEN, O_POLL | O_DETACH_LISTEN, O_ONE_LOOP | O_DETACH_LISTEN, O_THREADED | O_DETACH_LISTEN, O_POOL | O_POLL | O_DETACH_LISTEN}; mc::note("mode %d, %d threads", mode, n); onion_low_initialize_threads(t_create, t_join, t_cancel, t_detach, t_exit, t_sigmask); made = joined = direct = 0; size_t before = blocks.size();
  { onion *o = onion_new(F[mode] | O_NO_SIGTERM | O_NO_SIGPIPE); onion_set_max_threads(o, n + 1); onion_set_hostname(o, "127.0.0.1"); onion_set_port(o, "0"); onion_url_add_static(onion_root_url(o), "a", "b", 200); pthread_t st; bool detached = F[mode] & O_DETACH_LISTEN; 
    if (!detached) { __real_pthread_create(&st, nullptr, [](void *p) -> void * { usleep(60000); onion_listen_stop((onion *)p); return nullptr; }, o); }
    onion_listen(o); if (detached) { usleep(60000); onion_listen_stop(o); } else __real_pthread_join(st, nullptr); onion_free(o); }
  if (direct) fail("mode %d: threads are made or joined without the routines of the user", mode); if (made != joined) fail("mode %d: %d threads were made and %d joined", mode, made, joined); int want = (F[mode] & O_DETACH_LISTEN ? 1 : 0); if (made < want) fail("mode %d: %d threads were made with the routines of the user", mode, made); settle(before, "a server"); mc::outcome(mc::strf("%d %d", mode, n));
}
int main(int c, char **v) {
  install(); mc::rule("Real library with memory routines of the user, whose blocks the C library can not free. 11 handlers x the messages of the corpus and 13 more, whole and one byte at a time; 11 groups of functions of the interface; all sequences of 6 (7) of 8 operations on lists; for 132 of those, each allocation fails in turn (in a process of its own), and the routine that is told ends or returns; 6 ways to listen with 1 to 4 threads. Distinct: points of failure.");
  mc::assume("What other libraries take for themselves (regular expressions, XML, SQLite, PAM) is theirs.");
  mc::add("requests", requests); mc::add("interface", interface); mc::add("lists", lists); mc::add("no memory", nomemory, true, nullptr, 120); mc::add("threads", threads);
  return mc::main(c, v);
}
