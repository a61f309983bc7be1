// P14: a served file arrives byte for byte; ranges, HEAD, conditional requests and content types are right, also when the
// transport takes little pieces or the file changes meanwhile.
#include "onh.hpp"
#include "onion/shortcuts.h"
#include "onion/mime.h"
#include "onion/handlers/exportlocal.h"
#include <dirent.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <utime.h>
using namespace onh; using mc::choose;
extern "C" { ssize_t onion_http_write(onion_request *, const char *, size_t); extern int onion_use_sendfile; }
static Server *sv; static string fname; static int hret; static int calls;
static int on_request(onion_request *req, onion_response *res) { calls++; if (!strncmp(onion_request_get_path(req), "second", 6)) { onion_response_write0(res, "SECOND"); return OCS_PROCESSED; } return hret = onion_shortcut_response_file(fname.c_str(), req, res); }
static void setmime() { onion_dict *d = onion_dict_new(); onion_dict_add(d, "bin", "application/x-test", 0); onion_mime_set(d); }
static void init() { sv = new Server(on_request); setmime(); fname = mc::scratch() + "/f.bin"; }
static string content(size_t n, int salt = 0) { string s; s.reserve(n); uint32_t x = 12345 + salt; for (size_t i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; s += (char)(x >> 24); } return s; }

// ---- faults on the descriptors the library uses to send --------------------------------------------
static int sock = -1; static std::function<ssize_t(int kind, size_t n)> plan; // kind 0 read of the file, 1 write to the socket, 2 sendfile. returns n to go on, less: short, -1: error
static std::function<void(int step)> on_step; static int step; static bool watch; static bool is_file(int fd) { char l[64], b[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t r = readlink(l, b, sizeof b - 1); if (r < 0) return false; b[r] = 0; return !strncmp(b, mc::scratch().c_str(), mc::scratch().size()); }
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); ssize_t __real_sendfile(int, int, off_t *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (watch && is_file(fd)) { step++; if (on_step) on_step(step); ssize_t m = plan ? plan(0, n) : n; if (m < 0) return -1; return __real_read(fd, b, m); } return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (watch && fd == sock) { step++; if (on_step) on_step(step); ssize_t m = plan ? plan(1, n) : n; if (m < 0) return -1; if (m == 0) return 0; return __real_write(fd, b, m); } return __real_write(fd, b, n); }
ssize_t __wrap_sendfile(int o, int i, off_t *off, size_t n) { if (watch && o == sock) { step++; if (step > 400) mc::fail("no end of sendfile calls"); if (on_step) on_step(step); ssize_t m = plan ? plan(2, n) : n; if (m < 0) return -1; if (m == 0) return 0; return __real_sendfile(o, i, off, m); } return __real_sendfile(o, i, off, n); }
int __real_stat(const char *, struct stat *); int __real_fstat(int, struct stat *);
int __wrap_stat(const char *p, struct stat *s) { if (watch && fname == p) { step++; if (on_step) on_step(-step); } return __real_stat(p, s); }
int __wrap_fstat(int fd, struct stat *s) { if (watch && is_file(fd)) { step++; if (on_step) on_step(-step); } return __real_fstat(fd, s); }
FILE *__real_fopen(const char *, const char *); static string mimefile; FILE *__wrap_fopen(const char *f, const char *m) { if (!strcmp(f, "/etc/mime.types")) return mimefile.empty() ? nullptr : __real_fopen(mimefile.c_str(), m); return __real_fopen(f, m); }
}

// ---- reference ---------------------------------------------------------------------------------------
struct Want { bool full_ok = false, unsat_ok = false, part = false; size_t a = 0, b = 0; bool any_part = false; }; // what may be answered
static Want ref_range(const string *range, size_t n) {
  Want w; if (!range || range->compare(0, 6, "bytes=")) { w.full_ok = true; return w; }
  string s = range->substr(6); size_t d = s.find('-'); auto num = [](const string &x) { return x.find_first_not_of("0123456789") == string::npos; };
  if (d == string::npos || !num(s.substr(0, d)) || !num(s.substr(d + 1)) || s.size() < 2) { w.full_ok = w.unsat_ok = true; if (s.find(',') != string::npos) w.any_part = true; return w; }
  auto big = [](const string &x) -> unsigned long long { string y = x; y.erase(0, y.find_first_not_of('0')); if (y.size() > 18) return ~0ull; return y.empty() ? 0 : strtoull(y.c_str(), 0, 10); };
  string A = s.substr(0, d), B = s.substr(d + 1); unsigned long long a = big(A), b = big(B);
  if (A.empty()) { if (b == 0 || n == 0) { w.unsat_ok = true; if (n == 0) w.full_ok = true; return w; } w.part = true; w.a = b > n ? 0 : n - b; w.b = n - 1; return w; }
  auto strip = [](string x) { x.erase(0, std::min(x.find_first_not_of('0'), x.size())); return x; }; string As = strip(A), Bs = strip(B); if (!B.empty() && (Bs.size() != As.size() ? Bs.size() < As.size() : Bs < As)) { w.full_ok = w.unsat_ok = true; return w; }
  if (a >= n) { w.unsat_ok = true; return w; }
  w.part = true; w.a = a; w.b = B.empty() || b >= n ? n - 1 : b; return w;
}
static string etag_of(const Resp &r) { const string *e = r.get("Etag"); return e ? *e : ""; }
static void judge(const string &out, bool open, const string &data, const string *range, int method, const string &ctype = "application/x-test") {
  bool head = method == 1; Resp r = parse_response(out, 0, head, !open); if (!r.err.empty()) fail("malformed answer: %s\n%s", r.err.c_str(), esc(out.substr(0, 400)).c_str()); if (r.incomplete) fail("incomplete answer: %s", esc(out.substr(0, 400)).c_str()); if (r.used != out.size()) fail("%zu bytes after the end of the answer", out.size() - r.used);
  Want w = ref_range(range, data.size()); const string *cr = r.get("Content-Range"), *cl = r.get("Content-Length");
  if (r.code == 200) { if (!w.full_ok) fail("the whole file was sent and a satisfiable range was asked"); if (cr) fail("200 with Content-Range %s", cr->c_str()); if (!head && r.body != data) fail("the file has %zu bytes and other %zu arrived", data.size(), r.body.size()); if (cl && *cl != std::to_string(data.size())) fail("Content-Length %s and the file has %zu", cl->c_str(), data.size()); }
  else if (r.code == 206) {
    size_t a, b, n; int used = 0; if (!cr || sscanf(cr->c_str(), "bytes %zu-%zu/%zu%n", &a, &b, &n, &used) != 3 || used != (int)cr->size()) fail("206 with Content-Range %s", cr ? cr->c_str() : "missing");
    if (!w.part && !w.any_part) fail("206 %s and this range can not be satisfied", cr->c_str());
    if (n != data.size() || a > b || b >= n) fail("Content-Range %s of a file of %zu", cr->c_str(), data.size()); if (w.part && (a != w.a || b != w.b)) fail("Content-Range %s instead of %zu-%zu", cr->c_str(), w.a, w.b);
    if (!head && r.body != data.substr(a, b - a + 1)) fail("the bytes sent are not those of %s", cr->c_str()); if (cl && *cl != std::to_string(b - a + 1)) fail("Content-Length %s for %s", cl->c_str(), cr->c_str());
  } else if (r.code == 416) { if (!w.unsat_ok) fail("416 for a range that can be satisfied"); if (cr && *cr != "bytes */" + std::to_string(data.size())) fail("Content-Range %s in 416 of a file of %zu", cr->c_str(), data.size()); }
  else fail("answered %d", r.code);
  if (r.code / 100 == 2 && (!r.get("Content-Type") || *r.get("Content-Type") != ctype)) fail("Content-Type %s", r.get("Content-Type") ? r.get("Content-Type")->c_str() : "missing");
  if (!open) fail("the connection was closed");
}
static const char *METHODS[] = {"GET", "HEAD", "POST", "OPTIONS", "DELETE", "PROPFIND", "MOVE"};
static string request(int m, const string *range, const string &extra = "") { return string(METHODS[m]) + " /f HTTP/1.1\r\n" + (range ? "Range: " + *range + "\r\n" : "") + (m == 2 ? "Content-Length: 0\r\n" : "") + extra + "\r\n"; }
static void go(const string &data, const string *range, int m) { int fds = mc::open_fds(); { Conn c(*sv); calls = 0; c.feed(request(m, range)); if (calls != 1) fail("the handler was called %d times", calls); string o = c.out; judge(o, c.open, data, range, m); size_t l = c.out.size(); c.feed("GET /second HTTP/1.1\r\n\r\n"); Resp r = parse_response(c.out, l, false, !c.open); if (r.body != "SECOND" || r.used != c.out.size()) fail("the next answer of the connection is broken: %s", esc(c.out.substr(l, 300)).c_str()); } if (mc::open_fds() != fds) fail("descriptors leaked"); mc::state(mc::hash(std::to_string(data.size()) + (range ? *range : "") + METHODS[m])); }

static void ranges() { // sizes around the buffers x every range with ends around the limits x methods
  static const size_t sizes[] = {0, 1, 2, 3, 10, 255, 1499, 1500, 1501, 4045, 4046, 4047, 4095, 4096, 4097, 8091, 8092, 8093, 12138, 12139, 16383, 16384, 16385, 20000, 70000}; int k = choose(25), m = choose(7); mc::shard(); size_t n = sizes[k]; string data = content(n, k); spit(fname, data);
  vector<string> pts = {"0", "1", "00", "4045", "4046", "8092", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "4294967296", "4294967295", "2147483648"}; for (long d = -3; d <= 2; d++) if ((long)n + d >= 0) pts.push_back(std::to_string((long)n + d)); if (n > 6) pts.push_back(std::to_string(n / 2));
  go(data, nullptr, m); vector<string> rs; for (auto &a : pts) { rs.push_back(a + "-"); rs.push_back("-" + a); for (auto &b : pts) rs.push_back(a + "-" + b); }
  if (m > 1 && !mc::thorough()) rs = {"0-0", "1-", "-1", "0-99999"};
  for (auto &r : rs) { string R = "bytes=" + r; mc::note("file of %zu bytes, %s, %s", n, METHODS[m], R.c_str()); go(data, &R, m); } mc::outcome("served");
}
static void grid() { // small files: every range there is
  int n = choose(mc::thorough() ? 12 : 8), m = choose(2); mc::shard(); string data = content(n); spit(fname, data); for (int a = -1; a <= n + 2; a++) for (int b = -1; b <= n + 2; b++) { string R = "bytes=" + (a < 0 ? "" : std::to_string(a)) + "-" + (b < 0 ? "" : std::to_string(b)); mc::note("file of %d bytes, %s", n, R.c_str()); go(data, &R, m); } mc::outcome("served");
}
static void malformed() { // any text in Range
  string al = "0129-,= bx"; string s; int n = mc::thorough() ? 7 : 6; for (int i = 0; i < 2; i++) { int c = choose(al.size() + 1); if (!c) break; s += al[c - 1]; } mc::shard(); string data = content(5); spit(fname, data); string base = s;
  std::function<void(const string &, int)> rec = [&](const string &t, int left) { for (const char *p : {"bytes=", "bytes", "", "items="}) { if (*p != 'b' && t.size() > 3) continue; string R = p + t; while (!R.empty() && R.back() == ' ') R.pop_back(); while (!R.empty() && R[0] == ' ') R.erase(0, 1); if (R.empty()) continue; mc::note("Range: %s", esc(R).c_str()); Conn c(*sv); calls = 0; c.feed(request(0, &R)); if (calls == 1) judge(c.out, c.open, data, &R, 0); mc::state(mc::hash(R)); } if (left) for (char x : al) rec(t + x, left - 1); };
  if (base.size() < 2) rec(base, 0); else rec(base, n - 2); mc::outcome("answered");
}
static void lengths() { // ranges and conditions of any length
  int kind = choose(6); mc::shard(); string data = content(5); spit(fname, data); for (int l = 1; l < (mc::thorough() ? 4000 : 1300); l++) { string R; switch (kind) { case 0: R = "bytes=" + string(l, '0') + "1-3"; break; case 1: R = "bytes=1-" + string(l, '0') + "3"; break; case 2: R = string(l, 'x'); break; case 3: R = "bytes=" + string(l, ','); break; case 4: R = "bytes=-" + string(l, '9'); break; case 5: R = "bytes=0-1"; }
    string extra = kind == 5 ? "If-None-Match: " + string(l, 'a') + "\r\n" : ""; mc::note("kind %d length %d", kind, l); Conn c(*sv); calls = 0; c.feed(request(0, &R, extra)); if (!calls) break; // refused by the parser: from here all are longer
    Resp r = parse_response(c.out, 0, false, !c.open); if (R.size() > 1000 && r.err.empty() && r.code >= 400) continue; /* absurdly long ranges may be refused */ if (R.size() > 1000 && r.code == 200) { if (r.body != data) fail("body differs"); continue; } judge(c.out, c.open, data, &R, 0); mc::state(mc::hash(R + extra)); } mc::outcome("answered");
}
// over a real socket: short and failed writes, sendfile calls and reads at every step
static void transport() {
  static const size_t sizes[] = {10, 4046, 5000, 16383, 16384, 20001, 40000}; int k = choose(7), sf = choose(2), rng = choose(2), m = choose(2); mc::set_budget(mc::thorough() ? 3 : 2); mc::shard(); size_t n = sizes[k]; string data = content(n, k); spit(fname, data); onion_use_sendfile = sf;
  int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) fail("socketpair"); int big = 1 << 20; setsockopt(sp[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); sock = sp[0]; sv->lp->write = onion_http_write; string R = "bytes=3-"; step = 0; bool bad = false; bool eintr = false; int zero = 0;
  plan = [&](int kind, size_t want) -> ssize_t { if (step > 300) fail("no end of system calls"); if (bad) { errno = EPIPE; return kind == 0 ? (ssize_t)want : -1; }
    int a = mc::choose_cost(want > 1 ? 6 : 4); switch (a) { case 0: return want; case 1: errno = kind ? EPIPE : EIO; if (kind) bad = true; mc::note("step %d kind %d: error", step, kind); return -1; case 2: if (kind != 1) { errno = EINTR; mc::note("step %d kind %d: interrupted", step, kind); return -1; } /* fallthrough */ case 3: mc::note("step %d kind %d: zero", step, kind); zero = kind + 1; return kind == 0 ? want : 0; case 4: mc::note("step %d kind %d: one byte", step, kind); return 1; default: mc::note("step %d kind %d: half", step, kind); return want / 2; } };
  string out; bool open; { Conn c(*sv); c.req->connection.fd = sp[0]; watch = true; c.feed(request(m, rng ? &R : nullptr)); watch = false; open = c.open; c.close(); } plan = nullptr; sv->lp->write = conn_write; onion_use_sendfile = 0; (void)eintr; (void)zero;
  shutdown(sp[0], SHUT_WR); char b[8192]; ssize_t r; while ((r = recv(sp[1], b, sizeof b, 0)) > 0) out.append(b, r); ::close(sp[0]); ::close(sp[1]); sock = -1;
  if (open) judge(out, open, data, rng ? &R : nullptr, m); else { // what arrived is a prefix of the right answer
    Resp p = parse_response(out, 0, m == 1, true); if (!p.err.empty()) fail("malformed: %s", p.err.c_str()); string part = rng ? data.substr(3) : data; if (p.code && m == 0 && part.compare(0, p.body.size(), p.body)) fail("wrong bytes were sent before closing"); if (p.code && m == 0 && !p.incomplete && p.body != part && (p.chunked || p.close_delimited)) fail("a part of the file was presented as all of it"); if (p.code && p.used && p.used < out.size()) fail("bytes after the answer"); }
  mc::outcome_h(mc::hash(out) + open);
}
static void no_fault_closes() { // without faults a connection is never closed, whatever the size: sendfile and not
  int sf = choose(2), from = choose(8); mc::shard(); onion_use_sendfile = sf; for (int i = 0; i < (mc::thorough() ? 400 : 60); i++) { size_t base[] = {0, 1400, 3000, 4000, 8080, 16300, 32700, 65500}; size_t n = base[from] + i * (mc::thorough() ? 1 : 3); string data = content(n, i); spit(fname, data); int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) fail("socketpair"); int big = 1 << 20; setsockopt(sp[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); sv->lp->write = onion_http_write; string out; bool open; mc::note("%zu bytes sendfile %d", n, sf);
    { Conn c(*sv); c.req->connection.fd = sp[0]; c.feed(request(0, nullptr)); open = c.open; } sv->lp->write = conn_write; shutdown(sp[0], SHUT_WR); char b[8192]; ssize_t r; while ((r = recv(sp[1], b, sizeof b, 0)) > 0) out.append(b, r); ::close(sp[0]); ::close(sp[1]); judge(out, open, data, nullptr, 0); mc::state(n * 2 + sf); } onion_use_sendfile = 0; mc::outcome("served");
}
static void changes() { // the file is truncated, grown or replaced at any moment of the transfer
  static const size_t sizes[] = {10, 4046, 5000, 9000, 17000}; int k = choose(5), what = choose(4), when = choose(8); mc::shard(); size_t n = sizes[k]; string data = content(n, 1), other = content(n + 100, 2); spit(fname, data); step = 0; bool done = false;
  int sf = choose(2); onion_use_sendfile = sf; int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) fail("socketpair"); int big = 1 << 20; setsockopt(sp[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); sock = sp[0]; sv->lp->write = onion_http_write;
  bool early = false; string after = data; on_step = [&](int s) { bool st = s < 0; if (st) s = -s; if (s > 200) fail("the transfer does not end"); if (s == when + 1 && !done) { done = true; early = st; watch = false; after = what == 0 ? string() : what == 1 ? data.substr(0, n / 2) : what == 2 ? other : data + "more"; if (what == 0) { if (truncate(fname.c_str(), 0)) fail("truncate"); } if (what == 1) { if (truncate(fname.c_str(), n / 2)) fail("truncate"); } if (what == 2) { string t = fname + ".new"; spit(t, other); rename(t.c_str(), fname.c_str()); } if (what == 3) { int fd = ::open(fname.c_str(), O_WRONLY | O_APPEND); __real_write(fd, "more", 4); ::close(fd); } watch = true; } };
  string out; bool open; { Conn c(*sv); c.req->connection.fd = sp[0]; watch = true; c.feed(request(0, nullptr)); watch = false; open = c.open; } on_step = nullptr; sv->lp->write = conn_write; onion_use_sendfile = 0; shutdown(sp[0], SHUT_WR); char b[8192]; ssize_t r; while ((r = recv(sp[1], b, sizeof b, 0)) > 0) out.append(b, r); ::close(sp[0]); ::close(sp[1]); sock = -1;
  mc::note("file of %zu, change %d at step %d, sendfile %d", n, what, when, sf); Resp p = parse_response(out, 0, false, !open); if (!p.err.empty()) fail("malformed: %s", p.err.c_str());
  if (early && !p.incomplete && p.body == after && open) {} else if (what >= 2 || !done) { if (p.incomplete || p.body != data) fail("got %zu bytes that are not the file as it was opened", p.body.size()); if (!open) fail("closed"); }
  else { if (data.compare(0, p.body.size(), p.body)) fail("wrong bytes"); if (p.incomplete && open) fail("a truncated answer was left on an open connection"); if (!p.incomplete && p.body != data) fail("the file was cut while sending and the client can not notice"); }
  mc::outcome_h(mc::hash(out) + open);
}
static void conditional() { // histories of changes and conditional requests
  int n = mc::thorough() ? 6 : 5; vector<string> tags; vector<int> tagver; vector<size_t> tagrng; int ver = 0; time_t mt = 1600000000; string data = content(10, 0); auto put = [&]() { spit(fname, data); struct utimbuf u = {mt, mt}; utime(fname.c_str(), &u); }; put(); string h; static const string rr = "bytes=1-3";
  for (int i = 0; i < n; i++) { int op = choose(7); if (i == 1) mc::shard();
    switch (op) { case 0: ver++; mt++; data = content(10, ver); put(); h += "new content; "; break; case 1: ver++; data = content(10 + ver, ver); put(); h += "new size; "; break; case 2: mt += 0x100; ver++; data = content(10, ver * 7); put(); h += "later; "; break;
      default: { bool rng = op == 4 || op == 6; bool cond = op >= 5; int t = cond ? choose(tags.size() + 1) : 0; string c1 = cond ? "If-None-Match: " + (t ? tags[t - 1] : string("other")) + "\r\n" : ""; h += mc::strf("GET%s%s%d; ", rng ? " range" : "", cond ? " unless tag " : "", t); mc::note("%s", h.c_str()); Conn c(*sv); c.feed(request(0, rng ? &rr : nullptr, c1)); Resp r = parse_response(c.out, 0, false, !c.open);
        if (r.code == 304) { if (!t) fail("304 without having seen it"); if (tagver[t - 1] != ver) fail("304 and the file changed"); if (r.used != c.out.size()) fail("304 with body"); } else { if (t && tagver[t - 1] == ver && tagrng[t - 1] == (size_t)rng) fail("%d and the file did not change since that tag", r.code); judge(c.out, c.open, data, rng ? &rr : nullptr, 0); if (etag_of(r).empty()) fail("no tag"); if (etag_of(r).size() > 200) fail("huge tag"); tags.push_back(etag_of(r)); tagver.push_back(ver); tagrng.push_back(rng); } } } }
  mc::outcome_h(mc::hash(h));
}
static void tag_bits() { // versions that differ in one bit of the size or of the time of change, or in both exchanged
  static const time_t T[] = {0, 1600000000, 0x7fffffff, 0x55555555}; static const off_t S[] = {1, 10, 4096, 0x10001}; int a = choose(4), b = choose(4); mc::shard(); static const string rr = "bytes=0-0"; auto put = [&](off_t n, time_t mt) { int fd = ::open(fname.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, n)) fail("cannot make a file of %ld", (long)n); ::close(fd); struct utimbuf u = {mt, mt}; utime(fname.c_str(), &u); };
  auto get = [&](const string &tag) { Conn c(*sv); c.feed(request(0, &rr, tag.empty() ? "" : "If-None-Match: " + tag + "\r\n")); return parse_response(c.out, 0, false, !c.open); };
  put(S[b], T[a]); Resp r = get(""); string tag = etag_of(r); if (r.code != 206 || tag.empty()) fail("answered %d, tag <%s>", r.code, tag.c_str()); if (get(tag).code != 304) fail("not changed and answered in full"); auto other = [&](off_t n, time_t t) { if ((n == S[b] && t == T[a]) || n < 1) return; put(n, t); mc::note("seen with %ld bytes of %ld, now %ld of %ld", (long)S[b], (long)T[a], (long)n, (long)t); if (get(tag).code == 304) fail("the file changed and the answer is not modified"); mc::state(n * 31 + t); };
  for (int i = 0; i < 32; i++) { other(S[b], T[a] ^ (1l << i)); other(S[b] ^ (1l << i), T[a]); for (int j = 0; j < 32; j++) other(S[b] ^ (1l << i), T[a] ^ (1l << j)); } for (auto t : T) for (auto n : S) other(n, t); if (T[a] && T[a] < 0x7fffffff) other(T[a], S[b]); spit(fname, "x"); mc::outcome("told apart");
}
// ---- content types -------------------------------------------------------------------------------------
static string type_of(const char *f) { return onion_mime_get(f); }
static void check_mime(const string &text, const string &what) {
  string mf = mc::scratch() + "/mime"; spit(mf, text); mimefile = mf; onion_mime_set(nullptr); std::map<string, std::set<string>> ref; size_t p = 0; bool last_known = true; std::set<string> skip; (void)last_known;
  while (p < text.size()) { size_t e = text.find('\n', p); if (e == string::npos) e = text.size(); string l = text.substr(p, e - p); p = e + 1; size_t c = l.find('#'); if (c != string::npos) l = l.substr(0, c); vector<string> w; size_t q = 0; bool lead = !l.empty() && isspace((unsigned char)l[0]); while (q < l.size()) { while (q < l.size() && isspace((unsigned char)l[q])) q++; size_t s = q; while (q < l.size() && !isspace((unsigned char)l[q])) q++; if (q > s) w.push_back(l.substr(s, q - s)); } if (lead) { for (auto &x : w) skip.insert(x); continue; } for (size_t i = 1; i < w.size(); i++) { ref[w[i]].insert(w[0]); if (w[0].size() > 120) skip.insert(w[i]); for (size_t j = 1; j <= i; j++) if (w[j].size() > 60) skip.insert(w[i]); } }
  for (auto &e : ref) { string f = "/x.y/name." + e.first; if (e.first.find('.') != string::npos || skip.count(e.first)) continue; string t = type_of(f.c_str()); if (!e.second.count(t)) fail("%s: extension %s is %s and not %s", what.c_str(), e.first.c_str(), t.c_str(), e.second.begin()->c_str()); for (size_t l = 1; l < e.first.size(); l++) { string pre = e.first.substr(0, l); if (!ref.count(pre) && !skip.count(pre) && (l < 5 || l + 3 > e.first.size() || l == 7) && type_of(("a." + pre).c_str()) != "text/plain") fail("%s: extension %s is not known and is %s", what.c_str(), pre.c_str(), type_of(("a." + pre).c_str()).c_str()); } }
  for (const char *f : {"noext", "a.zzz", "a.", "", ".", "a/b.c/d"}) { string x = f; size_t d = x.rfind('.'); string ext = d == string::npos ? x : x.substr(d + 1); if (!ref.count(ext) && !skip.count(ext) && type_of(f) != "text/plain") fail("%s: %s is %s", what.c_str(), f, type_of(f).c_str()); }
  mc::state(mc::hash(text));
}
static void mime() { // every small mime.types
  static const char *tok[] = {"t/a", "t/b", "e", "f", "html", " ", "\t", "\n", "#", "webmanifest", "e2"}; vector<int> pre; for (int i = 0; i < 2; i++) pre.push_back(choose(11)); mc::shard(); int n = mc::thorough() ? 6 : 5; std::function<void(string, int)> rec = [&](string t, int left) { check_mime(t, esc(t)); if (left) for (auto x : tok) rec(t + x, left - 1); }; rec(string("t/x\tknown\n") + tok[pre[0]] + tok[pre[1]], n - 2); onion_mime_set(nullptr); mimefile = ""; setmime(); mc::outcome("parsed");
}
static void mime_lengths() { int k = choose(3); mc::shard(); for (int l = 1; l < 200; l++) { string L(l, 'l'); string t = k == 0 ? "t/" + L + " aa bb\nt/n next\n" : k == 1 ? "t/m aa " + L + " bb\nt/n next\n" : "t/m " + L + "\nt/n next"; mc::note("kind %d length %d", k, l); check_mime(t, mc::strf("kind %d length %d", k, l)); } onion_mime_set(nullptr); mimefile = ""; setmime(); mc::outcome("parsed"); }
static void mime_update() { // histories of updates
  onion_mime_set(onion_dict_new()); std::map<string, string> m; string h; int n = mc::thorough() ? 6 : 5; static const char *E[] = {"a", "b", "ab"}, *T[] = {"t/1", "t/2"}; for (int i = 0; i < n; i++) { int o = choose(9); if (i == 1) mc::shard(); string e = E[o % 3]; if (o < 6) { char t[8], x[8]; strcpy(t, T[o / 3]); strcpy(x, e.c_str()); onion_mime_update(x, t); memset(t, 'z', 3); memset(x, 'z', 1); m[e] = T[o / 3]; } else { onion_mime_update(e.c_str(), nullptr); m.erase(e); } h += mc::strf("%d ", o); mc::note("%s", h.c_str()); for (auto q : E) { string t = type_of((string("f.") + q).c_str()), w = m.count(q) ? m[q] : "text/plain"; if (t != w) fail("extension %s is %s and not %s", q, t.c_str(), w.c_str()); } } mc::outcome_h(mc::hash(h)); onion_mime_set(nullptr); setmime();
}
static void others() { // not files
  int k = choose(3); mc::shard(); string keep = fname; if (k == 0) fname = mc::scratch(); if (k == 1) fname = mc::scratch() + "/nothing"; if (k == 2) fname = mc::scratch() + "/" + string(300, 'x'); { Conn c(*sv); int fds = mc::open_fds(); c.feed(request(0, nullptr)); if (hret != OCS_NOT_PROCESSED) fail("not a file and the handler answered %d", hret); Resp r = parse_response(c.out, 0, false, !c.open); if (r.code != 404) fail("answered %d", r.code); if (mc::open_fds() != fds) fail("descriptor leaked"); } fname = keep; mc::outcome("404");
}
static void dates() { // date strings for every day of 1970-2106, and guard bytes
  int part = choose(8); mc::shard(); for (time_t d = part; d < 49700; d += 8) for (time_t off : {0, 86399, 43201}) { time_t t = d * 86400 + off; char b[40], i[40]; memset(b, 'G', sizeof b); memset(i, 'G', sizeof i); onion_shortcut_date_string(t, b); onion_shortcut_date_string_iso(t, i); struct tm tm; gmtime_r(&t, &tm); char w[64], wi[64]; static const char *D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; snprintf(w, sizeof w, "%s, %02d %s %04d %02d:%02d:%02d GMT", D[tm.tm_wday], tm.tm_mday, M[tm.tm_mon], tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec); snprintf(wi, sizeof wi, "%04d-%02d-%02dT%02d:%02d:%02dZ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec); b[39] = i[39] = 0; if (strcmp(b, w)) fail("date %ld is %s and not %s", (long)t, b, w); if (strcmp(i, wi)) fail("date %ld is %s and not %s", (long)t, i, wi); if (b[32] != 'G' || i[21] != 'G') fail("wrote over the size promised"); mc::state(t); } mc::outcome("right");
}
// ---- directory listings --------------------------------------------------------------------------------------
static bool js_string(const string &s, size_t &p, string &out) { if (p >= s.size() || (s[p] != '\'' && s[p] != '"')) return false; char q = s[p++]; out.clear(); while (p < s.size() && s[p] != q) { if (s[p] == '\n') return false; if (s[p] == '<' || s[p] == '>') fail("markup in a name of the listing"); if (s[p] != '\\') { out += s[p++]; continue; } p++; if (p >= s.size()) return false; char c = s[p++]; if (c == 'x') { out += (char)strtol(s.substr(p, 2).c_str(), 0, 16); p += 2; } else if (c == 'u') { long u = strtol(s.substr(p, 4).c_str(), 0, 16); p += 4; if (u > 255) return false; out += (char)u; } else if (c == 'n') out += '\n'; else if (c == 't') out += '\t'; else if (c == 'r') out += '\r'; else if (c == 'b') out += '\b'; else if (c == 'f') out += '\f'; else if (strchr("'\"\\/<>&", c)) out += c; else return false; } if (p >= s.size()) return false; p++; return true; }
static std::map<string, string> parse_listing(const string &b) { // name -> kind + size
  std::map<string, string> r; size_t p = b.find("files=["); if (p == string::npos) fail("no listing: %s", esc(b.substr(0, 200)).c_str()); p += 7; while (true) { while (p < b.size() && strchr(" \n,", b[p])) p++; if (p >= b.size()) fail("the listing does not end"); if (b[p] == ']') break; if (b[p] != '[') fail("unexpected text in the listing: %s", esc(b.substr(p, 80)).c_str()); p++; if (b[p] == ']') { p++; continue; } string name, owner, kind; if (!js_string(b, p, name)) fail("broken name in the listing: %s", esc(b.substr(p, 80)).c_str()); if (b[p] != ',') fail("broken entry after %s", esc(name).c_str()); size_t e = b.find(',', p + 1); string size = b.substr(p + 1, e - p - 1); p = e + 1; if (!js_string(b, p, owner) || b[p] != ',') fail("broken owner"); p++; if (!js_string(b, p, kind) || b[p] != ']') fail("broken kind"); p++; if (r.count(name)) fail("%s is listed twice", esc(name).c_str()); r[name] = kind + " " + size; } return r; }
static Server *ls; static string ldir; static void init_list() { ldir = mc::scratch() + "/list"; mkdir(ldir.c_str(), 0755); ls = new Server(); onion_set_root_handler(ls->o, onion_handler_export_local_new(ldir.c_str())); onion_mime_set(onion_dict_new()); }
static void rmtree(const string &d) { DIR *x = opendir(d.c_str()); if (!x) return; while (dirent *e = readdir(x)) { string n = e->d_name; if (n == "." || n == "..") continue; string p = d + "/" + n; struct stat st; lstat(p.c_str(), &st); if (S_ISDIR(st.st_mode)) { rmtree(p); rmdir(p.c_str()); } else unlink(p.c_str()); } closedir(x); }
static void list_check(const string &url, const string &dir, const string &what) { std::map<string, string> want; DIR *x = opendir(dir.c_str()); while (dirent *e = readdir(x)) { string n = e->d_name; if (n[0] == '.') continue; struct stat st; string p = dir + "/" + n; if (stat(p.c_str(), &st)) lstat(p.c_str(), &st); bool d = S_ISDIR(st.st_mode); want[d ? n + "/" : n] = string(d ? "dir " : "file ") + std::to_string((long)st.st_size); } closedir(x);
  Conn c(*ls); c.feed("GET " + url + " HTTP/1.1\r\n\r\n"); Resp r = parse_response(c.out, 0, false, !c.open); if (r.code != 200 || r.incomplete) fail("%s: listing answers %d", what.c_str(), r.code); auto got = parse_listing(r.body); for (auto &e : want) if (!got.count(e.first)) fail("%s: %s is not listed", what.c_str(), esc(e.first).c_str()); else if (got[e.first] != e.second) fail("%s: %s is listed as %s and is %s", what.c_str(), esc(e.first).c_str(), got[e.first].c_str(), e.second.c_str()); if (got.size() != want.size()) fail("%s: %zu entries listed of %zu", what.c_str(), got.size(), want.size());
  string t; size_t a = r.body.find("<title>"), b = r.body.find("</title>"); if (a == string::npos || b == string::npos) fail("%s: no title", what.c_str()); t = r.body.substr(a + 7, b - a - 7); size_t h1 = r.body.find("<h1>"), h2 = r.body.find("</h1>"); string h = h1 == string::npos ? "" : r.body.substr(h1 + 4, h2 - h1 - 4); if (t.find_first_of("<>\"") != string::npos || h.find_first_of("<>\"") != string::npos) fail("%s: markup in the title: %s / %s", what.c_str(), esc(t).c_str(), esc(h).c_str()); }
static string urlq(const string &s) { string r; for (unsigned char c : s) r += c == '/' ? string("/") : mc::strf("%%%02x", c); return r; }
static void list_names() { int c = choose(256), kind = choose(3); mc::shard(); if (!c || c == '/') return; rmtree(ldir); for (const string &n : {string(1, c), "a" + string(1, c) + "b", string(3, c)}) { if (n == "." || n == "..") continue; string p = ldir + "/" + n; if (kind == 0) spit(p, string(c, 'x')); else if (kind == 1) mkdir(p.c_str(), 0755); else if (symlink("nowhere", p.c_str())) fail("symlink"); } mc::note("byte %d kind %d", c, kind); list_check("/", ldir, "root"); if (kind == 1) { for (const string &n : {string(1, c), "a" + string(1, c) + "b"}) { if (n == "." ) continue; spit(ldir + "/" + n + "/in", "x"); list_check("/" + urlq(n) + "/", ldir + "/" + n, "directory " + esc(n)); list_check("/" + urlq(n), ldir + "/" + n, "directory " + esc(n)); } } mc::outcome("listed"); }
static void list_nasty() { static const char *N[] = {"';alert(1)//", "<script>", "</script><b>", "\\", "a\\'", "\\x41", "&lt;", "\"><b", "a'b\"c", "%41", "new\nline", "\xc3\xa9", "' ,0,'', 'x'],["}; int m = choose(1 << 6), sh = choose(2), dir = choose(2); mc::shard(); rmtree(ldir); string what; for (int i = 0; i < 6; i++) if (m & (1 << i)) { string n = N[i * 2 + sh + (i == 5 && sh ? 1 : 0)]; string q = n; for (char &ch : q) if (ch == '/') ch = '_'; what += q + " "; if (dir) mkdir((ldir + "/" + q).c_str(), 0755); else spit(ldir + "/" + q, "1"); } mc::note("%s", esc(what).c_str()); list_check("/", ldir, esc(what)); if (dir) for (int i = 0; i < 6; i++) if (m & (1 << i)) { string q = N[i * 2 + sh + (i == 5 && sh ? 1 : 0)]; for (char &ch : q) if (ch == '/') ch = '_'; list_check("/" + urlq(q), ldir + "/" + q, "directory " + esc(q)); } mc::outcome_h(m * 4 + sh * 2 + dir); }
static void list_lengths() { int depth = choose(7), k = choose(2); mc::shard(); rmtree(ldir); string d = ldir, u = "/"; for (int i = 0; i < depth; i++) { d += "/" + string(240, 'a' + i); mkdir(d.c_str(), 0755); u += string(240, 'a' + i) + "/"; } for (int l = 1 + k; l <= 255; l += mc::thorough() ? 2 : 6) { spit(d + "/" + string(l, 'n'), string(l, 'x')); } mc::note("%d levels", depth); list_check(u, d, mc::strf("directory at depth %d", depth)); mc::outcome("listed"); }
int main(int c, char **v) {
  mc::rule("Files of sizes around every buffer, served by onion_shortcut_response_file through the real request code; every range around the file's limits and every short Range text; every single (thorough: pair) short, failed or interrupted read, write or sendfile; every change of the file at every step; histories of changes and conditional requests; every small mime.types.");
  mc::assume("Etags distinguish versions that differ in size or modification time in seconds.");
  mc::add("ranges around every limit", ranges, true, init); mc::add("every range of small files", grid, true, init); mc::add("any text as range", malformed, true, init); mc::add("any length of range and condition", lengths, true, init); mc::add("every outcome of each system call", transport, true, init); mc::add("every size over a socket", no_fault_closes, true, init); mc::add("file changes while sent", changes, true, init); mc::add("conditional histories", conditional, true, init); mc::add("bits of tags", tag_bits, true, init);
  mc::add("mime.types", mime, true, init); mc::add("mime.types lengths", mime_lengths, true, init); mc::add("mime updates", mime_update, true, init); mc::add("not files", others, true, init); mc::add("dates", dates, true, init); mc::add("listings with any byte in names", list_names, true, init_list); mc::add("listings with odd names", list_nasty, true, init_list); mc::add("listings with long paths", list_lengths, true, init_list); return mc::main(c, v);
}
