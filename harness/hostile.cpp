// P03: no sequence of bytes from a client corrupts memory, hangs the server, or makes it leak memory, files or descriptors.
#include "corpus.hpp"
using namespace onh; using mc::choose;
static Server *sv; static vector<Msg> ms; static int nreq; static uint64_t sig;
static int on_request(onion_request *req, onion_response *res) {
  nreq++; Seen s = observe(req); sig = mc::hash(s.text().data(), s.text().size(), sig);
  const char *l = onion_request_get_language_code(req); onion_low_free((void *)l);
  onion_request_get_cookie(req, "a"); onion_request_get_post(req, "n"); onion_request_get_file(req, "f"); onion_request_get_query(req, "a"); onion_request_get_client_description(req);
  onion_response_write0(res, onion_request_get_fullpath(req)); return OCS_PROCESSED;
}
static void init() { ms = corpus(); sv = new Server(on_request); tmp_made.reserve(100000); onion_set_max_post_size(sv->o, 20000); onion_set_max_file_size(sv->o, 20000); }
static void once(const string &w, int mode) {
  nreq = 0; sig = 1; Conn c(*sv); bool alive = true;
  if (mode == 0) alive = c.feed(w); else for (size_t i = 0; i < w.size() && alive; i += mode) alive = c.feed(w.substr(i, mode));
  if (alive) alive = c.feed("\r\n\r\n"); if (alive) c.feed("GET / HTTP/1.0\r\n\r\n");
  sig = mc::hash(&nreq, sizeof nreq, sig); c.close();
}
static void hit(const string &w, int mode) {
  mc::note("%s, %d bytes at a time", esc(w.substr(0, 700)).c_str(), mode);
  int fds = mc::open_fds(); size_t n0 = mc::live_bytes(); once(w, mode); string left = tmp_left(); tmp_reset(); size_t n1 = mc::live_bytes();
  if (!left.empty()) fail("temporary file %s left behind", left.c_str());
  if (mc::open_fds() != fds) fail("%d descriptors leaked", mc::open_fds() - fds);
  if (n1 > n0) { size_t a = mc::live_bytes(); once(w, mode); tmp_reset(); size_t b = mc::live_bytes(); once(w, mode); tmp_reset(); size_t d = mc::live_bytes(); if (b > a && d > b) fail("%zu bytes leaked each time", d - b); }
  mc::outcome_h(sig);
}
static const char CL[] = {0, '\r', '\n', ' ', '\t', ':', '=', '&', '%', '?', '"', ';', '-', '/', 'a', '0', '9', (char)0xff, 'b', ','};
static vector<size_t> spots(const string &w) { vector<size_t> v; if (w.size() <= 420) { for (size_t i = 0; i < w.size(); i++) v.push_back(i); return v; } std::set<size_t> s; auto near = [&](long c, int d) { for (long i = c - d; i <= c + d; i++) if (i >= 0 && i < (long)w.size()) s.insert(i); }; near(0, 130); near(w.size(), 60); near(1500, 3); near(8191, 3); return vector<size_t>(s.begin(), s.end()); }
static void edit_at(string &w, size_t p) {
  int how = choose(2 * sizeof CL + 5);
  if (how < (int)sizeof CL) w[p] = CL[how]; else if (how < 2 * (int)sizeof CL) w.insert(p, 1, CL[how - sizeof CL]);
  else switch (how - 2 * sizeof CL) { case 0: w.erase(p, 1); break; case 1: w.resize(p); break; case 2: w.insert(p, 1, w[p]); break; case 3: w.erase(p, 4); break; case 4: w.insert(p, w.substr(p, 12)); break; }
}
static void one_edit() { int k = choose(ms.size()); vector<size_t> sp = spots(ms[k].wire); size_t p = sp[choose(sp.size())]; mc::shard(); string w = ms[k].wire; edit_at(w, p); int mode = choose(2); if (mode && w.size() > 4000 && !mc::thorough()) mode = 7; hit(w, mode); }
static void two_edits() { int k = choose(ms.size()); if (ms[k].wire.size() > 150) mc::prune(); string w = ms[k].wire; size_t p = choose(w.size()); mc::shard(); edit_at(w, p); size_t q = p + 1 + choose(6); if (q >= w.size()) mc::prune(); edit_at(w, q); hit(w, 0); }
static void raw() { string w; int n = mc::thorough() ? 5 : 4; for (int i = 0; i < n; i++) { int c = choose(sizeof CL + 1); if (i == 1) mc::shard(); if (!c) { if (i < 1) mc::shard(); break; } w += CL[c - 1]; } static const char *pre[] = {"", "GET ", "GET / HTTP/1.1", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA:", "GET / HTTP/1.1\r\nA: b\r\n"}; int p = choose(6); hit(pre[p] + w, choose(2)); }
static void lengths() { // declared lengths and types that lie
  static const char *cl[] = {"", "-1", "0", "1", "5", "6", "19999", "20000", "20001", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "abc", "5abc", "0x10", " 5", "+5", "-9223372036854775808"};
  static const char *ct[] = {"", "application/x-www-form-urlencoded", "multipart/form-data; boundary=b", "multipart/form-data; boundary=", "multipart/form-data; boundary", "multipart/form-data; boundary=\"", "multipart/form-data; boundary=\"\"", "boundary=b;boundary=c", "multipart/form-data", "application/json", "application/x-www-form-urlencoded; boundary=b"};
  static const char *me[] = {"POST", "PUT", "GET", "PROPFIND", "HEAD"};
  static const char *bo[] = {"", "a=b&c", "--b\r\n\r\n", "--b\r\nContent-Disposition: form-data; name=\"n\"\r\n\r\nv\r\n--b--\r\n", "--b\r\nContent-Disposition: form-data; name=\"n\"; filename=\"f\"\r\n\r\nv\r\n--b--", "--b--", "--\r\n", "--b\r\nContent-Disposition: name=\"\r\n\r\n\r\n--b--"};
  int a = choose(25), b = choose(11), m = choose(5); mc::shard(); int c = choose(8), mode = choose(3); string body = bo[c]; if (mode == 2) { body += rep("x\r\n", 8000); mode = 0; }
  hit(string(me[m]) + " /x HTTP/1.1\r\n" + (*ct[b] ? string("Content-Type: ") + ct[b] + "\r\n" : "") + "Content-Length: " + cl[a] + "\r\n\r\n" + body, mode);
}
static void longs() { // every element at lengths around the internal limits, in pieces of several sizes
  int el = choose(17); static const int base[] = {8191, 16383, 1500, 4096, 1024, 20000}; int L = base[choose(6)] - 4 + choose(mc::thorough() ? 40 : 9); mc::shard(); static const int md[] = {0, 1, 2, 3, 1499, 8191}; int mode = md[choose(6)]; if (mode && mode < 4 && L > 9000 && !mc::thorough()) return;
  int fill = choose(2); string x = rep(fill ? "%" : "a", L), w; const string CD = "--b\r\nContent-Disposition: form-data; ", MP = "POST / HTTP/1.1\r\nContent-Length: 100000\r\nContent-Type: multipart/form-data; boundary=b\r\n\r\n";
  switch (el) {
  case 0: w = x; break; case 1: w = "GET /" + x; break; case 2: w = "GET / " + x; break; case 3: w = "GET / HTTP/1.1\r\n" + x; break; case 4: w = "GET / HTTP/1.1\r\nA:" + x; break;
  case 5: w = "GET / HTTP/1.1\r\nA: b\r\n " + x + "\r\n c\r\n d"; break; case 6: w = "GET / HTTP/1.1\r\nA: " + rep("b\r\n ", L / 2); break; case 7: w = "GET /?" + x + "=" + x; break;
  case 8: w = MP + "--b\r\n" + x; break; case 9: w = MP + CD + "name=" + x + "\r\n\r\nv\r\n--b--"; break; case 10: w = MP + CD + "name=\"n\"; filename=\"" + x + "\"\r\n\r\nv\r\n--b--"; break; case 11: w = "POST / HTTP/1.1\r\nContent-Length: 30000\r\nContent-Type: multipart/form-data; boundary=" + x + "\r\n\r\n--" + x + "\r\n"; break;
  case 12: w = "GET / HTTP/1.1\r\nCookie: " + x + "=" + x + ";"; break; case 13: w = MP + "--b\r\nX: " + x + "\r\n" + CD.substr(5) + "name=n\r\n\r\n" + x + "\r\n--b--"; break; case 14: w = MP + CD + "name=n\r\n\r\n" + rep("\r\n--", L / 4) + "\r\n--b--"; break;
  case 15: w = "GET / HTTP/1.1\r\nA:" + rep(" ", L) + "\r\n" + rep("\t", L) + "\r\n"; break; case 16: w = MP + rep((CD + "name=n\r\n\r\nv\r\n").c_str(), L / 50); break; }
  hit(w, mode);
}
int main(int argc, char **argv) {
  mc::rule("every neighbour of a valid message at edit distance one (two in the thorough tier), every short byte string after every protocol prefix, every element at the internal length limits; judged by AddressSanitizer, termination, and balance of memory, descriptors and temporary files");
  mc::add("one edit anywhere", one_edit, true, init); mc::add("short byte strings", raw, true, init); mc::add("lying lengths and types", lengths, true, init); mc::add("long elements", longs, true, init); mc::add("two edits near each other", two_edits, false, init);
  return mc::main(argc, argv);
}
