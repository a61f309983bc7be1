// P05: uploads: fields and files arrive byte for byte; temporary files and descriptors are released at the end or on abort.
#include "corpus.hpp"
using namespace onh; using mc::choose;
static Server *sv; static vector<Seen> got;
namespace onh { extern bool tmp_fail; }
static int on_request(onion_request *req, onion_response *res) { got.push_back(observe(req)); for (auto &f : got.back().tmpfiles) if (!exists(f)) fail("uploaded file %s does not exist while the handler runs", f.c_str()); onion_response_write0(res, "ok"); return OCS_PROCESSED; }
static void init() { sv = new Server(on_request); tmp_made.reserve(100000); }
static void balanced(const char *when, int fds) { string l = tmp_left(); bool left = !l.empty(); tmp_reset(); if (left) fail("temporary file %s left %s", l.c_str(), when); if (mc::open_fds() != fds) fail("%d descriptors leaked %s", mc::open_fds() - fds, when); }
static bool deliver(const string &w, size_t cut, int unit) { // cut: split there; unit>0: pieces of that size
  got.clear(); int fds = mc::open_fds();
  { Conn c(*sv); bool a = true; if (unit) for (size_t i = 0; i < w.size() && a; i += unit) a = c.feed(w.substr(i, unit)); else { if (cut) a = c.feed(w.substr(0, cut)); if (a) a = c.feed(w.substr(cut)); }
    string l = tmp_left(); if (a && !l.empty()) { tmp_reset(); fail("temporary file %s left after the request was answered, connection still open", l.c_str()); } }
  balanced("after the request", fds); return !got.empty();
}
static const string CD = "Content-Disposition: form-data; ";
static KV sorted(KV v) { std::sort(v.begin(), v.end()); return v; }
static void content() { // any content, also one made of pieces of the boundary
  bool file = mc::flip(); int nb = choose(2); static const char *bs[] = {"b", "-b"}; string b = bs[nb], al = "\r\n-bx", s; int n = mc::thorough() ? 8 : 6;
  for (int i = 0; i < n; i++) { int c = choose(6); if (i == 1) mc::shard(); if (!c) { if (i < 1) mc::shard(); break; } s += al[c - 1]; }
  string t = s + "\r\n--" + b; if (t.find("\n--" + b) != s.size() + 1) mc::prune(); if (s.compare(0, 2 + b.size(), "--" + b) == 0) mc::prune();
  Msg m = post_multipart("", b, b, {part(CD + "name=\"n\"" + (file ? "; filename=\"fn\"" : ""), s), part(CD + "name=\"last\"", "z")});
  size_t start = m.wire.find(s + "\r\n--" + b, m.wire.find(CD)); int mode = choose((int)s.size() + 3 + (int)b.size() + 4);
  size_t cut = mode == 0 ? 0 : mode == 1 ? 0 : start + mode - 2; mc::note("content %s boundary %s %s, cut at %zu%s", esc(s).c_str(), b.c_str(), file ? "file" : "field", cut, mode == 1 ? " byte by byte" : "");
  if (!deliver(m.wire, cut, mode == 1 ? 1 : 0)) fail("refused");
  KV post = sorted({{"last", "z"}, {"n", file ? "fn" : s}}), files; if (file) files.push_back({"n", s});
  if (got[0].post != post || got[0].files != files) fail("received: %s", got[0].text().c_str());
  mc::outcome_h(mc::hash(got[0].text()));
}
static void names() { // names and file names, quoted or not, in any order, with any other parameter around
  static const char *vals[] = {"n", "a b", "a;b", "a=b", "name", "filename", "x.txt", "", "a\\b/c", "\xc3\xb1", "--b", "name=x"}; int a = choose(12), f = choose(13); mc::shard(); int q = choose(4), ord = choose(4), sp = choose(3);
  auto ok = [](const string &s, bool quoted) { return quoted || (!s.empty() && s.find_first_of("; =") == string::npos); };
  string nm = vals[a], fn = f < 12 ? vals[f] : ""; bool file = f < 12; if (!ok(nm, q & 1) || (file && !ok(fn, q & 2))) return;
  string P1 = "name=" + ((q & 1) ? "\"" + nm + "\"" : nm), P2 = file ? "filename=" + ((q & 2) ? "\"" + fn + "\"" : fn) : ""; string S = sp == 0 ? "; " : sp == 1 ? ";" : " ;\t"; if (sp == 2 && q != 3) return;
  string h = "Content-Disposition: form-data"; if (ord == 0 || ord == 2) h += S + P1 + (file ? S + P2 : ""); else h += (file ? S + P2 : "") + S + P1; if (ord >= 2) h += "\r\nContent-Type: text/plain; name=\"zz\"; filename=\"yy\"";
  string cont = "some\r\ncontent"; Msg m = post_multipart("", "b", "b", {part(h, cont)}); mc::note("%s", esc(h).c_str());
  if (!deliver(m.wire, 0, mc::flip())) fail("refused");
  KV post = {{nm, file ? fn : cont}}, files; if (file) files.push_back({nm, cont});
  if (got[0].post != post || got[0].files != files) fail("received: %s", got[0].text().c_str());
  mc::outcome_h(mc::hash(got[0].text()));
}
static void parts() { // sequences of parts
  static const char *cont[] = {"", "v", "\r\n", "0123456789abcdef0123456789\r\n--c\r\n"}; int n = choose(mc::thorough() ? 6 : 5); vector<string> ps; KV post, files; 
  for (int i = 0; i < n; i++) { int nm = choose(2), file = choose(2), c = choose(4); if (i == 0) mc::shard(); string name = nm ? "a" : "b"; ps.push_back(part(CD + "name=\"" + name + "\"" + (file ? mc::strf("; filename=\"f%d\"", i) : ""), cont[c])); if (file) { post.push_back({name, mc::strf("f%d", i)}); files.push_back({name, cont[c]}); } else post.push_back({name, cont[c]}); }
  if (!n) mc::shard(); Msg m = post_multipart("", "bOuNd", "bOuNd", ps); mc::note("%s", esc(m.wire).c_str());
  if (!deliver(m.wire, 0, mc::choose(3))) fail("refused");
  if (got[0].post != sorted(post) || got[0].files != sorted(files)) fail("received: %s", got[0].text().c_str());
  mc::outcome_h(mc::hash(got[0].text()));
}
static void sizes() { // every size of content around the buffers used to copy it
  static const int base[] = {0, 1000, 1400, 2040, 2900, 4000}; int L = base[choose(6)] + choose(mc::thorough() ? 500 : 130); mc::shard(); int kind = choose(3), unit = choose(4); static const int us[] = {0, 1, 700, 1024}; string s; for (int i = 0; i < L; i++) s += (char)("\r\n-bqwe"[(i * i + i / 5) % 7]); { size_t p; while ((p = s.find("\n--b")) != string::npos) s[p + 1] = 'x'; if (!s.empty()) s[0] = 'x'; }
  string w; if (kind == 2) w = "PUT /x HTTP/1.1\r\nContent-Length: " + std::to_string(L) + "\r\n\r\n" + s; else w = post_multipart("", "b", "b", {part(CD + "name=\"n\"" + (kind ? "; filename=\"fn\"" : ""), s)}).wire;
  mc::note("content of %d bytes, kind %d, pieces of %d", L, kind, us[unit]); if (!deliver(w, 0, us[unit])) fail("refused");
  KV post, files; if (kind == 0) post = {{"n", s}}; if (kind == 1) { post = {{"n", "fn"}}; files = {{"n", s}}; } if (kind == 2) files = {{"filename", s}};
  if (got[0].post != post || got[0].files != files) fail("received content differs");
  mc::outcome_h(L * 4 + kind);
}
static vector<Msg> upl() { vector<Msg> r; for (auto &m : corpus()) if (m.name.compare(0, 3, "mp-") == 0 || m.name.compare(0, 3, "put") == 0) r.push_back(m); return r; }
static vector<Msg> ul;
static void init2() { init(); ul = upl(); }
static void aborts() { // the client goes away after any number of bytes
  int k = choose(ul.size()); size_t n = ul[k].wire.size() <= 500 ? choose(ul[k].wire.size() + 1) : choose(250) + (mc::flip() ? 0 : ul[k].wire.size() - 249); mc::shard(); int unit = choose(3); mc::note("%s cut after %zu of %zu bytes", ul[k].name.c_str(), n, ul[k].wire.size()); got.clear(); int fds = mc::open_fds();
  for (int how = 0; how < 2; how++) { Conn c(*sv); bool a = true; string w = ul[k].wire.substr(0, n); if (unit == 0) { if (n) a = c.feed(w); } else for (size_t i = 0; i < w.size() && a; i += unit) a = c.feed(w.substr(i, unit)); if (a && how) c.eof(); c.close(); balanced("after the client left", fds); }
  mc::outcome(mc::strf("%s %zu", ul[k].name.c_str(), got.size()));
}
static int fault_at, fault_kind, nwr; // faults in the writes to the temporary file
extern "C" ssize_t __real_write(int fd, const void *b, size_t n);
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) { if (fault_kind && ++nwr == fault_at && n > 0) { switch (fault_kind) { case 1: errno = ENOSPC; return -1; case 2: return __real_write(fd, b, n > 1 ? n / 2 : n); case 3: errno = EINTR; return -1; } } return __real_write(fd, b, n); }
static void faults() { // disk full, short write, interrupted write, no temporary file: the content arrives whole or the request is refused
  int k = choose(ul.size()); if (!ul[k].ok) mc::prune(); int at = 1 + choose(6); int kind = choose(4); mc::shard(); int unit = choose(2) ? 100 : 0; mc::note("%s, fault %d at write %d", ul[k].name.c_str(), kind, at);
  got.clear(); deliver(ul[k].wire, 0, unit); if (got.empty()) fail("refused without fault"); Seen ref = got[0]; got.clear();
  int fds = mc::open_fds(); nwr = 0; fault_at = at; fault_kind = kind; if (kind == 0) { if (at > 1) return; tmp_fail = true; }
  { Conn c(*sv); bool a = true; const string &w = ul[k].wire; if (unit) for (size_t i = 0; i < w.size() && a; i += unit) a = c.feed(w.substr(i, unit)); else a = c.feed(w); }
  bool hit = kind == 0 || nwr >= at; fault_kind = 0; tmp_fail = false; balanced("after a fault", fds);
  if (!got.empty() && got[0].text() != ref.text()) fail("a fault in the temporary file changed what the handler saw\n%s\n%s", ref.text().c_str(), got[0].text().c_str());
  if (got.empty() && (!hit || kind == 2)) fail("refused although nothing failed for good"); mc::outcome(mc::strf("%d %d %zu", kind, hit, got.size()));
}
int main(int argc, char **argv) {
  mc::rule("multipart and PUT uploads: every content over the letters of the boundary x every cut inside it; every abort point; every single fault of the temporary file");
  mc::add("content made of boundary pieces", content, true, init); mc::add("names and file names", names, true, init); mc::add("sequences of parts", parts, true, init); mc::add("content of every size", sizes, true, init); mc::add("aborted uploads", aborts, true, init2); mc::add("faults of the temporary file", faults, true, init2);
  return mc::main(argc, argv);
}
