// P01: what a handler sees of a request does not depend on how TCP cut it into pieces.
#include "corpus.hpp"
using namespace onh; using mc::choose;
static Server *sv; static vector<Msg> ms; static vector<Seen> got;
static int on_request(onion_request *req, onion_response *res) { got.push_back(observe(req)); onion_response_write0(res, "ok"); return OCS_PROCESSED; }
static void init() { ms = corpus(); sv = new Server(on_request); }
struct Result { string text; };
// feeds wire cut after each position in cuts (ascending). Returns a description of all that happened.
static string run(const Msg &m, const vector<size_t> &cuts, const char *&why) {
  got.clear(); string r; size_t tmp0 = tmp_made.size(); (void)tmp0; why = nullptr;
  {
    Conn c(*sv); size_t p = 0; bool alive = true; size_t need = m.wire.size() - m.epilogue;
    for (size_t i = 0; i <= cuts.size() && alive; i++) {
      size_t e = i < cuts.size() ? cuts[i] : m.wire.size(); if (e <= p) continue;
      if (m.ok && !got.empty() && p < need) { why = "the handler was called before the request was complete"; break; }
      alive = c.feed(m.wire.substr(p, e - p)); p = e;
      if (m.ok && got.empty() && p >= need) { why = "the request is complete and the handler was not called"; break; }
    }
    for (auto &g : got) r += g.text();
    r += mc::strf("%zu requests; ", got.size());
    bool keep = got.size() == 1 && got[0].keep;
    if (!why && keep) {
      if (!alive) r += "closed although keep alive; ";
      else { c.feed("GET /second?x=y HTTP/1.1\r\nHost: z\r\n\r\n"); r += mc::strf("then %zu requests: ", got.size()); if (got.size() == 2) r += got[1].text(); }
    } else r += alive ? "open" : "closed";
    c.close();
    size_t off = 0; int n = 0; while (off < c.out.size()) { Resp x = parse_response(c.out, off, got[n < (int)got.size() ? n : 0].method == "HEAD", true); n++; if (!x.err.empty()) { r += "bad response " + x.err; break; } r += mc::strf(" [%d %s]", x.code, x.body.c_str()); if (x.used <= off) break; off = x.used; }
  }
  string left = tmp_left(); tmp_reset(); if (!left.empty()) r += " temporary file left";
  return r;
}
static string ref(size_t k) { static std::map<size_t, string> cache; auto it = cache.find(k); if (it != cache.end()) return it->second; const char *why; string r = run(ms[k], {}, why); if (why) r += why; bool acc = !got.empty(); if (acc != ms[k].ok) fail("%s sent in one piece: %s\n%s", ms[k].name.c_str(), acc ? "was accepted" : "was refused", r.c_str()); return cache[k] = r; }
static void compare(size_t k, const vector<size_t> &cuts) {
  const char *why; mc::note("message %s, %zu bytes, %zu cuts, first at %zu, %zu\n%s", ms[k].name.c_str(), ms[k].wire.size(), cuts.size(), cuts.empty() ? 0 : cuts[0], cuts.size() > 1 ? cuts[1] : 0, esc(ms[k].wire.substr(0, 600)).c_str());
  string e = ref(k), g = run(ms[k], cuts, why);
  if (why) fail("%s", why);
  if (g != e) fail("in one piece:\n%s\nin pieces:\n%s", e.substr(0, 2000).c_str(), g.substr(0, 2000).c_str());
  mc::outcome_h(mc::hash(g));
}
// where cuts are interesting in a long run of equal bytes: near the ends and near the buffer limits
static vector<size_t> spots(const string &w) {
  vector<size_t> v; if (w.size() <= 420) { for (size_t i = 1; i < w.size(); i++) v.push_back(i); return v; }
  std::set<size_t> s; auto near = [&](long c, int d) { for (long i = c - d; i <= c + d; i++) if (i > 0 && i < (long)w.size()) s.insert(i); };
  near(0, 140); near(w.size(), 60); for (long c : {1024, 1500, 3000, 8191, 8192 + 20}) near(c, 4);
  return vector<size_t>(s.begin(), s.end());
}
static void upto_cuts(int maxcuts, size_t maxlen) {
  int k = choose(ms.size()); if (ms[k].wire.size() > maxlen) mc::prune();
  vector<size_t> sp = spots(ms[k].wire), cuts; size_t from = 0;
  for (int i = 0; i < maxcuts; i++) { int c = choose(sp.size() - from + 1); if (c == 0) { if (i == 0) mc::shard(); break; } cuts.push_back(sp[from + c - 1]); from += c; if (i == 0) mc::shard(); if (from >= sp.size()) break; }
  compare(k, cuts);
}
static void one_or_two() { upto_cuts(2, 1000000); }
static void three() { upto_cuts(3, 160); }
static void bytewise() { // one byte at a time, with up to two places where two adjacent pieces arrive together
  int k = choose(ms.size()); const string &w = ms[k].wire; vector<size_t> sp = spots(w);
  size_t a = choose(sp.size() + 1); mc::shard(); size_t b = w.size() > 1000 ? 0 : choose(a + 1); // b<=a
  std::set<size_t> merged; if (a) merged.insert(sp[a - 1]); if (b) merged.insert(sp[b - 1]);
  vector<size_t> cuts; for (size_t i = 1; i < w.size(); i++) if (!merged.count(i)) cuts.push_back(i);
  compare(k, cuts);
}
static void periodic() { int k = choose(ms.size()), per = 2 + choose(mc::thorough() ? 1600 : 64); mc::shard(); int ph = choose(std::min(per, mc::thorough() ? 64 : 16)); vector<size_t> cuts; for (size_t i = ph ? ph : per; i < ms[k].wire.size(); i += per) cuts.push_back(i); compare(k, cuts); }
int main(int argc, char **argv) {
  mc::rule("client messages reaching every parser state x ways to cut them into pieces; every distinct (message, outcome) counts once");
  mc::add("every pair of cut points", one_or_two, true, init);
  mc::add("byte by byte with any two merges", bytewise, true, init);
  mc::add("pieces of equal size", periodic, true, init);
  mc::add("every three cut points of short messages", three, false, init);
  return mc::main(argc, argv);
}
