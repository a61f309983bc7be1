// P21: the application receives exactly the data the client sent over a websocket, whatever the framing, masking, pieces and control frames in between;
// pings and closes are answered as they should, and the end of the connection is told once.
#include "ws.hpp"
using namespace wst; using mc::choose;
enum { WHOLE, SMALL1, SMALL7, BIG, IGNORE_FIRST, STOP, STRATS };
static int strat; struct Got { int op; string data; long len; }; static vector<Got> got; static int ended, freed; static int calls, limit_calls; static bool blocking_done; static int stop_after; static long last_len; static bool echo; static vector<Frame> echoes;
static onion_connection_status cb(void *p, onion_websocket *ws, ssize_t n) {
  if (p != (void *)&got) fail("the callback gets other user data"); if (n < 0) { if (++ended > 1) fail("told twice about the end"); return OCS_CLOSE_CONNECTION; } if (ended) fail("called after the end"); if (++calls > limit_calls) fail("the callback is called forever");
  int op = onion_websocket_get_opcode(ws); static char buf[1 << 18]; size_t want = strat == WHOLE || strat == STOP ? (size_t)n : strat == SMALL1 ? 1 : strat == SMALL7 ? 7 : strat == BIG ? sizeof buf - 8 : strat == IGNORE_FIRST && calls == 1 ? 0 : (size_t)n; if (strat != BIG && (long)want > n) want = n; if (want > sizeof buf - 8) want = sizeof buf - 8; memset(buf, '#', want + 8 > 2000 ? 2000 : want + 8); memset(buf + want, '#', 8);
  int r = onion_websocket_read(ws, buf, want); if (r > (int)want) fail("read of %zu bytes gives %d", want, r); for (int i = 0; i < 8; i++) if (buf[want + i] != '#') fail("written after the end of the buffer"); if (r > 0 || n == 0) got.push_back({op, string(buf, r > 0 ? r : 0), n});
  if (echo && r > 0 && strat != BIG) { if (onion_websocket_write(ws, buf, r) != r) fail("the echo was not written"); echoes.push_back({op, string(buf, r)}); }
  if (strat == STOP && calls >= stop_after) return OCS_CLOSE_CONNECTION; return OCS_NEED_MORE_DATA;
}
static void unfree(void *p) { freed++; }
struct Result { vector<Frame> sent; bool open; string raw; };
static Result play(const vector<Frame> &, const string &bytes) {
  rx = bytes; rx_pos = 0; got.clear(); ended = freed = calls = 0; reads_at_end = 0; echoes.clear(); limit_calls = 60 + 4 * bytes.size(); in_ws = false; Result res; { Conn c(*sv); c.req->connection.fd = 77; size_t hs = 0; handler = [&](onion_request *q, onion_response *r) { onion_websocket *ws = onion_websocket_new(q, r); if (!ws) fail("no websocket"); onion_websocket_set_userdata(ws, &got, unfree); onion_websocket_set_callback(ws, cb); hs = c.out.size(); in_ws = true; return OCS_WEBSOCKET; };
    bool more = c.feed(HS); in_ws = false; res.open = more && c.open; res.raw = c.out.substr(hs); if (more) fail("the connection goes on as HTTP after the websocket"); }
  string err; bool partial; res.sent = decode(res.raw, err, partial); if (!err.empty() || partial) fail("the client can not understand the answer (%s): %s", err.c_str(), esc(res.raw.substr(0, 200)).c_str()); if (ended != 1) fail("the callback was told %d times about the end", ended); if (freed != 1) fail("the user data was freed %d times", freed); return res;
}
// what must happen, up to the first frame that ends the conversation or the end of the bytes
struct Expect { string data; vector<std::pair<int, string>> msgs; vector<Frame> answers; bool closed = false; };
static Expect expect(const vector<Frame> &fs, size_t avail) { Expect e; size_t p = 0; for (auto &f : fs) { string b = encode(f); size_t hl = b.size() - f.data.size(); if (p + hl > avail) break; size_t have = std::min(f.data.size(), avail - p - hl); if (f.op == OWS_PING) { if (f.data.size() > 125) { e.closed = true; break; } if (have == f.data.size()) e.answers.push_back({OWS_PONG, f.data}); else break; } else if (f.op == OWS_CONNECTION_CLOSE) { if (f.data.size() >= 2 && have >= 2) e.answers.push_back({OWS_CONNECTION_CLOSE, f.data.substr(0, 2)}); else if (f.data.size() < 2) e.answers.push_back({OWS_CONNECTION_CLOSE, ""}); e.closed = true; break; } else { e.data += f.data.substr(0, have); if (have || f.data.empty()) e.msgs.push_back({f.op, f.data.substr(0, have)}); if (have < f.data.size()) break; } p += b.size(); } return e; }
static void judge(const vector<Frame> &fs, size_t avail, const Result &r) {
  Expect e = expect(fs, avail); string all; for (auto &g : got) all += g.data; if (strat == STOP) { if (e.data.compare(0, all.size(), all)) fail("received %s, sent %s", esc(all.substr(0, 100)).c_str(), esc(e.data.substr(0, 100)).c_str()); if (calls > stop_after) fail("called again after it asked to close"); return; }
  if (all != e.data) fail("received %zu bytes %s, sent %zu bytes %s", all.size(), esc(all.substr(0, 100)).c_str(), e.data.size(), esc(e.data.substr(0, 100)).c_str());
  if (strat == WHOLE || strat == SMALL1 || strat == SMALL7 || strat == IGNORE_FIRST) { // each call belongs to one frame
    size_t gi = 0; for (auto &m : e.msgs) { string d; bool any = false; while (gi < got.size() && (d.size() < m.second.size() || (!any && m.second.empty()))) { if (got[gi].op != m.first) fail("data of a frame with opcode %d is given with opcode %d", m.first, got[gi].op); d += got[gi].data; any = true; gi++; } if (d != m.second) fail("frames are mixed"); if (!any) fail("an empty frame is not told"); } if (gi != got.size()) fail("%zu calls too many", got.size() - gi); }
  vector<Frame> want = e.answers; if (echo && strat != BIG) { vector<Frame> s2; size_t ei = 0; for (auto &f : r.sent) { if (f.op == OWS_PONG || f.op == OWS_CONNECTION_CLOSE) { if (f.op == OWS_PONG && ei < echoes.size() && echoes[ei].op == OWS_PONG && f.data == echoes[ei].data && !(s2.size() < want.size() && want[s2.size()].op == OWS_PONG && want[s2.size()].data == f.data)) { ei++; continue; } s2.push_back(f); } else { if (ei >= echoes.size() || echoes[ei].op != f.op || echoes[ei].data != f.data) fail("the echo of a frame was sent with opcode %d", f.op); ei++; } } if (s2.size() != want.size()) fail("%zu control frames sent, expected %zu", s2.size(), want.size()); return; }
  if (r.sent.size() != want.size()) fail("%zu frames answered, expected %zu", r.sent.size(), want.size()); for (size_t i = 0; i < want.size(); i++) { if (r.sent[i].op != want[i].op || r.sent[i].data != want[i].data || !r.sent[i].fin) fail("answer %zu is %s %s, expected %s %s", i, brief(r.sent[i]).c_str(), esc(r.sent[i].data.substr(0, 60)).c_str(), brief(want[i]).c_str(), esc(want[i].data.substr(0, 60)).c_str()); }
}
static string pat(size_t n, int k = 0) { string s; for (size_t i = 0; i < n; i++) s += (char)(i * 7 + k + (i >> 8)); return s; }
static const vector<Frame> &alphabet() { static vector<Frame> a = {{1, "hello"}, {1, ""}, {2, pat(130)}, {1, "x", false}, {0, "yz", false, 3}, {0, "end"}, {9, ""}, {9, "ping!"}, {9, pat(125), true, 3}, {10, "po"}, {10, ""}, {8, ""}, {8, "\x03\xe8"}, {8, "\x03\xe9" "bye"}, {1, "abc", true, 0}, {9, "np", true, 0}, {8, "\x03\xea", true, 0}, {2, "l", true, 2, 1}, {9, "L", true, 1, 2}, {8, "s"}}; return a; }
static string all_bytes(const vector<Frame> &f) { string s; for (auto &x : f) s += encode(x); return s; }
static string desc(const vector<Frame> &f) { string s; for (auto &x : f) s += brief(x) + " "; return s; }
static void sequences() { auto &A = alphabet(); int n = 1 + choose(mc::thorough() ? 4 : 3); vector<Frame> f; for (int i = 0; i < n; i++) { f.push_back(A[choose(A.size())]); if (i == 0) mc::shard(); } strat = choose(STRATS); stop_after = strat == STOP ? 1 + choose(2) : 0; static const size_t pc[] = {0, 1, 3}; piece = pc[choose(3)]; echo = strat < BIG && choose(2); cuts.clear(); mc::note("%s strategy %d pieces of %zu%s", desc(f).c_str(), strat, piece, echo ? " echo" : ""); string b = all_bytes(f); Result r = play(f, b); judge(f, b.size(), r); mc::outcome(mc::strf("%s %d", desc(f).c_str(), strat)); }
static void segmentations() { static const vector<vector<int>> S = {{0, 7, 2}, {3, 6, 4, 8, 5}, {2, 12}, {17, 18, 0, 13}, {14, 15, 0, 16}, {9, 1, 7, 11}}; int k = choose(S.size()); strat = choose(STOP); mc::shard(); vector<Frame> f; for (int i : S[k]) f.push_back(alphabet()[i]); string b = all_bytes(f); echo = false; piece = 0; for (size_t i = 1; i <= b.size(); i++) for (size_t j = i; j <= b.size(); j++) { cuts = {i, j}; if (b.size() > 120 && j > i + 20 && j % 5) continue; mc::note("%s strategy %d cut at %zu and %zu", desc(f).c_str(), strat, i, j); Result r = play(f, b); judge(f, b.size(), r); mc::state(mc::hash(mc::strf("%d %d %zu %zu", k, strat, i, j))); } mc::outcome(mc::strf("%d %d", k, strat)); }
static void truncations() { auto &A = alphabet(); int a = choose(A.size()), b = choose(A.size()); mc::shard(); vector<Frame> f = {A[a], A[b]}; string s = all_bytes(f); piece = 0; cuts.clear(); echo = false; for (size_t n = 0; n <= s.size(); n++) for (strat = 0; strat < STOP; strat++) for (int pc = 0; pc < 2; pc++) { piece = pc; mc::note("%s strategy %d, first %zu bytes, pieces %d", desc(f).c_str(), strat, n, pc); Result r = play(f, s.substr(0, n)); judge(f, n, r); } mc::outcome(desc(f)); }
static void lengths() { static vector<size_t> L; if (L.empty()) { for (size_t i = 0; i <= 260; i++) L.push_back(i); for (size_t c : {1024, 2048, 4096, 32768, 65536}) for (int d = -6; d <= 6; d++) L.push_back(c + d); L.push_back(70000); L.push_back(200000); } size_t n = L[choose(L.size())]; mc::shard(); strat = choose(STOP); int mk = choose(4), op = 1 + choose(2); if (strat == SMALL1 && n > 4000) return; echo = false; cuts.clear(); static const size_t pc[] = {0, 1000}; piece = pc[choose(2)]; vector<Frame> f = {{op, pat(n, mk), true, mk}, {2, "after", true, 1}}; for (int form = 0; form < 3; form++) { if (form == 1 && n > 65535) continue; f[0].form = form; mc::note("%s strategy %d", desc(f).c_str(), strat); string b = all_bytes(f); Result r = play(f, b); judge(f, b.size(), r); } mc::outcome(mc::strf("%zu %d %d", n, strat, mk)); }
// any header at all: terminates, stays inside memory, and the application gets no more than what was sent
static void hostile() { int b0 = choose(256); mc::shard(); static const char *tails[] = {"", "\x00", "\x00\x00", "\xff\xff\xff\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\x01\x02\x03\x04""abcdef", "\x7f\xff\xff\xff\xff\xff\xff\xff\x01\x02\x03\x04""abcdef", "\x80\x00\x00\x00\x00\x00\x00\x00\x01\x02\x03\x04", "\x00\x00\x00\x00\x00\x01\x00\x00\x01\x02\x03\x04""abcdef", "\x00\x7e\x01\x02\x03\x04\x05\x06\x07"}; static const int tl[] = {0, 1, 2, 4, 18, 18, 12, 18, 9}; for (int b1 = 0; b1 < 256; b1++) for (int t = 0; t < 9; t++) for (int st = 0; st < 2; st++) { strat = st ? BIG : WHOLE; echo = false; cuts.clear(); piece = 0; string s; s += (char)b0; s += (char)b1; s.append(tails[t], tl[t]); mc::note("bytes %s strategy %d", esc(s).c_str(), strat); size_t m0 = mc::live_bytes(); play({}, s); size_t tot = 0; for (auto &g : got) tot += g.data.size(); if (tot > s.size()) fail("%zu bytes received of %zu", tot, s.size()); got.clear(); got.shrink_to_fit(); if (mc::live_bytes() > m0 + 100000) fail("%zu bytes leaked", mc::live_bytes() - m0); mc::state(mc::hash(s)); } mc::outcome(mc::strf("%d", b0)); }
static void many() { int n = choose(6), op = choose(3); mc::shard(); static const int N[] = {10, 127, 128, 1000, 20000, 200000}; strat = choose(2) ? BIG : WHOLE; echo = false; piece = 0; cuts.clear(); vector<Frame> f; static const Frame k[] = {{1, "a"}, {1, ""}, {9, "p"}}; for (int i = 0; i < N[n]; i++) f.push_back(k[op]); f.push_back({1, "end"}); mc::note("%d frames %s strategy %d", N[n], brief(k[op]).c_str(), strat); string b = all_bytes(f); if (strat == BIG && op == 0 && N[n] > 200000) return; Result r = play(f, b); if (strat == WHOLE || op) judge(f, b.size(), r); else { string all; for (auto &g : got) all += g.data; if (all != string(N[n], 'a') + "end") fail("received %zu bytes", all.size()); } mc::outcome(mc::strf("%d %d %d", n, op, strat)); }
// resources: nothing is kept after the connection
static void leaks() { auto &A = alphabet(); int a = choose(A.size()), b = choose(A.size()); mc::shard(); vector<Frame> f = {A[a], A[b], A[a]}; strat = WHOLE; echo = false; piece = 0; cuts.clear(); string s = all_bytes(f); play(f, s); got.clear(); size_t m0 = mc::live_bytes(); for (int i = 0; i < 8; i++) { play(f, s); got.clear(); } got.shrink_to_fit(); if (mc::live_bytes() > m0 + 400) fail("%s: %zu bytes leaked", desc(f).c_str(), mc::live_bytes() - m0); mc::outcome(desc(f)); }
int main(int c, char **v) {
  mc::rule("sequences of frames of every kind x ways of reading x pieces, every pair of cuts, every truncation, every length around the limits, every pair of first bytes; non-trivial: each execution compares the data received and the frames answered with an independent encoder and decoder");
  mc::assume("poll always says there is data, as the transport either has data or is at its end");
  mc::add("sequences", sequences, true, wst::init); mc::add("segmentations", segmentations, true, wst::init); mc::add("truncations", truncations, true, wst::init); mc::add("lengths", lengths, true, wst::init); mc::add("hostile headers", hostile, true, wst::init); mc::add("many frames", many, true, wst::init); mc::add("leaks", leaks, true, wst::init); return mc::main(c, v);
}
