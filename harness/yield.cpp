// P36: a yielded request belongs to whoever it was given to
#include "srv.hpp"
#include <map>
extern "C" {
#include "onion/url.h"
#include "onion/handlers/path.h"
#include "onion/types_internal.h"
}
struct Item { onion_request *q; onion_response *r; string me; };
static vector<Item> given; static int taken, calls;
// ---- what the handler does before it yields and what the worker does after
static const char *BEFORE[] = {"nothing", "some text", "some text, flushed", "2000 bytes", "length"}; static const int NBEFORE = 5;
static const char *AFTER[] = {"nothing", "text", "text, flushed twice", "after 3 s", "2000 bytes", "at once"}; static const int NAFTER = 6;
static string before_text(int b) { return b == 0 ? "" : b == 3 ? string(2000, 'b') : "before "; }
static string after_text(int a) { return a == 0 ? "" : a == 2 ? "one two " : a == 4 ? string(2000, 'a') : "after "; }
struct Plan { int before, after; }; static Plan plan; static int via; // 0 root, 1 url, 2 path, 3 error handler, 4 second of a list
static string body_of(const Plan &p, const string &me) { return before_text(p.before) + "[" + me + "]" + after_text(p.after); }
static int yielding(onion_request *q, onion_response *r) {
  string me = onion_request_get_queryd(q, "me", "?"); calls++;
  if (plan.before == 4) onion_response_set_length(r, body_of(plan, me).size());
  string t = before_text(plan.before); if (!t.empty()) onion_response_write(r, t.data(), t.size()); if (plan.before == 2) onion_response_flush(r);
  given.push_back({q, r, me}); sched::point("given"); return OCS_YIELD;
}
static int fast(onion_request *q, onion_response *r) { onion_response_set_length(r, 4); onion_response_write0(r, "fast"); return OCS_PROCESSED; }
static int handler(onion_request *q, onion_response *r) { string p = onion_request_get_fullpath(q); if (p == "/fast") return fast(q, r); if (via == 3) return OCS_INTERNAL_ERROR; return yielding(q, r); }
// ends when it says so; what it writes is at once, the end is when the server has let it go
static bool send_some(Item &i, const string &s, bool flush) { ssize_t n = onion_response_write(i.r, s.data(), s.size()); if (flush) return onion_response_flush(i.r) >= 0; return n >= 0; }
static void work(Item i) {
  const char *u = onion_request_get_query(i.q, "me"); if (!u || i.me != u) fail("the request of %s is not its own any more", i.me.c_str());
  if (plan.after == 3) sched::sleep(3); else if (plan.after != 5) sched::point("work");
  bool ok = send_some(i, "[" + i.me + "]", false);
  if (plan.after == 2) { ok = ok && send_some(i, "one ", true); sched::sleep(1); ok = ok && send_some(i, "two ", true); }
  else if (plan.after) send_some(i, after_text(plan.after), plan.after == 5);
  sched::sleep(0.001); u = onion_request_get_query(i.q, "me"); if (!u || i.me != u) fail("the request of %s is not its own any more", i.me.c_str());
  onion_response_free(i.r); onion_request_free(i.q);
}
static int worker(const char *name, bool *over) { return sched::spawn(name, [over] { while (true) { sched::wait([over] { return taken < (int)given.size() || *over; }, "work"); if (taken < (int)given.size()) work(given[taken++]); else break; } }); }
enum { WAITS, MORE, HALF, LEAVES, NCLIENT }; static const char *CLIENT[] = {"waits", "sends more", "sends no more", "leaves"};
static void client(const string &me, int kind, int version, std::shared_ptr<vk::Client> c = nullptr) {
  if (!c) c = vk::connect(8080); if (!c) fail("refused"); Http h; h.c = c; vk::send(*c, strf("GET /slow?me=%s HTTP/1.%d\r\n\r\n", me.c_str(), version)); if (kind == HALF) vk::half_close(*c); if (kind == MORE) vk::send(*c, "GET /fast HTTP/1.1\r\n\r\n");
  if (kind == LEAVES) { sched::point("leave"); vk::close(*c); return; }
  int code; string head, body; if (!h.answer(&code, &head, &body, 60)) fail("%s: no answer, or not whole: '%s'", me.c_str(), mc::esc(h.buf).c_str());
  string want = body_of(plan, me); if (code != (via == 3 ? 500 : 200) && code != 200) fail("%s: code %d", me.c_str(), code); if (body != want) fail("%s is answered '%s' instead of '%s'", me.c_str(), mc::esc(body.substr(0, 120)).c_str(), mc::esc(want.substr(0, 120)).c_str());
  if (plan.before == 4 && head.find(strf("Content-Length: %zu\r\n", want.size())) == string::npos) fail("%s: the length is not what was set: %s", me.c_str(), mc::esc(head).c_str());
  while (h.fill(60)); if (!h.closed) fail("%s: the connection is not closed when it was freed", me.c_str()); if (!h.buf.empty()) fail("%s: more than its answer: '%s'", me.c_str(), mc::esc(h.buf).c_str()); vk::close(*c);
}
static void other(int n) { auto c = vk::connect(8080); if (!c) fail("refused"); Http h; h.c = c; for (int i = 0; i < n; i++) { vk::send(*c, "GET /fast HTTP/1.1\r\n\r\n"); int code; string head, body; int64_t t = sched::now(); if (!h.answer(&code, &head, &body, 60) || code != 200 || body != "fast") fail("another client is not answered"); if (sched::now() - t > 900000000) fail("another client has to wait for the yielded one"); } vk::close(*c); }
static onion *server(int mode, int threads) {
  onion *o = new_server(mode, threads, handler); given.clear(); taken = calls = 0; onion_set_timeout(o, 1000);
  if (via) { onion_handler *slow = onion_handler_new((onion_handler_handler)+[](void *, onion_request *q, onion_response *r) -> int { return yielding(q, r); }, nullptr, nullptr), *quick = onion_handler_new((onion_handler_handler)+[](void *, onion_request *q, onion_response *r) -> int { return fast(q, r); }, nullptr, nullptr);
    if (via == 1) { onion_handler_free(onion_get_root_handler(o)); onion_url *u = onion_url_new(); onion_set_root_handler(o, onion_url_to_handler(u)); onion_url_add_handler(u, "^slow", slow); onion_url_add_handler(u, "fast", quick); }
    if (via == 2) { onion_handler_free(onion_get_root_handler(o)); onion_handler *p = onion_handler_path("^slow", slow); onion_handler_add(p, quick); onion_set_root_handler(o, p); }
    if (via == 3) { onion_set_internal_error_handler(o, slow); onion_handler_free(quick); }
    if (via == 4) { onion_handler_free(onion_get_root_handler(o)); onion_handler *p = onion_handler_path("^fast", quick); onion_handler_add(p, slow); onion_set_root_handler(o, p); } }
  return o;
}
static void serve(int threads, std::function<void(onion *)> body, bool stop_first) {
  onion *o = server(threads > 1 ? O_POOL : O_POLL, threads); bool over = false; int w = worker("worker", &over), l = sched::spawn("listen", [o] { onion_listen(o); }); sched::wait_idle(); body(o); sched::wait_idle();
  if (stop_first) { onion_listen_stop(o); sched::join(l); over = true; sched::join(w); } else { over = true; sched::join(w); onion_listen_stop(o); sched::join(l); }
  if (taken != (int)given.size()) fail("not all was attended"); onion_free(o); all_released("at the end");
}
static string describe() { return strf("%s, then %s", BEFORE[plan.before], AFTER[plan.after]); }
static void one() {
  plan.before = choose(NBEFORE); plan.after = choose(NAFTER); int kind = choose(NCLIENT), version = choose(2), threads = 1 + choose(mc::thorough() ? 3 : 2); via = choose(5); if (via && (kind || plan.after != 1)) mc::prune(); string key = strf("%s; HTTP/1.%d, client %s, %d threads, via %d", describe().c_str(), version, CLIENT[kind], threads, via); mc::note("%s", key.c_str());
  sched::explore(key, threads > 1 && (mc::thorough() || (!via && version)) ? 2 : 1, [&] { serve(threads, [&](onion *) { int c = sched::spawn("client", [&] { client("ann", kind, version); }); sched::join(c); if (kind != LEAVES && calls != 1) fail("called %d times", calls); }, false); }, true); mc::outcome(key);
}
static void with_others() {
  plan.before = choose(NBEFORE); plan.after = choose(NAFTER); int kind = choose(NCLIENT), threads = 1 + choose(2), n = 1 + choose(2); via = 0; string key = strf("others: %s; client %s, %d threads, %d requests", describe().c_str(), CLIENT[kind], threads, n); mc::note("%s", key.c_str()); bool q = !mc::thorough();
  sched::explore(key, q ? 1 : 2, [&] { serve(threads, [&](onion *) { int c = sched::spawn("client", [&] { client("ann", kind, 1); }), d = sched::spawn("other", [&] { other(n); }); sched::join(c); sched::join(d); }, false); }, true); mc::outcome(key);
}
static void two() {
  plan.before = choose(NBEFORE); plan.after = choose(NAFTER); int kind = choose(NCLIENT), kind2 = choose(NCLIENT), threads = 1 + choose(2), workers = 1 + choose(2); via = 0; if (kind2 < kind || (!mc::thorough() && (plan.before == 2 || plan.before == 4))) mc::prune(); string key = strf("two: %s; clients %s and %s, %d threads, %d workers", describe().c_str(), CLIENT[kind], CLIENT[kind2], threads, workers); mc::note("%s", key.c_str());
  sched::explore(key, mc::thorough() ? 2 : 1, [&] { serve(threads, [&](onion *) { bool over = false; int w = workers > 1 ? worker("worker 2", &over) : -1; int c = sched::spawn("client", [&] { client("ann", kind, 1); }), d = sched::spawn("other", [&] { client("bob", kind2, 1); }); sched::join(c); sched::join(d); sched::wait_idle(); over = true; if (w >= 0) sched::join(w); }, false); }, true); mc::outcome(key);
}
// who comes later, on the same descriptor, is attended as always
static void afterwards() {
  plan.before = choose(2); plan.after = choose(3); int kind = choose(NCLIENT), threads = 1 + choose(2), others = choose(2); via = 0; string key = strf("afterwards: %s; client %s, %d threads%s", describe().c_str(), CLIENT[kind], threads, others ? ", another one is there" : ""); mc::note("%s", key.c_str());
  sched::explore(key, 1, [&] { serve(threads, [&](onion *) { std::shared_ptr<vk::Client> before; if (others) { before = vk::connect(8080); sched::wait_idle(); } client("ann", kind, 1); sched::wait_idle(); sched::sleep(0.01); other(2); sched::wait_idle(); auto idle = vk::connect(8080); Http h; h.c = idle; int64_t t = sched::now(); if (h.fill(30) || !h.closed) fail("an idle connection is not closed after the timeout"); if (sched::now() - t > 4000000000ll) fail("an idle connection is closed after %g s", (sched::now() - t) / 1e9); vk::close(*idle); if (others) { Http b; b.c = before; if (b.fill(30) || !b.closed) fail("the other idle connection is not closed after the timeout"); vk::close(*before); } client("bob", kind, 1); sched::wait_idle(); other(1); }, false); }, true); mc::outcome(key);
}
// others come and go, with the same descriptors, while it yields
static void coming() {
  plan.before = choose(2); plan.after = choose(2) ? 5 : 1; int threads = 2 + choose(mc::thorough() ? 2 : 1), kind = choose(2), order = choose(2); via = 0; if (!mc::thorough() && (plan.before || plan.after == 5 || kind)) mc::prune(); string key = strf("coming and going: %s; client %s, %d threads, %s", describe().c_str(), CLIENT[kind], threads, order ? "it was there first" : "it came later"); mc::note("%s", key.c_str());
  sched::explore(key, 2, [&] { serve(threads, [&](onion *) { std::shared_ptr<vk::Client> a, b; if (order) a = vk::connect(8080); sched::wait_idle(); b = vk::connect(8080); sched::wait_idle(); if (!order) { a = vk::connect(8080); sched::wait_idle(); } int c = sched::spawn("client", [&] { client("ann", kind, 1, a); }), d = sched::spawn("other", [&] { vk::close(*b); other(1); }); sched::join(c); sched::join(d); }, false); }, mc::thorough()); mc::outcome(key);
}
// the server is stopped (and maybe started again) while somebody is attending it
static void stopped() {
  plan.before = choose(NBEFORE); plan.after = choose(NAFTER); int threads = 1 + choose(2), again = choose(2); via = 0; string key = strf("stopped: %s; %d threads%s", describe().c_str(), threads, again ? ", started again" : ""); mc::note("%s", key.c_str());
  sched::explore(key, 1, [&] { onion *o = server(threads > 1 ? O_POOL : O_POLL, threads); bool over = false; int w = worker("worker", &over), l = sched::spawn("listen", [o] { onion_listen(o); }); sched::wait_idle(); int c = sched::spawn("client", [&] { client("ann", WAITS, 1); }); sched::wait([] { return calls > 0; }, "yielded"); sched::point("stop"); onion_listen_stop(o); sched::join(l); if (again) { l = sched::spawn("listen", [o] { onion_listen(o); }); sched::wait_idle(); int d = sched::spawn("other", [&] { other(1); }); sched::join(d); } sched::join(c); over = true; sched::join(w); if (again) { onion_listen_stop(o); sched::join(l); } onion_free(o); all_released("at the end"); }, true); mc::outcome(key);
}
static void single() {
  plan.before = choose(NBEFORE); plan.after = choose(NAFTER); int loop = choose(2), kind = choose(NCLIENT), version = choose(2); via = 0; string key = strf("one by one: %s; client %s, HTTP/1.%d, %s", describe().c_str(), CLIENT[kind], version, loop ? "O_ONE_LOOP" : "O_ONE"); mc::note("%s", key.c_str());
  sched::explore(key, 1, [&] { onion *o = server(loop ? O_ONE_LOOP : O_ONE, 1); bool over = false; int w = worker("worker", &over), l = sched::spawn("listen", [o] { onion_listen(o); }); sched::wait_idle(); int c = sched::spawn("client", [&] { client("ann", kind, version); }); if (loop) { int d = sched::spawn("other", [&] { auto c = vk::connect(8080); Http h; h.c = c; vk::send(*c, "GET /fast HTTP/1.0\r\n\r\n"); int code; string head, body; if (!h.answer(&code, &head, &body, 60) || body != "fast") fail("another client is not answered"); vk::close(*c); }); sched::join(d); } sched::join(c); sched::wait_idle(); over = true; sched::join(w); if (loop) onion_listen_stop(o); sched::join(l); onion_listen_stop(o); onion_free(o); all_released("at the end"); }, true); mc::outcome(key);
}
int main(int c, char **v) {
  mc::rule("Real server under a controlled scheduler, with handlers that yield and worker threads that go on with the answer at any moment. What is written before x after yielding x behaviour of the client x version x ways to get to the handler; other clients at the same time, two yielded ones, the server stopped and started again meanwhile, servers of one client at a time; every schedule within the bound on deviations. Distinct: combinations.");
  mc::assume("Sequentially consistent memory; kernel calls are atomic; the clock moves only when nothing can run."); mc::assume("The worker ends the request when the server has let it go, and before the server is freed.");
  mc::add("stopped", stopped, true); mc::add("afterwards", afterwards, true); mc::add("one by one", single, true); mc::add("coming and going", coming, true); mc::add("one yielded", one, true); mc::add("with others", with_others, true); mc::add("two yielded", two, true);
  return mc::main(c, v);
}
