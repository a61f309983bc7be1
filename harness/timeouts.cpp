// P24: idle connections are closed when their time is over, and not before; active ones never
#include "srv.hpp"
static int T, threads; // ms
struct C { double at; int kind; double d; double last = -1, closed = -1; int answers = 0; string err; };
static double base_s; static double t() { return sched::now() / 1e9 - base_s; }
static const char *KIND[] = {"silent", "half a request", "a request and silence", "a request now and then", "byte by byte", "slow handler", "closes itself"};
static void client(C *c) {
  sched::sleep(c->at); Http h; h.c = vk::connect(8080); if (!h.c) { c->err = "refused"; return; } c->last = t();
  auto req = [&](const char *path) { vk::send(*h.c, string("GET ") + path + " HTTP/1.1\r\n\r\n"); c->last = t(); int code; string head, body; if (!h.answer(&code, &head, &body, 1000)) { c->err = strf("no answer at %.2f", t()); return false; } if (code != 200 || body != string("hi ") + path) { c->err = "bad answer"; return false; } c->answers++; c->last = t(); return true; };
  double lim = T < 0 ? 4 : std::max(0.25, T / 1000.0 - 1.25); // silence shorter than this is never punished
  switch (c->kind) {
  case 1: sched::sleep(c->d); vk::send(*h.c, "GET / HTTP/1.1\r\nA: "); c->last = t(); break;
  case 2: sched::sleep(c->d); if (!req("/")) return; break;
  case 3: for (int i = 0; i < 4; i++) { sched::sleep(std::min(lim, 0.25 + c->d)); if (!req("/a")) return; } break;
  case 4: { const char *m = "GET /b HTTP/1.1\r\n\r\n"; for (int i = 0; m[i]; i += 3) { sched::sleep(std::min(lim, 0.25 + c->d)); vk::send(*h.c, string(m + i, std::min<size_t>(3, strlen(m + i)))); c->last = t(); } int code; string hd, b; if (!h.answer(&code, &hd, &b, 1000)) { c->err = strf("no answer at %.2f", t()); return; } c->answers++; c->last = t(); break; }
  case 5: sched::sleep(c->d); if (!req("/slow")) return; break;
  case 6: sched::sleep(c->d); vk::close(*h.c); c->closed = c->last = t(); return;
  }
  if (T < 0) { if (vk::wait_data(*h.c, 200)) c->err = strf("closed at %.2f, though there is no timeout", t()); vk::close(*h.c); c->closed = t(); return; }
  if (!vk::wait_data(*h.c, T / 1000.0 + 30)) { c->err = strf("still open at %.2f, idle since %.2f", t(), c->last); vk::close(*h.c); return; }
  if (!vk::recv(*h.c).empty()) { c->err = "unexpected data"; return; }
  c->closed = t();
}
static void scenario(vector<C> cs) {
  onion *o = new_server(threads > 1 ? O_POOL : O_POLL, threads, [](onion_request *q, onion_response *r) { string p = onion_request_get_fullpath(q); if (p == "/slow") sched::sleep(T < 0 ? 20 : T / 1000.0 * 3 + 2); onion_response_set_length(r, 3 + p.size()); onion_response_write(r, "hi ", 3); onion_response_write(r, p.data(), p.size()); return OCS_PROCESSED; });
  onion_set_timeout(o, T); int l = sched::spawn("listen", [o] { onion_listen(o); }); sched::wait_idle(); base_s = sched::now() / 1e9;
  vector<int> f; for (size_t i = 0; i < cs.size(); i++) f.push_back(sched::spawn(strf("client%zu", i).c_str(), [&cs, i] { client(&cs[i]); }));
  for (int x : f) sched::join(x);
  for (auto &c : cs) {
    if (!c.err.empty()) fail("client %s connected at %.2f: %s", KIND[c.kind], c.at, c.err.c_str());
    if (T < 0 || c.kind == 6) continue;
    double s = (T + 999) / 1000;
    if (c.closed < c.last + s - 1 - 1e-6) fail("client %s connected at %.2f was closed at %.2f, only %.2f s after its last activity (timeout %d ms)", KIND[c.kind], c.at, c.closed, c.closed - c.last, T);
    // while a handler is busy in the only thread nothing else happens
    double busy = 0; if (threads == 1) for (auto &d : cs) if (d.kind == 5) busy += s * 3 + 2;
    if (c.closed > c.last + s + 2.0 + busy) fail("client %s connected at %.2f was closed at %.2f, %.2f s after its last activity (timeout %d ms)", KIND[c.kind], c.at, c.closed, c.closed - c.last, T);
  }
  onion_listen_stop(o); sched::join(l); onion_free(o); all_released("at the end");
}
static const double AT[] = {0, 0.3, 0.7, 1.0, 1.4, 1.99}; static const double D[] = {0, 0.6}; static const int TS[] = {2000, 1500, 5000, 1000, -1, 3000};
static void run(int n, int ts, int budget, int natt, int th) {
  threads = th == 2 ? 1 + choose(2) : th; T = TS[choose(ts)]; vector<C> cs; string key = strf("timeout %d, %d threads:", T, threads);
  for (int i = 0; i < n; i++) { C c; c.kind = choose(7); c.at = AT[choose(natt)]; c.d = D[choose(2)]; if (c.kind == 0 && c.d > 0) mc::prune(); if (T == 1000 && (c.d > 0 || c.kind == 3 || c.kind == 4)) mc::prune(); /* any silence may be too long */ if (threads == 1 && c.kind == 5 && n > 1) mc::prune(); cs.push_back(c); key += strf(" %s at %.2f+%.2f,", KIND[c.kind], c.at, c.d); }
  mc::note("%s", key.c_str()); sched::explore(key, budget, [&] { scenario(cs); }, true); mc::outcome(key);
}
int main(int c, char **v) {
  mc::rule("Clients that stay silent, stop in the middle, keep the connection, send now and then or byte by byte, at every combination of moments of a grid of fractions of seconds; virtual clock; schedules within the bound. Distinct: combinations of timeout, threads, clients and moments.");
  mc::assume("Timeouts have a resolution of seconds: a connection may be closed up to 1 s early and 2 s late."); mc::assume("Time goes by only when no thread can run.");
  mc::add("one client", [] { run(1, 6, mc::thorough() ? 2 : 1, 6, 2); }); mc::add("two clients", [] { run(2, mc::thorough() ? 6 : 2, 0, mc::thorough() ? 6 : 4, 2); }); mc::add("two clients, schedules", [] { run(2, 1, 1, 3, 2); }, false);
  mc::add("three clients", [] { run(3, 1, 0, 3, 1); }, true);
  return mc::main(c, v);
}
