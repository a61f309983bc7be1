// srv.hpp - a whole server inside the controlled scheduler and virtual kernel
#pragma once
#include "sched.hpp"
#include <string.h>
#include <algorithm>
extern "C" {
#include "onion/onion.h"
#include "onion/poller.h"
#include "onion/log.h"
#include "onion/request.h"
#include "onion/response.h"
#include "onion/handler.h"
#include "onion/http.h"
#include "onion/dict.h"
#include "onion/mime.h"
#include "onion/low.h"
#include "onion/block.h"
#include "onion/listen_point.h"
}
namespace vk { long addrinfos(); }
using std::string; using std::vector; using mc::fail; using mc::choose; using mc::strf;
static void nolog(onion_log_level, const char *, int, const char *, ...) {}
typedef std::function<int(onion_request *, onion_response *)> Handler;
static Handler g_handler;
static int call_handler(void *, onion_request *q, onion_response *s) { return g_handler(q, s); }
static onion *new_server(int flags, int threads, Handler h, const char *port = "8080") {
  onion_log = nolog; g_handler = h;
  onion *o = onion_new(flags); if (!o) fail("no server");
  onion_set_max_threads(o, threads);
  if (port) onion_set_port(o, port);
  onion_set_root_handler(o, onion_handler_new((onion_handler_handler)call_handler, nullptr, nullptr));
  return o;
}
static void all_released(const char *when) {
  if (vk::open_fds()) fail("%s: descriptors left open:%s", when, vk::fd_report().c_str());
  if (vk::addrinfos()) fail("%s: address lists were not freed", when);
  if (sched::live_allocs()) fail("%s: memory is left:%s", when, sched::alloc_report().c_str());
}
// reads one complete answer with Content-Length; "" when the connection ends before
struct Http { std::shared_ptr<vk::Client> c; string buf; bool closed = false;
  bool fill(double t = -1) { if (closed) return false; if (!vk::wait_data(*c, t)) return false; string d = vk::recv(*c); buf += d; if (d.empty() && vk::eof(*c)) { closed = true; return false; } return true; }
  // body of the next answer; status through *code. false: connection ended or timeout
  bool answer(int *code, string *head, string *body, double t = -1) {
    size_t e; while ((e = buf.find("\r\n\r\n")) == string::npos) if (!fill(t)) return false;
    *head = buf.substr(0, e + 2); *code = atoi(buf.c_str() + 9); size_t p = head->find("Content-Length: "); size_t n = p == string::npos ? 0 : atoi(head->c_str() + p + 16);
    bool chunked = head->find("Transfer-Encoding: chunked") != string::npos; buf.erase(0, e + 4);
    if (chunked) { body->clear(); while (true) { size_t l; while ((l = buf.find("\r\n")) == string::npos) if (!fill(t)) return false; size_t k = strtoul(buf.c_str(), 0, 16); while (buf.size() < l + 2 + k + 2) if (!fill(t)) return false; *body += buf.substr(l + 2, k); buf.erase(0, l + 2 + k + 2); if (!k) return true; } }
    if (p == string::npos) { while (fill(t)); *body = buf; buf.clear(); return true; }
    while (buf.size() < n) if (!fill(t)) return false;
    *body = buf.substr(0, n); buf.erase(0, n); return true;
  }
};
