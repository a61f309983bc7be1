// A server without sockets, for demonstrations: Conn c(handler); c.feed(bytes); c.out
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "onion/onion.h"
#include "onion/types_internal.h"
#include "onion/http.h"
#include "onion/listen_point.h"
#include "onion/request.h"
#include "onion/response.h"
#include "onion/handler.h"
#include "onion/dict.h"
#include "onion/block.h"
#include "onion/codecs.h"
#include "onion/low.h"
#include "onion/log.h"
using std::string; using std::vector;
#define CHECK(c, ...) do { if (!(c)) { printf("WRONG: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
static void nolog(onion_log_level, const char *, int, const char *, ...) {}
typedef std::function<int(onion_request *, onion_response *)> Handler;
struct Server { onion *o; onion_listen_point *lp; Handler h; Server(Handler hh); ~Server() { onion_free(o); } };
struct Conn {
  Server &s; onion_request *req; string in, out; bool open = true; std::function<ssize_t(const char *, size_t)> on_write;
  Conn(Server &sv) : s(sv) { req = onion_request_new(s.lp); req->connection.user_data = this; }
  ~Conn() { close(); }
  void close() { if (req) { onion_request *r = req; req = nullptr; open = false; onion_request_free(r); } }
  bool feed(const string &d) { if (!open) return false; in += d; while (!in.empty()) { if (s.lp->read_ready(req) < 0) { close(); return false; } } return true; }
};
static ssize_t c_read(onion_request *r, char *d, size_t l) { Conn *c = (Conn *)r->connection.user_data; size_t n = std::min(l, c->in.size()); memcpy(d, c->in.data(), n); c->in.erase(0, n); return n; }
static ssize_t c_write(onion_request *r, const char *d, size_t l) { Conn *c = (Conn *)r->connection.user_data; ssize_t n = c->on_write ? c->on_write(d, l) : (ssize_t)l; if (n > 0) c->out.append(d, n); return n; }
static void c_close(onion_request *r) { Conn *c = (Conn *)r->connection.user_data; if (c) c->open = false; }
static int c_init(onion_request *r) { r->connection.user_data = nullptr; return 0; }
static void c_listen(onion_listen_point *) {}
static int c_handler(void *p, onion_request *req, onion_response *res) { return ((Server *)p)->h(req, res); }
inline Server::Server(Handler hh) : h(hh) {
  onion_log = nolog; o = onion_new(O_ONE_LOOP | O_NO_SIGTERM | O_NO_SIGPIPE); lp = onion_http_new();
  lp->request_init = c_init; lp->read = c_read; lp->write = c_write; lp->close = c_close; lp->listen = c_listen; onion_add_listen_point(o, nullptr, nullptr, lp);
  onion_set_root_handler(o, onion_handler_new((onion_handler_handler)c_handler, this, nullptr));
}
static string slurp(const string &f) { string r; FILE *x = fopen(f.c_str(), "r"); if (!x) return "(none)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, x)) > 0) r.append(b, n); fclose(x); return r; }
static void spit(const string &f, const string &d) { FILE *x = fopen(f.c_str(), "w"); fwrite(d.data(), 1, d.size(), x); fclose(x); }
