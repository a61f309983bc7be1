// onh.hpp - drives the real HTTP code of libonion in process, without sockets.
// A Server owns an onion and an HTTP listen point whose transport is replaced by a Conn;
// a Conn is one client connection: bytes go in with feed(), come out in `out`.
#pragma once
#include "mc.hpp"
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include "onion/onion.h"
#include "onion/types_internal.h"
#include "onion/http.h"
#include "onion/listen_point.h"
#include "onion/request.h"
#include "onion/response.h"
#include "onion/handler.h"
#include "onion/dict.h"
#include "onion/block.h"
#include "onion/low.h"
#include "onion/log.h"

namespace onh {
using std::string; using std::vector; using mc::fail; using mc::esc;
inline void nolog(onion_log_level, const char *, int, const char *, ...) {}
typedef std::function<int(onion_request *, onion_response *)> Handler;

struct Conn;
struct Server {
  onion *o; onion_listen_point *lp; Handler h;
  Server(Handler hh = nullptr);
  ~Server() { onion_free(o); }
};

struct Conn {
  Server &s; onion_request *req = nullptr;
  string in;                 // bytes waiting to be read by the server
  string out;                // bytes the server wrote
  bool open = true;          // the server did not close it yet
  int last = OCS_NEED_MORE_DATA;
  int writes = 0;
  bool write_broken = false;
  std::function<ssize_t(const char *, size_t)> on_write; // fault plan: returns how much is accepted, or <0
  Conn(Server &sv) : s(sv) { req = onion_request_new(s.lp); if (!req) fail("could not create a request"); req->connection.user_data = this; }
  ~Conn() { close(); }
  void close() { if (req) { onion_request *r = req; req = nullptr; open = false; onion_request_free(r); } }
  // gives one readable event with these bytes. False once the server wants the connection closed.
  bool feed(const string &d) {
    if (!open) return false;
    in += d;
    while (!in.empty()) {
      size_t before = in.size();
      last = s.lp->read_ready(req);
      if (last < 0) { close(); return false; }
      if (in.size() >= before) fail("the server was told there is data and did not read any");
    }
    return true;
  }
  bool eof() { if (!open) return false; in.clear(); last = s.lp->read_ready(req); if (last < 0) { close(); return false; } return true; }
};

inline ssize_t conn_read(onion_request *r, char *d, size_t l) { Conn *c = (Conn *)r->connection.user_data; size_t n = std::min(l, c->in.size()); memcpy(d, c->in.data(), n); c->in.erase(0, n); return n; }
inline ssize_t conn_write(onion_request *r, const char *d, size_t l) {
  Conn *c = (Conn *)r->connection.user_data; c->writes++;
  ssize_t n = c->on_write ? c->on_write(d, l) : (ssize_t)l;
  if (n > (ssize_t)l) n = l;
  if (n > 0) c->out.append(d, n);
  return n;
}
inline void conn_close(onion_request *r) { Conn *c = (Conn *)r->connection.user_data; if (c) c->open = false; }
inline int conn_init(onion_request *r) { r->connection.user_data = nullptr; return 0; }
inline void conn_listen(onion_listen_point *) {}
inline int call_handler(void *p, onion_request *req, onion_response *res) { Server *s = (Server *)p; return s->h ? s->h(req, res) : OCS_NOT_PROCESSED; }
inline Server::Server(Handler hh) : h(hh) {
  onion_log = nolog;
  o = onion_new(O_ONE_LOOP | O_NO_SIGTERM | O_NO_SIGPIPE);
  lp = onion_http_new();
  lp->request_init = conn_init; lp->read = conn_read; lp->write = conn_write; lp->close = conn_close; lp->listen = conn_listen;
  onion_add_listen_point(o, nullptr, nullptr, lp);
  onion_set_root_handler(o, onion_handler_new((onion_handler_handler)call_handler, this, nullptr));
}

typedef std::multimap<string, string> MM;
typedef vector<std::pair<string, string>> KV;
inline void kv_vis(KV *o, const char *k, const void *v, int f) { o->push_back({k ? k : "(null)", f & OD_DICT ? "(dict)" : v ? (const char *)v : "(null)"}); }
inline KV dump(const onion_dict *d) { KV o; if (d) onion_dict_preorder(d, (void *)kv_vis, &o); std::sort(o.begin(), o.end()); return o; }
inline string slurp(const char *fn) { string r; int fd = ::open(fn, O_RDONLY); if (fd < 0) return string("(cannot open)"); char b[4096]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) r.append(b, n); ::close(fd); return r; }
inline void spit(const string &fn, const string &d) { int fd = ::open(fn.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) fail("cannot create %s", fn.c_str()); size_t p = 0; while (p < d.size()) { ssize_t w = ::write(fd, d.data() + p, d.size() - p); if (w <= 0) fail("cannot write %s", fn.c_str()); p += w; } ::close(fd); }
inline bool exists(const string &fn) { struct stat st; return lstat(fn.c_str(), &st) == 0; }

// Everything a handler can learn about a request, in a canonical text form
struct Seen {
  string method, fullpath, path; bool http11 = false, keep = false;
  KV headers, get, post, files, cookies; string data; bool has_data = false;
  vector<string> tmpfiles;
  static void sec(string &r, const char *n, const KV &v) { r += n; for (auto &e : v) r += " <" + esc(e.first) + ">=<" + esc(e.second) + ">"; r += "\n"; }
  string text() const {
    string r = "method " + method + "\nfullpath " + esc(fullpath) + "\npath " + esc(path) + "\nhttp1.1 " + (http11 ? "yes" : "no") + " keepalive " + (keep ? "yes" : "no") + "\n";
    sec(r, "headers", headers); sec(r, "query", get); sec(r, "post", post); sec(r, "files", files); sec(r, "cookies", cookies);
    r += has_data ? "data " + esc(data) + "\n" : "no data\n"; return r;
  }
};
inline Seen observe(onion_request *req, bool cookies = true) {
  Seen s; const char *m = onion_request_get_method_name(req); s.method = m ? m : "(null)";
  s.fullpath = onion_request_get_fullpath(req); s.path = onion_request_get_path(req);
  s.http11 = onion_request_get_flags(req) & OR_HTTP11; s.keep = onion_request_keep_alive(req);
  s.headers = dump(onion_request_get_header_dict(req)); s.get = dump(onion_request_get_query_dict(req));
  s.post = dump(onion_request_get_post_dict(req));
  for (auto &e : dump(onion_request_get_file_dict(req))) { s.files.push_back({e.first, slurp(e.second.c_str())}); s.tmpfiles.push_back(e.second); }
  std::sort(s.files.begin(), s.files.end());
  if (cookies) s.cookies = dump(onion_request_get_cookies_dict(req));
  const onion_block *b = onion_request_get_data(req);
  if (b) { s.has_data = true; s.data.assign(onion_block_data(b), onion_block_size(b)); if (!s.tmpfiles.empty() && s.data == s.tmpfiles[0]) s.data = "(name of the file)"; }
  return s;
}

// ---- reference HTTP client: response parsing ----------------------------------------------------
struct Resp {
  string err; bool incomplete = false; int minor = 1, code = 0; string reason; KV h; string body;
  bool close_delimited = false, chunked = false; size_t used = 0;
  const string *get(const char *n) const { for (auto &e : h) if (!strcasecmp(e.first.c_str(), n)) return &e.second; return nullptr; }
  int count(const char *n) const { int c = 0; for (auto &e : h) if (!strcasecmp(e.first.c_str(), n)) c++; return c; }
};
inline bool is_token(const string &s) { if (s.empty()) return false; for (unsigned char c : s) if (!(isalnum(c) || strchr("!#$%&'*+-.^_`|~", c))) return false; return true; }
// parses one response at s[off]. eof: the connection is closed after s.
inline Resp parse_response(const string &s, size_t off, bool head, bool eof) {
  Resp r; size_t p = off;
  auto line = [&](string &l) -> bool { size_t e = s.find('\n', p); if (e == string::npos) { r.incomplete = true; return false; } if (e == p || s[e - 1] != '\r') { r.err = "line not ended by CRLF: " + esc(s.substr(p, e - p)); return false; } l = s.substr(p, e - 1 - p); if (l.find('\r') != string::npos) { r.err = "stray CR"; return false; } p = e + 1; return true; };
  string l; if (!line(l)) return r;
  if (l.size() < 13 || l.compare(0, 7, "HTTP/1.") || !isdigit(l[7]) || l[8] != ' ' || !isdigit(l[9]) || !isdigit(l[10]) || !isdigit(l[11]) || l[12] != ' ') { r.err = "bad status line " + esc(l); return r; }
  r.minor = l[7] - '0'; r.code = atoi(l.c_str() + 9); r.reason = l.substr(13);
  while (true) {
    if (!line(l)) return r;
    if (l.empty()) break;
    size_t c = l.find(':'); if (c == string::npos || !is_token(l.substr(0, c))) { r.err = "bad header line " + esc(l); return r; }
    size_t v = c + 1; while (v < l.size() && (l[v] == ' ' || l[v] == '\t')) v++;
    size_t e = l.size(); while (e > v && (l[e - 1] == ' ' || l[e - 1] == '\t')) e--;
    r.h.push_back({l.substr(0, c), l.substr(v, e - v)});
  }
  const string *te = r.get("Transfer-Encoding"), *cl = r.get("Content-Length");
  if (te && cl) { r.err = "both Content-Length and Transfer-Encoding"; return r; }
  if (r.count("Content-Length") > 1) { r.err = "two Content-Length"; return r; }
  long n = -1;
  if (cl) { if (cl->empty() || cl->find_first_not_of("0123456789") != string::npos) { r.err = "bad Content-Length " + esc(*cl); return r; } n = atol(cl->c_str()); }
  if (head || r.code == 304 || r.code == 204 || r.code / 100 == 1) { r.used = p; return r; }
  if (te) {
    if (strcasecmp(te->c_str(), "chunked")) { r.err = "unknown transfer encoding"; return r; }
    if (r.minor == 0) { r.err = "chunked in HTTP/1.0"; return r; }
    r.chunked = true;
    while (true) {
      if (!line(l)) return r;
      if (l.empty() || l.size() > 8 || l.find_first_not_of("0123456789abcdefABCDEF") != string::npos) { r.err = "bad chunk size " + esc(l); return r; }
      size_t k = strtoul(l.c_str(), 0, 16);
      if (k == 0) { if (!line(l)) return r; if (!l.empty()) { r.err = "trailers " + esc(l); return r; } break; }
      if (s.size() - p < k) { r.body += s.substr(p); r.incomplete = true; return r; }
      r.body += s.substr(p, k); p += k;
      if (s.size() - p < 2) { r.incomplete = true; return r; }
      if (s.compare(p, 2, "\r\n")) { r.err = "chunk not followed by CRLF"; return r; }
      p += 2;
    }
  } else if (n >= 0) {
    if ((long)(s.size() - p) < n) { r.body = s.substr(p); r.incomplete = true; p = s.size(); r.used = p; return r; }
    r.body = s.substr(p, n); p += n;
  } else { r.close_delimited = true; r.body = s.substr(p); p = s.size(); if (!eof) r.incomplete = true; }
  r.used = p; return r;
}

// ---- temporary files made by the library --------------------------------------------------------
extern vector<string> tmp_made; // filled by the mkstemp wrapper (tmpwrap.cpp)
inline string tmp_left() { for (auto &f : tmp_made) if (exists(f)) return f; return ""; }
inline void tmp_reset() { for (auto &f : tmp_made) unlink(f.c_str()); tmp_made.clear(); }
}
