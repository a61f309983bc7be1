// A corpus of client messages that together reach every state of the request parser.
#pragma once
#include "onh.hpp"
namespace onh {
struct Msg { string name, wire; bool ok; size_t epilogue = 0; };
inline string rep(const char *s, int n) { string r; while (n--) r += s; return r; }
inline string part(const string &hdr, const string &content, const string &nl = "\r\n") { return hdr + nl + nl + content + nl; }
inline Msg post_multipart(const string &name, const string &ct, const string &b, const vector<string> &parts, bool ok = true, const string &nl = "\r\n", const string &end = "\r\n") {
  string body; for (auto &p : parts) body += "--" + b + nl + p; body += "--" + b + "--" + end;
  return {name, "POST /up HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + ct + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body, ok, end.size()};
}
inline Msg with_body(const string &name, const string &line, const string &hdrs, const string &body, bool ok = true) { return {name, line + "\r\n" + hdrs + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body, ok}; }
inline vector<Msg> corpus() {
  vector<Msg> m;
  const string CD = "Content-Disposition: form-data; ";
  m.push_back({"get", "GET / HTTP/1.1\r\n\r\n", true});
  m.push_back({"get10", "GET /a/b.html HTTP/1.0\r\nHost: x\r\n\r\n", true});
  m.push_back({"get10ka", "GET /a HTTP/1.0\r\nConnection: Keep-Alive\r\n\r\n", true});
  m.push_back({"get11close", "GET /a HTTP/1.1\r\nConnection: close\r\n\r\n", true});
  m.push_back({"noversion", "GET /a?b=c\nHost: x\n\n", true});
  m.push_back({"lf", "HEAD /lf?x HTTP/1.1\nHost: h\nA:b\n\n", true});
  m.push_back({"version-space", "GET /vs HTTP/1.1 \r\nHost: h\r\n\r\n", true});
  m.push_back({"leading-newlines", "\r\n\r\n\nGET /nl HTTP/1.1\r\nHost: h\r\n\r\n", true});
  m.push_back({"query", "GET /q%20%41?a=1&b=%3D%26+x&c&d=&=e&a=2 HTTP/1.1\r\nHost: h\r\n\r\n", true});
  m.push_back({"headers", "DELETE /h HTTP/1.1\r\nHost: a:80\r\nEmpty:\r\nEmpty2: \r\nspaces:   \t v  w \r\nTAB:\tx\r\nX: 1\r\nx: 2\r\n\r\n", true});
  m.push_back({"folded", "OPTIONS /f HTTP/1.1\r\nA: b\r\n c\r\n\t d\r\nB:\r\n e\r\nC: f\r\n \r\nD: g\r\n\r\n", true});
  m.push_back({"folded-lf", "MKCOL /f HTTP/1.1\nA: b\n c\n\t d\nB:\n e\nC: f\n \nD: g\n\n", true});
  m.push_back({"cookies", "GET /c HTTP/1.1\r\nCookie:  a=b; c=d=e;f=; g; =h;i=j\r\n\r\n", true});
  m.push_back(with_body("urlencoded", "POST /p?q=1 HTTP/1.1", "Content-Type: application/x-www-form-urlencoded; charset=utf-8\r\n", "a=b&c=%41+d&e&f=g%3d=h"));
  m.push_back(with_body("urlencoded-empty", "POST /p HTTP/1.1", "Content-Type: application/x-www-form-urlencoded\r\n", ""));
  m.push_back(with_body("json", "POST /j HTTP/1.1", "Content-Type: application/json\r\n", string("{\"a\":\n\"b\"}\r\n\r\n\0x", 16)));
  m.push_back(with_body("post-notype", "POST /j HTTP/1.1", "", "raw body"));
  m.push_back(with_body("propfind", "PROPFIND /w HTTP/1.1", "Depth: 1\r\n", "<xml>\r\n\r\n</xml>"));
  m.push_back(with_body("get-with-body", "GET /w HTTP/1.0", "Connection: Keep-Alive\r\n", "GET /evil HTTP/1.1\r\n\r\n"));
  m.push_back(with_body("put", "PUT /f.txt HTTP/1.1", "", string("line\r\n\0--b\r\n\xff", 13)));
  m.push_back(with_body("put-empty", "PUT /f.txt HTTP/1.1", "", ""));
  m.push_back(with_body("put-big", "PUT /f.txt HTTP/1.1", "", rep("0123456789", 320)));
  m.push_back(post_multipart("mp-field", "b", "b", {part(CD + "name=\"n\"", "v")}));
  m.push_back(post_multipart("mp-fields", "\"bb\"", "bb", {part(CD + "name=\"n\"", ""), part(CD + "name=x", "\r\n-\r\n--\r\n--b\r\n"), part("X-Y: z\r\n" + CD + "name=\"n2\"", "--bb")}));
  m.push_back(post_multipart("mp-file", "b; charset=utf-8", "b", {part(CD + "name=\"f\"; filename=\"a;b.txt\"\r\nContent-Type: text/plain", string("x\r\n\r\n-\r\r\n--\n--\0\n-b\n\r", 21))}));
  m.push_back(post_multipart("mp-mixed", "--xYz", "--xYz", {part(CD + "name=\"a\"", "1"), part(CD + "filename=\"e\"; name=\"f\"", ""), part(CD + "name=\"f\"; filename=\"two\"", "\r\n"), part(CD + "name=\"a\"", "2")}));
  m.push_back(post_multipart("mp-lf", "b", "b", {part(CD + "name=\"n\"", "v\n-", "\n"), part(CD + "name=\"f\"; filename=\"g\"", "w\r\n\r", "\n")}, true, "\n", ""));
  m.push_back(post_multipart("mp-big", "b", "b", {part(CD + "name=\"f\"; filename=\"g\"", rep("\r\n--x", 300)), part(CD + "name=\"n\"", rep("0123456789", 40))}));
  m.push_back(post_multipart("mp-none", "b", "b", {}));
  // refused
  m.push_back({"unknown-method", "FOO / HTTP/1.1\r\nHost: a\r\n\r\n", false});
  m.push_back({"header-no-colon", "GET / HTTP/1.1\r\nHost a\r\n\r\n", false});
  m.push_back({"form-no-length", "POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n", false});
  m.push_back({"put-no-length", "PUT / HTTP/1.1\r\n\r\n", false});
  m.push_back({"version-junk", "GET / HTTP/1.1 junk\r\n\r\n", false});
  m.push_back(with_body("mp-wrong-start", "POST / HTTP/1.1", "Content-Type: multipart/form-data; boundary=b\r\n", "--c\r\n\r\n", false));
  m.push_back(post_multipart("mp-nameless", "b", "b", {part(CD + "filename=\"x\"", "data")}, false));
  m.push_back(with_body("mp-bad-next", "POST / HTTP/1.1", "Content-Type: multipart/form-data; boundary=b\r\n", "--bX\r\n\r\n", false));
  m.push_back(with_body("mp-bad-header", "POST / HTTP/1.1", "Content-Type: multipart/form-data; boundary=b\r\n", "--b\r\nnocolon\r\n\r\n", false));
  m.push_back({"long-url", "GET /" + rep("a", 8200) + " HTTP/1.1\r\n\r\n", false});
  m.push_back({"long-header-name", "GET / HTTP/1.1\r\n" + rep("a", 8200) + ": b\r\n\r\n", false});
  m.push_back({"long-header-value", "GET / HTTP/1.1\r\nA: " + rep("a", 8300) + "\r\n\r\n", true});
  return m;
}
}
