// common parts of the websocket checks: a client that encodes and decodes frames independently, and a transport under our control
#pragma once
#include "onh.hpp"
#include <poll.h>
extern "C" {
#include "onion/websocket.h"
}
namespace wst {
using namespace onh;
struct Frame { int op; string data; bool fin = true; int mask = 1; int form = 0; }; // mask: 0 none, else pattern. form: 0 minimal, 1 16 bits, 2 64 bits
static const unsigned char masks[4][4] = {{0, 0, 0, 0}, {0x12, 0x9a, 0xff, 0x01}, {0, 0, 0, 0}, {0x80, 0x80, 0x7f, 0x00}};
inline string encode(const Frame &f) { string o; o += (char)((f.fin ? 0x80 : 0) | f.op); size_t n = f.data.size(); int form = f.form ? f.form : n < 126 ? 0 : n < 65536 ? 1 : 2; int mb = f.mask ? 0x80 : 0; if (form == 0) o += (char)(mb | n); else if (form == 1) { o += (char)(mb | 126); o += (char)(n >> 8); o += (char)n; } else { o += (char)(mb | 127); for (int i = 7; i >= 0; i--) o += (char)((uint64_t)n >> (8 * i)); } if (f.mask) { const unsigned char *m = masks[f.mask]; o.append((const char *)m, 4); for (size_t i = 0; i < n; i++) o += (char)(f.data[i] ^ m[i & 3]); } else o += f.data; return o; }
// decodes what the server wrote. err is set if it is not a sequence of well formed, final, unmasked, minimal frames
inline vector<Frame> decode(const string &s, string &err, bool &partial) { vector<Frame> o; size_t p = 0; partial = false; while (p < s.size()) { if (s.size() - p < 2) { partial = true; return o; } unsigned char a = s[p], b = s[p + 1]; Frame f; f.fin = a & 0x80; f.op = a & 15; f.mask = b & 0x80; if (a & 0x70) { err = "reserved bits"; return o; } if (f.mask) { err = "masked frame from the server"; return o; } uint64_t n = b & 127; size_t h = 2; if (n == 126) { if (s.size() - p < 4) { partial = true; return o; } n = (unsigned char)s[p + 2] << 8 | (unsigned char)s[p + 3]; h = 4; if (n < 126) { err = "length not minimal"; return o; } } else if (n == 127) { if (s.size() - p < 10) { partial = true; return o; } n = 0; for (int i = 0; i < 8; i++) n = n << 8 | (unsigned char)s[p + 2 + i]; h = 10; if (n < 65536) { err = "length not minimal"; return o; } } if (s.size() - p - h < n) { partial = true; return o; } f.data = s.substr(p + h, n); p += h + n; o.push_back(f); } return o; }
inline string brief(const Frame &f) { return mc::strf("%s%d/%zu%s%s", f.fin ? "" : "~", f.op, f.data.size(), f.mask ? "m" : "", f.form ? f.form == 1 ? "l" : "L" : ""); }
// the client side: bytes that come in pieces
extern string rx; extern size_t rx_pos; extern std::set<size_t> cuts; extern size_t piece; extern bool in_ws; extern int reads_at_end;
inline ssize_t ws_read(onion_request *r, char *d, size_t l) {
  if (!in_ws) return conn_read(r, d, l);
  if (rx_pos >= rx.size()) { if (++reads_at_end > 10000) fail("it keeps on reading a connection that is over"); errno = 0; return 0; }
  if (l == 0) return 0;
  size_t n = std::min(l, rx.size() - rx_pos); if (piece) n = std::min(n, piece); auto it = cuts.upper_bound(rx_pos); if (it != cuts.end()) n = std::min(n, *it - rx_pos);
  memcpy(d, rx.data() + rx_pos, n); rx_pos += n; return n;
}
struct Env { Server *s; std::function<int(onion_request *, onion_response *)> h; };
extern Server *sv; extern std::function<int(onion_request *, onion_response *)> handler; 
void init();
static const char *HS = "GET /ws HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
}
