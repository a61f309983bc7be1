#include "ws.hpp"
namespace wst {
string rx; size_t rx_pos; std::set<size_t> cuts; size_t piece; bool in_ws; int reads_at_end; Server *sv; std::function<int(onion_request *, onion_response *)> handler;
void init() { sv = new Server([](onion_request *q, onion_response *r) { return handler(q, r); }); sv->lp->read = ws_read; }
}
extern "C" int __wrap_poll(struct pollfd *p, nfds_t n, int) { for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events & POLLIN; return n; }
extern "C" unsigned __wrap_sleep(unsigned) { return 0; }
