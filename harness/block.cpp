// Growable byte blocks: every history of appends/rewinds/clears against std::string.
#include "mc.hpp"
#include <string.h>
#include <stdlib.h>
#include "onion/block.h"
#include "onion/log.h"
using std::string; using mc::choose; using mc::fail; using mc::esc;
static unsigned char ctr;
static string fresh(size_t n) { string s; for (size_t i = 0; i < n; i++) { ctr = ctr * 5 + 7; s += (char)(ctr ? ctr : 1); } return s; }
static void same(onion_block *b, const string &m, const char *what) {
  if (onion_block_size(b) != (off_t)m.size()) fail("%s: size %ld, expected %zu", what, (long)onion_block_size(b), m.size());
  const char *d = onion_block_data(b);
  if (d[m.size()]) fail("%s: data is not terminated", what);
  if (memcmp(d, m.data(), m.size())) fail("%s: content differs", what);
  if (onion_block_size(b) != (off_t)m.size()) fail("%s: reading the data changed the size", what);
}
static void apply(onion_block *b, string &m, int op, int len) {
  switch (op) {
  case 0: { string s = fresh(len); char *h = (char *)malloc(len ? len : 1); memcpy(h, s.data(), len); int r = onion_block_add_data(b, h, len); if (r != len) fail("add_data(%d) returned %d", len, r); free(h); m += s; mc::note("add_data %d", len); break; }
  case 1: { string s = fresh(len); char *h = strdup(s.c_str()); onion_block_add_str(b, h); free(h); m += s; mc::note("add_str %d", len); break; }
  case 2: for (int i = 0; i < len; i++) { char c = fresh(1)[0]; onion_block_add_char(b, c); m += c; } mc::note("add_char x%d", len); break;
  case 3: onion_block_rewind(b, len); m.resize((int)m.size() < len ? 0 : m.size() - len); mc::note("rewind %d", len); break;
  case 4: onion_block_clear(b); m.clear(); mc::note("clear"); break;
  case 5: onion_block_min_maxsize(b, len); mc::note("reserve %d", len); break;
  case 6: onion_block_add_block(b, b); m += m; mc::note("append itself"); break;
  case 7: { onion_block *o = onion_block_new(); string s = fresh(len); onion_block_add_data(o, s.data(), len); onion_block_add_block(b, o); onion_block_free(o); m += s; mc::note("append block of %d", len); break; }
  case 8: { onion_block_add_data(b, onion_block_data(b), m.size()); m += m; mc::note("append own data"); break; }
  case 9: { int from = m.size() / 2; string part = m.substr(from); onion_block_add_data(b, onion_block_data(b) + from, m.size() - from); m += part; mc::note("append own tail"); break; }
  case 10: { onion_block_add_char(b, 0); m += '\0'; mc::note("add NUL"); break; }
  }
}
static void run(const int (*ops)[2], int nops, int depth) {
  ctr = 1; size_t l0 = mc::live_bytes();
  { onion_block *b = onion_block_new(); string m; int seq[12];
    for (int i = 0; i < depth; i++) { seq[i] = choose(nops); if (i == 1) mc::shard(); }
    for (int i = 0; i < depth; i++) { if (m.size() < 40000) apply(b, m, ops[seq[i]][0], ops[seq[i]][1]); bool look = (seq[i] + i) % 3 != 0; if (look) same(b, m, "after operation"); }
    same(b, m, "at end"); mc::outcome_h(mc::hash(m)); onion_block_free(b); }
  if (mc::live_bytes() != l0) fail("block leaks");
}
static const int OPS[][2] = {{0, 0}, {0, 1}, {0, 15}, {0, 16}, {0, 17}, {1, 0}, {1, 15}, {1, 16}, {2, 1}, {2, 15}, {2, 16}, {3, 1}, {3, 16}, {4, 0}, {5, 16}, {5, 33}, {6, 0}, {7, 7}, {8, 0}, {9, 0}, {10, 0}};
static const int BIG[][2] = {{0, 1000}, {0, 1023}, {0, 1024}, {0, 1025}, {1, 1023}, {2, 1030}, {2, 5}, {3, 1}, {3, 1024}, {4, 0}, {5, 2048}, {6, 0}, {9, 0}};
static void small() { run(OPS, 21, mc::thorough() ? 6 : 5); }
static void big() { run(BIG, 13, mc::thorough() ? 6 : 5); }
static void lens() { // any two lengths by any two append operations
  static const int ap[] = {0, 1, 2, 7}; int N = mc::thorough() ? 140 : 70; ctr = 3; int a = choose(4), b2 = choose(4); mc::shard(); int x = choose(N), y = choose(N); bool mid = mc::flip();
  onion_block *b = onion_block_new(); string m; apply(b, m, ap[a], x); if (mid) same(b, m, "first"); apply(b, m, ap[b2], y); same(b, m, "second"); apply(b, m, 6, 0); same(b, m, "doubled"); onion_block_free(b);
}
static void grow() { int n = choose(mc::thorough() ? 9000 : 3500); mc::shard(); ctr = 9; onion_block *b = onion_block_new(); string m; apply(b, m, 2, n); same(b, m, "grown by chars"); apply(b, m, 1, 3); same(b, m, "str after"); onion_block_free(b); }
int main(int argc, char **argv) {
  mc::rule("every operation sequence to the depth over sizes at and around the growth steps, every pair of lengths, every char-by-char size; distinct by resulting content");
  mc::add("small", small); mc::add("big", big); mc::add("lens", lens); mc::add("grow", grow);
  return mc::main(argc, argv);
}
