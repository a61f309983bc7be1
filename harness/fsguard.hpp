// stand-ins for the calls that change the file system: they record the place a call would really touch, and only act
// when told to. Link with --wrap of every name in GUARD (registry.py).
#pragma once
#include "onh.hpp"
namespace guard {
using std::string; using std::vector;
extern bool on;               // record
extern bool act;              // and let it happen, when it is inside scratch()
extern bool exdev;            // rename() between different directories fails as between file systems
struct Rec { string op, given, real; };
extern vector<Rec> log;
string real_target(const string &path, bool follow); // the place in the file system that a call on path would touch
inline bool inside(const string &p, const string &base) { return p == base || p.compare(0, base.size() + 1, base + "/") == 0; }
extern std::function<int(const char *op, const char *path)> hook; // called before each call; !=0: fail with that errno
}
