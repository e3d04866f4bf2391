// Shared helpers of the property workloads.
#ifndef PROPS_COMMON_H
#define PROPS_COMMON_H
#include "sim/rt.h"
#include "sim/fs.h"
#include "sim/clock.h"
#include "sim/alloc.h"
#include "sim/thr.h"
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <vector>
using std::string;
using std::vector;

// run one call of the code under test; exceptions are violations unless allowed
template <class F> void guarded(const char* label, F f) {
    sim::Ctx c(label);
    try { f(); }
    catch (const std::exception& e) { string k = string("throw@") + label; sim::violate(k.c_str(), "%s threw %s", label, e.what()); }
    catch (...) { string k = string("throw@") + label; sim::violate(k.c_str(), "%s threw a non-standard exception", label); }
}
inline void check_escapes() {
    if (!simfs::escapes.empty()) sim::violate("escape", "destructive call outside the scratch area: %s", simfs::escapes[0].c_str());
}
// a random fault rule among the given operations; `span` bounds the operation number hit
inline simfs::Rule draw_rule(const vector<std::pair<uint32_t, vector<int>>>& kinds, int span) {
    simfs::Rule r;
    auto& k = kinds[sim::draw((uint32_t) kinds.size())];
    r.ops = k.first;
    r.err = k.second[sim::draw((uint32_t) k.second.size())];
    r.nth = (int) sim::skewed((uint32_t) span);
    r.sticky = sim::flip(1, 3);
    if (r.ops == simfs::WRITE && r.err > 0) r.partial = sim::flip(1, 2) ? (int) sim::draw(1000) : 0;
    return r;
}
#endif
