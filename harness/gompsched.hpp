// A stand-in for libgomp whose threads take turns as a schedule says. See gompsched.cpp.
#pragma once
#include <vector>

namespace gompsched {
// From now on parallel regions have `threads` threads. `choices` (used cyclically) decide who goes on at each point
// where a thread could be overtaken.
void set(int threads, const std::vector<unsigned> &choices);
unsigned long switches();  // how often another thread went on, so far
}  // namespace gompsched
