#ifndef WORK_COMMON_H
#define WORK_COMMON_H
#include "sim.h"
#include <string.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <algorithm>
using sim::F; using sim::N; using sim::S; using sim::W;
using sim::MS; using sim::SEC; using sim::US; using sim::ns_t;
// Runs a piece of code under test (simulated heap, system calls and preemption).
#define UR(...) do { sim::User u__; __VA_ARGS__; } while (0)
static inline ns_t in(ns_t d) { return sim::now() + d; }
#endif
