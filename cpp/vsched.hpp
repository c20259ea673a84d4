// Stateless model checking of real multi-threaded C++ code.
//
// The code under test is compiled with -fsanitize=thread but linked against vsched.cpp instead of the sanitizer's own
// runtime.  Exactly one thread runs at a time; before every synchronisation operation (mutex, condition variable,
// thread creation/join, atomic access, yield, sleep) the explorer chooses which thread goes on.  All choices with at
// most `preemptions` switches away from a thread that could go on, and at most `detours` choices of another thread than the
// next one in turn where the running one blocks or yields, are enumerated depth first, by re-execution.  Plain memory accesses are checked for data
// races with vector clocks, and for use after free; since executions without races are determined by the order of
// their synchronisation operations, nothing is lost by not switching between plain accesses.
#pragma once
#include <functional>
#include <string>
#include "vf.hpp"

namespace vs {
struct Opt { int preemptions = 2, detours = 2; long max_execs = 1L << 40; long max_steps = 50000; bool spurious = false; };
// Runs body under every schedule; body creates and joins its threads itself. Violations end the process (after writing the result).
void explore(const Opt& o, vf::Stats& st, const std::function<void()>& body, const std::string& what);
[[noreturn]] void fail(const std::string& sig, const std::string& msg);   // from any thread of an execution
bool active();
void point();                  // an extra scheduling point (harness code)
int choose(int n);             // a data choice, enumerated like schedules
}
