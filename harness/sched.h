// Controlled scheduler: runs the real program with its real threads, one at a time, under a given schedule,
// and explores every schedule within a bound.  Compiled-in memory access hooks detect data races.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sched {
typedef uint64_t u64;
enum { MAXT = 24, MAXE = 20000 };
enum Verdict { NONE, CLEAN, RACE, DEADLOCK, STEPS, USEFREE, MISUSE, DIVERGED, REDUNDANT };
struct Result {                                  // of one execution
	Verdict verdict = NONE; std::string msg;
	int status = -1, signal = 0;
	std::string out, err;
	std::string trace;                           // the last scheduling decisions
};
struct Program {
	std::vector<std::string> args;               // after the program name
	std::map<std::string, std::string> files;
	std::string input;
};
struct Limits {
	int deviations = 1000;                       // preemptions
	int spurious = 1;                            // wake-ups of a condition variable for no reason
	u64 maxSchedules = 1000000; double maxSeconds = 60;
};
struct Stats { u64 schedules = 0, redundant = 0, events = 0, states = 0; bool complete = false, truncated = false, timed = false; int bound = 0;   // schedules with up to so many preemptions were covered
	 size_t maxThreads = 0; };
// runs every schedule within the limits, up to the order of independent operations; check returns "" or what is wrong with the result
std::string explore(const Program& p, const Limits& l, const std::function<std::string(const Result&)>& check, Stats& st);
std::string describe(const Program& p);
}
