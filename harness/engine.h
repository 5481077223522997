// Exhaustive-enumeration engine.  A check is a list of families; a family is a finite, indexed set of
// executions, every one of which is run.  Workers are forked processes, so a crash or hang is attributed
// to the execution that caused it.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace eng {
typedef uint64_t u64;
enum Cnt { C_TRANS, C_TRACES, C_CASES, C_CUT, C_DIVERGE, C_UNMOD, C_ADOPT, C_FILES, C_SCHED, C_BLOCK, C_N };
struct Ctx {
	std::string fam; u64 idx = 0; bool replay = false;
	void state(u64 h);                       // a state was reached (counted once)
	void add(Cnt c, u64 n = 1);
	void fail(const std::string& msg);       // the property is violated by this execution
	void sample(const std::string& s);       // describe this execution (kept for a few)
	void note(const std::string& reason);    // count a named event (e.g. why an execution was cut short)
	bool failed = false; std::string failMsg;
	std::string key;                         // identity of the case for known findings; default fam:idx
	std::string log;                         // human readable description of the execution
};
struct Family {
	std::string name, what;
	u64 total = 0;
	std::function<void(u64, Ctx&)> run;
	unsigned recycle = 4000;                 // executions per worker process
	double weight = 0;
};
struct Options {
	std::string prop, tier = "quick", out, known, replayDir;
	int workers = 8;
	double deadline = 600, caseTimeout = 10, caseTimeout2 = 40;
	u64 hashBits = 24;
};
extern Options opt;
bool thorough();
// implemented by each property's translation unit
void families(std::vector<Family>& out);
// per process set-up before any case is run in it (worker or replay)
void workerInit(int slot);
void workerExit();
int engineMain(int argc, char** argv);
std::string quote(const std::string& s);
void crashNote(const std::string& s);        // what is being executed, for the report of a crash or hang
}
