// One scenario: a set of programs, every schedule of which must have an outcome the interleaving model allows.
#pragma once
#include "engine.h"
#include "sched.h"
#include "world.h"
namespace sc {
struct Scenario {
	world::Spec spec;
	std::vector<std::string> opts;
	bool fmv = false;                  // the universes are listed in a multiverse file
	std::map<std::string, std::string> files;
	bool anyOutcome = false;           // only freedom from races, crashes and deadlocks is checked
	sched::Limits lim;
};
void run(Scenario s, eng::Ctx& ctx);
ref::Config cfg98(int dims);
// text of a grid from rows
std::string rows(const std::vector<std::string>& r);
}
