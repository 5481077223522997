// Several universes of reference machines.  Every interleaving of whole ticks is enumerated; the result is the
// set of outcomes a schedule may have.
#pragma once
#include "ref.h"
#include <set>
#include <string>
namespace world {
struct Start { std::string name; ref::Config cfg; std::string text; };
struct Spec {
	std::vector<Start> universes;      // the first is the prime one
	bool native = false;               // IPs of a universe are scheduled freely, not in turn
	std::string input;
	ref::u64 maxStates = 200000;
	int maxTicks = 400;
};
struct Outcomes {
	std::set<std::pair<std::string, int>> set;   // output, exit status
	bool unknown = false; std::string why;
	ref::u64 states = 0, transitions = 0;
	bool has(const std::string& out, int status) const { return set.count({out, status}) > 0; }
	std::string str() const;
};
Outcomes enumerate(const Spec& s);
}
