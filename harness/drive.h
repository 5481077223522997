// Runs the real interpreter one tick at a time next to the reference machine and compares them.
#pragma once
#include "engine.h"
#include "ref.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace Funge { class FungeUniverse; class FungeRunner; }

namespace drv {
using ref::i64; using ref::u64; using ref::Pos;
enum Fmt { BF, FL, BEQ };
struct Case {
	ref::Config cfg;
	std::string text; Fmt fmt = BF;
	std::vector<std::pair<Pos, i64>> cells;     // stored after loading
	std::string input;
	Pos pos, delta{1}, storage;
	std::vector<i64> stack;                     // initial top stack, bottom first
	std::vector<std::vector<i64>> below;        // stacks beneath it, deepest first
	unsigned mode = 0;
	int maxTicks = 300;
	bool useFiles = false;
	std::map<std::string, std::string> files;
	std::set<std::string> dirs;
	bool useFing = false;                       // funge-lib files are present
	int systemRet = 0; i64 now = 1234567890, nowNs = 123456789, stepNs = 1000; // the clock, and by how much it moves in a tick
	bool finalField = true;                     // compare the whole window at the end
	int freeTicks = 0;                          // outside the model, carry on without comparison for so many ticks
	bool wholeField = false;                    // compare every cell, the bounds and the dimensions after loading
	std::function<void(ref::Machine&, Funge::FungeUniverse&, eng::Ctx&)> atEnd;
	std::function<bool(ref::Machine&, ref::IP&)> stopBefore;   // cut before this tick
	std::function<void(ref::Machine&, Funge::FungeUniverse&)> beforeTick;      // may change both alike
	std::string label;
};
struct Result { bool ended = false, cut = false, diverged = false, unmodelled = false; int ticks = 0; std::string out; };
Result run(const Case& c, eng::Ctx& ctx);
void poke(ref::Machine& m, Funge::FungeUniverse& u, const Pos& p, i64 v);   // a cell of the model and of the real funge-space
std::string describe(const Case& c);
std::string fingDir();
ref::Config cfg98(int dims = 2);
ref::Config cfg93(int dims = 2);
ref::Config cfgFish(bool star = false);
// helpers for enumerations
struct Mixed {                                  // mixed radix decoding of an index
	u64 v; explicit Mixed(u64 x) : v(x) {}
	u64 take(u64 n){ u64 r = v % n; v /= n; return r; }
};
template<class T> const T& pick(Mixed& m, const std::vector<T>& l){ return l[m.take(l.size())]; }
extern const std::vector<i64> EDGE;             // interesting 64-bit values
// every sequence of exactly n of the given tokens, between two texts, from every given initial stack
void sequences(std::vector<eng::Family>& out, const char* name, const char* what, const std::vector<std::string>& tokens, int n, const Case& base, const std::vector<std::vector<i64>>& stacks, const char* pre = "", const char* post = "@", unsigned recycle = 4000);
std::vector<std::string> letters(const std::string& s);
// every pair (op, operands): a single instruction executed on every combination of nArgs values over a base stack
void products(std::vector<eng::Family>& out, const char* name, const char* what, const std::vector<std::string>& ops, int nArgs, const std::vector<i64>& values, const Case& base, const char* post = "1@", unsigned recycle = 4000);
const std::string* fungelibText(const std::string& name);
}
