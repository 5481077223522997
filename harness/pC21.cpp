// C21: integer, logic, complex and base fingerprints.
#include "drive.h"
#include <cstring>
using namespace drv; using namespace eng;
static Case with(const char* fp, int ticks = 4){ Case c; c.cfg = cfg98(); c.cfg.fingerprints = {ref::fpid(fp)}; c.maxTicks = ticks; return c; }
static std::vector<i64> SMALL = {0, 1, -1, 2, -2, 3, 5, 7, -7, 10, 12, 100, -100, 1000, INT32_MAX, INT64_MAX, INT64_MIN};
static std::vector<i64> range(i64 a, i64 b){ std::vector<i64> r; for(i64 i = a; i <= b; ++i) r.push_back(i); return r; }
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	// every pair of interesting values, over a deeper stack that must not change
	auto bin = [&](const char* name, const char* fp, const char* ops){
		Case c = with(fp); c.stack = {77, 88, 99};
		products(out, name, "every pair of interesting operands over a deeper stack", letters(ops), 2, EDGE, c);
	};
	bin("bool", "BOOL", "ANOX"); bin("bitw", "BITW", "ANOXLR"); bin("orth-logic", "ORTH", "AEO"); bin("toys-arith", "TOYS", "BDIHN"); bin("fixp-logic", "FIXP", "AOXNSV"); bin("frth", "FRTH", "DOPRL");
	{ Case c = with("BITW"); c.stack = {1}; static std::vector<i64> sh = range(-3, 66); std::vector<i64> v = EDGE; v.insert(v.end(), sh.begin(), sh.end()); products(out, "bitw-shift", "every shift distance", {"L", "R"}, 2, v, c); c = with("TOYS"); products(out, "toys-shift", "every shift distance", {"H"}, 2, v, c); }
	{ Case c = with("CPLI", 5); products(out, "cpli", "every quadruple of operands", letters("ASMDOV"), 4, T ? SMALL : std::vector<i64>{0, 1, -1, 2, -3, 7, 10, -100, 1000, INT32_MAX, INT64_MIN}, c, "1@"); }
	// operands missing from the stack count as zero
	for(const char* fp : {"BOOL", "BITW", "CPLI", "FRTH", "ORTH", "FIXP", "TOYS"}){
		std::string ops = ref::Machine::fpLetters(ref::fpid(fp)); std::string use; for(char c : ops) if(!(fp == std::string("TOYS") ? strchr("ABDEHINP", c) == nullptr : fp == std::string("ORTH") ? strchr("AEO", c) == nullptr : false)) use += c;
		
		for(int n = 0; n < 3; ++n){ std::string nm = std::string("short-") + fp + std::to_string(n); Case c = with(fp); products(out, nm.c_str(), "stacks shorter than the operands", letters(use), n, SMALL, c); }
	}
	{   // FRTH L and P with every depth
		static std::vector<std::vector<i64>> st = {{}, {1}, {1, 2, 3}, {1, 2, 3, 4, 5, 6, 7, 8}}; if(st.size() == 4) for(int z : {130, 260, 300}){ std::vector<i64> v; for(int k = 0; k < z; ++k) v.push_back(k + 1000); st.push_back(v); }
		Family f; f.name = "frth-roll"; f.what = "roll and pick of every depth on stacks of every size"; static std::vector<i64> d = {126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 259, -126, -127, -128, -129, -130, -200, -255, -256, -257, -258, INT64_MIN, INT64_MAX, 100, -100, 1000, 65536, -65536, 1000000}; f.recycle = 100;
		f.total = st.size() * 2 * (24 + d.size());
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("FRTH"); c.stack = pick(m, st); c.text = m.take(2) ? "L1@" : "P1@"; u64 k = m.take(24 + d.size()); c.stack.push_back(k < 24 ? (i64)k - 12 : d[k - 24]); run(c, x); };
		out.push_back(f);
	}
	sequences(out, "frth-sequence", "every sequence of bounded length of FRTH and stack instructions", letters("DLOPR012:-\\$"), T ? 6 : 4, with("FRTH", 30), {{}, {5, 6, 7, 8, 9}});
	sequences(out, "toys-sequence", "every sequence of bounded length of TOYS stack instructions", letters("ABDEHINP012-"), T ? 6 : 4, with("TOYS", 30), {{}, {5, -6, 7, 2, 3}});
	sequences(out, "cpli-sequence", "every sequence of bounded length of CPLI and stack instructions", letters("ASMDOV12-:"), T ? 6 : 4, with("CPLI", 30), {{}, {5, -6, 7, 2, 3, 1}});
	sequences(out, "logic-sequence", "every sequence of bounded length of BOOL, BITW and stack instructions", {"A", "N", "O", "X", "L", "R", "1", "3", "f", "-", ":"}, T ? 6 : 4, with("BITW", 30), {{}, {5, -6, 1023}});
	{   // BASE output
		Family f; f.name = "base-print"; f.what = "printing every interesting number in every base up to 100 and some beyond";
		static std::vector<i64> bs = range(0, 100); bs.insert(bs.end(), {255, 256, 1000, 65536, INT32_MAX, (i64)INT32_MAX + 1, 4294967295ll});
		static std::vector<i64> v = EDGE; for(i64 q : {35, 36, 57, 58, 61, 84, 85, 63 * 64 + 62, 84 * 85 + 83, 99, 1234567}) v.push_back(q); for(i64 q = 36; q < 90; ++q) v.push_back(q);
		f.total = bs.size() * v.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("BASE"); i64 b = pick(m, bs); i64 n = pick(m, v); if(b < 2 && n > 100000) n %= 1000; c.stack = {9, n, b}; c.text = "N@"; run(c, x); };
		out.push_back(f);
		Case c = with("BASE"); c.stack = {3, 4}; products(out, "base-fixed", "printing in binary, octal and hexadecimal", letters("BOH"), 1, v, c, ".@");
	}
	{   // BASE input
		Family f; f.name = "base-read"; f.what = "every input of bounded length over digits, letters and blanks, in every base to 33";
		static const std::string al = T ? "019aAzgVl -" : "01aAzl "; static int n = T ? 4 : 4; static std::vector<i64> bs = T ? range(0, 40) : std::vector<i64>{0, 1, 2, 8, 10, 11, 16, 17, 31, 32, 33, 64};
		f.total = bs.size(); for(int k = 0; k < n; ++k) f.total *= al.size(); f.total *= n + 1;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("BASE", 8); c.stack = {9, pick(m, bs)}; int len = m.take(n + 1); for(int k = 0; k < n; ++k){ char ch = al[m.take(al.size())]; if(k < len) c.input += ch; } c.text = "I.~.@"; run(c, x); };
		out.push_back(f);
	}
	{   // FIXP functions
		Family f; f.name = "fixp"; f.what = "trigonometry, roots and powers on a dense range";
		static const std::string ops = "BJUCITPQ"; static i64 lo = -40000, step = T ? 1 : 37;
		f.total = ops.size() * (u64)(80001 / step);
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("FIXP"); char o = ops[m.take(ops.size())]; i64 v = lo + (i64)m.take(80001 / step) * step; if(o == 'C' || o == 'I' || o == 'T') v *= 100; if((o == 'B' || o == 'J')) v = v / 4; if(o == 'Q' && v < 0) v = -v * 10007; c.stack = {4, v}; c.text = std::string(1, o) + "1@"; run(c, x); };
		out.push_back(f);
		Case c = with("FIXP"); c.stack = {4}; products(out, "fixp-power", "powers", {"R"}, 2, std::vector<i64>{0, 1, 2, 3, 7, 10, -1, -2, -3, 20, 39}, c);
		products(out, "fixp-random", "the random instruction stays within its limit", {"D", "DD", "DDD"}, 3, SMALL, c, "1@");
	}
	{   Case c = with("TOYS", 40); c.stack = {}; products(out, "toys-fold", "sums, products and repetitions", letters("APE"), T ? 4 : 3, std::vector<i64>{0, 1, -1, 2, 5, -7, 1000, INT64_MAX, INT64_MIN}, c); }
	{   // operands that could crash
		static std::vector<i64> bad = {INT64_MIN, INT64_MAX, -1, 1ll << 40};
		Case c = with("TOYS"); products(out, "toys-direction", "TOYS T with every dimension", {"T"}, 2, std::vector<i64>{0, 1, 2, 3, 4, -1, 100, INT64_MAX, INT64_MIN, 1ll << 62, 1ll << 32}, c);
	}
}
