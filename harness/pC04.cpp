// C04: arithmetic, comparison and stack instructions on all 64-bit values.
#include "drive.h"
using namespace drv; using namespace eng;
void eng::families(std::vector<Family>& out){
	static const std::string ops = "+-*/%!`:\\$n0123456789abcdef";
	{
		Family f; f.name = "binary"; f.what = "every ordered pair of boundary values x every instruction x three depths of filler below";
		static std::vector<i64> vals = EDGE;
		if(thorough()) for(int b = 0; b < 64; ++b){ vals.push_back((i64)(1ull << b)); vals.push_back((i64)(1ull << b) - 1); vals.push_back(-(i64)(1ull << b)); }
		f.total = vals.size() * vals.size() * ops.size() * 3;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98();
			char op = ops[m.take(ops.size())]; i64 a = pick(m, vals), b = pick(m, vals); int below = m.take(3);
			c.text = std::string(1, op) + "@";
			for(int k = 0; k < below; ++k) c.stack.push_back(1000 + k);
			c.stack.push_back(a); c.stack.push_back(b);
			run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "sequence"; f.what = "every sequence of instructions of bounded length from every small starting stack";
		static int len; len = thorough() ? 5 : 3; static const std::string alpha = "+-*/%!`:\\$n07af";
		static std::vector<std::vector<i64>> st = {{}, {0}, {5}, {-3, 2}, {INT64_MIN, -1}, {7, INT64_MAX}, {1, 2, 3}};
		f.total = st.size(); for(int k = 0; k < len; ++k) f.total *= alpha.size();
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(); c.stack = pick(m, st);
			for(int k = 0; k < len; ++k) c.text += alpha[m.take(alpha.size())];
			c.text += "@"; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "dialects"; f.what = "every instruction on small stacks in every dialect";
		static std::vector<i64> vals = {0, 1, -1, 9, INT64_MIN, INT64_MAX, 300};
		f.total = ops.size() * vals.size() * vals.size() * 5;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; int d = m.take(5);
			c.cfg = d == 0 ? cfg98(1) : d == 1 ? cfg98(3) : d == 2 ? cfg93(1) : d == 3 ? cfg93(2) : cfg98(4);
			c.text = std::string(1, ops[m.take(ops.size())]) + "@"; c.stack = {pick(m, vals), pick(m, vals)};
			c.maxTicks = 10;
			run(c, x);
		};
		out.push_back(f);
	}
}
