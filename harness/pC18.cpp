// C18: ><> programs.
#include "fishcommon.h"
#include <cmath>
using namespace drv; using namespace eng;
static const std::string ALL = "0123456789abcdef><v^\\/|_#x!?.+-*,%=)('\":~$@l{}r[]oni&gp;";
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	static std::vector<double> vals = {0, -0.0, 1, -1, 2, -2, 3, 0.5, -0.5, 1.5, 7, 10, 100, 255, 256, 65, 1e6, 1e15, 1e18, -1e18, 123456.789, 1e-7, 1e300, INFINITY, NAN, 9007199254740993.0};
	{
		std::vector<i64> v = DS(vals);
		Case c = fish(false, 3); c.stack = DS({4, 5, 6});
		products(out, "binary", "every pair of interesting operands over a deeper stack", letters("+-*,%=)($@"), 2, v, c, "1;");
		products(out, "unary", "every operand over a deeper stack", letters("?:~nor{}l&!"), 1, v, c, "12;");
		c = fish(false, 3);
		for(int n = 0; n < 3; ++n) products(out, ("short-" + std::to_string(n)).c_str(), "every instruction on stacks of 0, 1 and 2 values", letters(ALL), n, DS({0, 1, 2, -1, 1.5}), c, "1;");
	}
	{
		Family f; f.name = "short"; f.what = "every instruction on every stack of at most five values from a small set, next to a second stack or not";
		static std::vector<double> v = {0, 1, 3, -2}; static int n = T ? 5 : 4;
		f.total = ALL.size() * 2 * (n + 1); for(int k = 0; k < n; ++k) f.total *= v.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = fish(false, 3); char o = ALL[m.take(ALL.size())]; bool two = m.take(2); int len = m.take(n + 1); c.text = std::string(1, o) + "1;"; for(int k = 0; k < n; ++k){ double d = v[m.take(v.size())]; if(k < len) c.stack.push_back(D(d)); } if(two){ c.text = (len ? std::to_string(len) : std::string("0")) + "[" + c.text; c.maxTicks = 5; if(c.stack.empty()) c.stack = DS({9}); } run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "directions"; f.what = "every movement instruction entered with every delta, and what follows";
		static const std::string ops = "><v^\\/|_#!?.x"; static std::vector<Pos> de = {{1}, {-1}, {0, 1}, {0, -1}}; static std::vector<std::vector<i64>> st = {{}, DS({0}), DS({1}), DS({2, 1}), DS({1, 2, 0}), DS({1, 2, 5})};
		f.total = ops.size() * ops.size() * de.size() * st.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = fish(false, 6); char o = pick(m, std::vector<char>(ops.begin(), ops.end())), p = ops[m.take(ops.size())]; c.delta = pick(m, de); c.stack = pick(m, st); c.pos = Pos{2, 2}; c.text = "12345\n6" + std::string(1, p) + std::string(1, p) + std::string(1, p) + "7\n8" + p + o + p + "9\na" + std::string(3, p) + "b\ncdeflfed"; run(c, x); };
		out.push_back(f);
	}
	sequences(out, "stacks", "every sequence of bounded length of stack instructions and stack creation and removal", letters(T ? "0123[]:~$@{}rl&" : "012[]:~${}r&"), T ? 6 : 5, fish(false, 30), {{}, DS({1, 2, 3, 4, 5})}, "", "n;");
	sequences(out, "registers", "every sequence of bounded length of register and stack-of-stacks instructions", letters("12&[]~:"), T ? 8 : 6, fish(false, 30), {{}, DS({1, 2, 3})}, "", "ln;");
	sequences(out, "arithmetic", "every sequence of bounded length of arithmetic and output", letters(T ? "0123af+-*,%=)(n" : "012a+-*,%=)n"), T ? 5 : 5, fish(false, 30), {{}, DS({2.5, -3})}, "", "n;");
	sequences(out, "strings", "every sequence of bounded length of quotes, characters and output", {"\"", "'", "a", " ", "o", "n", "~", ";", "\\", "l"}, T ? 6 : 5, fish(false, 40), {{}, DS({65, 66})}, "", "n;");
	sequences(out, "code", "every sequence of bounded length of code access, reflecting programs that modify themselves", letters(T ? "0123gp:~lan*" : "0123gp~la"), T ? 6 : 5, fish(false, 40), {DS({1, 2, 3, 4})}, "", ";");
	{
		Case c = fish(false, 40); c.input = "aB\n";
		sequences(out, "input", "every sequence of bounded length of input, trampolines and output", letters("io?!:n1)~0"), T ? 6 : 5, c, {{}}, "", ";");
		Family f; f.name = "input-bytes"; f.what = "every input byte, and the end of input"; f.total = 257;
		f.run = [](u64 i, Ctx& x){ Case c = fish(false, 20); if(i < 256) c.input = std::string(1, (char)i) + "z"; c.text = "i:ni:ni:ni~;"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "every-cell"; f.what = "every cell value from -70 to 700 and wide ones as the instruction, with an empty and a filled stack"; static std::vector<i64> wide = {65536, 1ll << 32, (1ll << 32) + '+', INT64_MIN, INT64_MAX, -4294967296ll + '1'};
		f.total = (771 + wide.size()) * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); bool s = m.take(2); u64 k = m.take(771 + wide.size()); Case c = fish(false, 4); c.text = "~z2n;"; if(!s) c.text = " z2n;"; c.cells = {{Pos{1}, k < 771 ? (i64)k - 70 : wide[k - 771]}}; c.stack = DS(s ? std::vector<double>{3, 1, 2, 1, 1, 7} : std::vector<double>{}); run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "grid"; f.what = "every 3x3 program over mirrors, directions, stack and output"; static const std::string al = T ? ">v/\\|_1n" : ">v/\\1n"; static int n = T ? 7 : 7;
		f.total = 1; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = fish(false, 25); std::string t; for(int k = 0; k < n; ++k) t += al[m.take(al.size())]; t = t + "1;"; c.text = t.substr(0, 3) + "\n" + t.substr(3, 3) + "\n" + t.substr(6); run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "print"; f.what = "printing numbers of every size"; static std::vector<double> v; if(v.empty()){ for(int e = -12; e <= 22; ++e) for(double m : {1.0, -1.0, 1.5, -2.75, 9.999999, 1.0 / 3}) v.push_back(m * std::pow(10.0, e)); for(int k = -300; k <= 300; ++k) v.push_back(k / 8.0); }
		f.total = v.size() * 2; f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = fish(false, 4); c.stack = DS({pick(m, v)}); c.text = m.take(2) ? "n;" : "1an;"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "many-stacks"; f.what = "stacks created and removed to a depth of thirty"; f.total = 31 * 31;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int a = m.take(31), b = m.take(31); Case c = fish(false, 400); for(int k = 0; k < a; ++k) c.text += "12&1["; for(int k = 0; k < b; ++k) c.text += "]&"; c.text += "ln;"; c.stack = DS({5}); run(c, x); };
		out.push_back(f);
	}
}
