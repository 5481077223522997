// C19: *><> programs.
#include "fishcommon.h"
using namespace drv; using namespace eng;
static const std::string ALL = "0123456789abcdef><v^\\/|_#!?.+-*,%=)('\":~$@l{}r[]oni&gp;`CRuOIDFShms";
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	{
		Family f; f.name = "single"; f.what = "every instruction on every stack of at most four values from a small set, on one, two or three stacks with each selected, above and under water";
		static std::vector<double> v = {0, 1, 3, -2}; static int n = T ? 4 : 3; static std::vector<std::string> pre = {"", "1[", "1[1[", "1[D", "1[1[D", "1[1[DD", "u", "1[u", "uO"};
		f.total = ALL.size() * pre.size() * (n + 1); for(int k = 0; k < n; ++k) f.total *= v.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = fish(true, 12); char o = ALL[m.take(ALL.size())]; c.text = pick(m, pre) + std::string(1, o) + "1n;"; int len = m.take(n + 1); c.stack = DS({9, 8}); for(int k = 0; k < n; ++k){ double d = v[m.take(v.size())]; if(k < len) c.stack.push_back(D(d)); } c.useFiles = o == 'F'; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "fisherman"; f.what = "every sequence of fishermen and turns from every direction"; static const std::string al = T ? "`><v^\\/|_#1" : "`>v^\\/#"; static int n = T ? 5 : 5; static std::vector<Pos> de = {{1}, {-1}, {0, 1}, {0, -1}};
		f.total = de.size(); for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = fish(true, 16); c.delta = pick(m, de); c.pos = Pos{2, 2}; std::string q; for(int k = 0; k < n; ++k) q += al[m.take(al.size())]; std::string w = q + q + q + q + q; c.text = w.substr(0, 5) + "\n" + w.substr(3, 5) + "\n" + w.substr(1, 5) + "\n" + w.substr(4, 5) + "\n" + w.substr(2, 5); run(c, x); };
		out.push_back(f);
	}
	sequences(out, "calls", "every sequence of bounded length of calls, returns, stack selection and stack creation", letters(T ? "0123CRDI[]~l" : "012CRDI[]"), T ? 6 : 6, fish(true, 30), {{}, DS({4, 0, 5, 0})}, "", "n;");
	sequences(out, "selection", "every sequence of bounded length of stack selection among several stacks and stack instructions", letters(T ? "DI12~:${}rl&+" : "DI1~:$}r+"), 5, fish(true, 30), {DS({1, 2, 3, 4, 5, 6})}, "2[1[3[D", "DDDnnnn;");
	sequences(out, "dive", "every sequence of bounded length of dive, rise, movement and other instructions", letters(T ? "uO`><1n!#|_:" : "uO`>1n!#"), T ? 6 : 6, fish(true, 30), {DS({7, 8})}, "", "On;", 4000);
	{
		Family f; f.name = "call-grid"; f.what = "calls of every cell and returns from it, with every delta"; static std::vector<Pos> de = {{1}, {0, 1}};
		f.total = 6 * 4 * de.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int tx = m.take(6), ty = m.take(4); Case c = fish(true, 40); Pos d = pick(m, de); int k = m.take(3); c.stack = DS({5}); c.text = std::to_string(tx) + std::to_string(ty) + "Cn" + "1;\nR1nR2n\n3[RC4n\nRRRRRR"; if(k == 1) c.text = "v" + c.text; if(k == 2) c.text = "00C1n;"; (void)d; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "files"; f.what = "every sequence of bounded length of file, input and output instructions with files that exist, are empty or do not exist";
		static const std::vector<std::string> tok = {"'a'1F", "'b'1F", "'z'1F", "'ba'2F", "0F", "i", ":1+?o", "'xy'2F", "3F", "n"}; static int n = T ? 5 : 4; static std::vector<std::map<std::string, std::string>> fs = {{}, {{"a", "hello"}, {"b", ""}, {"ab", "q\nr"}}};
		f.total = fs.size(); for(int k = 0; k < n; ++k) f.total *= tok.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = fish(true, 80); c.useFiles = true; c.files = pick(m, fs); for(int k = 0; k < n; ++k) c.text += pick(m, tok); c.text += "ln;"; c.input = "IN"; c.stack = DS({65, 66, 67, 68}); run(c, x); };
		out.push_back(f);
		Case d = fish(true, 20); d.useFiles = true; d.cfg.filesystem = false; d.files = {{"a", "hello"}}; d.input = "IN";
		sequences(out, "files-disabled", "the file instruction without file system access", tok, 2, d, {DS({65})}, "", "ln;");
	}
	{
		Family f; f.name = "clock"; f.what = "the time instructions at every minute of a day and around midnight"; f.total = 1440 + 120;
		f.run = [](u64 i, Ctx& x){ Case c = fish(true, 20); c.now = i < 1440 ? 1709164800 + (i64)i * 60 + (i % 60) : 1735689540 + (i64)(i - 1440); c.text = "hnmnsn;"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "every-cell"; f.what = "every cell value as the instruction"; f.total = 771 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); bool u = m.take(2); Case c = fish(true, 6); c.text = u ? "u  On;" : "   2n;"; c.cells = {{Pos{1}, (i64)m.take(771) - 70}}; c.stack = DS({3, 1, 2, 1, 1, 7}); c.useFiles = true; run(c, x); };
		out.push_back(f);
	}
	sequences(out, "fish", "the instructions of ><> keep their meaning: every sequence of bounded length", letters(T ? "0123+-,%[]:~${}r&ln" : "012+-,[]~$r&"), T ? 5 : 4, fish(true, 30), {{}, DS({1, 2, 3, 4})}, "", "n;");
}
