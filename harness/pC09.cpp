// C09: console input and output.
#include "drive.h"
using namespace drv; using namespace eng;
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	{
		Family f; f.name = "input"; f.what = "every input of bounded length x every short program of & and ~ (with echo of what was read)";
		static const std::string al = T ? std::string("09-+ \n\rax\xff", 10) : std::string("09- \n\ra\xff", 8); static const int n = T ? 5 : 4;
		static std::vector<std::string> pr = {"&.&.&.@", "~.~.~.~.~.@", "&.~.&.~.@", "~.&.~.&.@", "&~..@", "&&~~~....@"};
		static std::vector<u64> pw; pw = {1}; for(int k = 0; k < n; ++k) pw.push_back(pw.back() * al.size());
		u64 tot = 0; for(u64 p : pw) tot += p;
		static u64 per; per = tot; f.total = per * pr.size() * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); u64 k = m.take(per); std::string in; int len = 0; while(k >= pw[len]){ k -= pw[len]; ++len; } for(int q = 0; q < len; ++q){ in += al[k % al.size()]; k /= al.size(); }
			Case c; c.text = pick(m, pr); c.cfg = m.take(2) ? cfg98() : cfg93(); c.input = in; c.maxTicks = 40; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "numbers"; f.what = "numbers of every length around the cell width with every neighbour";
		static std::vector<std::string> nu = {"0", "00", "007", "9", "10", "255", "256", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775806", "-1", "--5", "-9223372036854775807", "+12", "1e5", "0x1F", "1.5", "-"};
		static std::vector<std::string> pre = {"", " ", "\n", "a", "-", "- ", "\r\n", "zz-", "\t"}, post = {"", " ", "\n", "\r\n", "x", "-", " 12", "\t3", "a4\n"};
		f.total = nu.size() * pre.size() * post.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.input = pick(m, pre); c.input += pick(m, nu); c.input += pick(m, post); int k = m.take(3); c.text = k == 0 ? "&.~.&.@" : k == 1 ? "~&~..." "@" : "&&&.." ".@"; c.cfg = cfg98(); c.maxTicks = 30; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "digits"; f.what = "a number of every length up to 40 with each leading digit, as far as its value fits a cell";
		f.total = 40 * 10 * 18 * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int l = 1 + m.take(40); char d = '0' + m.take(10); int tail = 1 + m.take(18); int k = m.take(3); if(tail > l) return; Case c; c.cfg = cfg98(); c.input = (k == 1 ? "-" : "") + std::string(l - tail, '0') + std::string(1, d) + std::string(tail - 1, '5') + (k == 2 ? "" : "\n"); c.text = "&.~.@"; c.maxTicks = 10; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "output"; f.what = "every byte value and boundary value written by . and , in every dialect, singly and in sequence";
		static std::vector<i64> v; for(i64 k = -300; k < 600; ++k) v.push_back(k); for(i64 e : EDGE) v.push_back(e);
		for(int b = 0; b < 64; ++b){ v.push_back((i64)(1ull << b)); v.push_back(-(i64)(1ull << b)); v.push_back((i64)(1ull << b) - 1); } for(i64 p = 1, k = 0; k < 19; ++k){ v.push_back(p); v.push_back(-p); v.push_back(p - 1); if(k < 18) p *= 10; }
		static std::vector<std::string> pr = {".@", ",@", ".,@", ",.@", "..@", ",,@", ":.,@"};
		f.total = v.size() * pr.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; i64 a = pick(m, v); c.text = pick(m, pr); int d = m.take(3); c.cfg = d == 0 ? cfg98() : d == 1 ? cfg93() : cfg98(1); c.stack = {a, a}; c.maxTicks = 6; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "reflect"; f.what = "input instructions at end of input: what follows them, what came before, in every direction";
		static const std::string al = "&~.,1:r"; static const int n = T ? 5 : 4; static std::vector<std::string> in = {"", "4", "4 ", "\n", "a"};
		f.total = in.size() * 2; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); c.input = pick(m, in); bool b = m.take(2); std::string t; for(int k = 0; k < n; ++k) t += al[m.take(al.size())]; c.text = "@2" + t + "3@"; if(b){ c.pos = Pos{(i64)c.text.size() - 2}; c.delta = Pos{-1}; } else c.pos = Pos{1}; c.maxTicks = 20; run(c, x); };
		out.push_back(f);
	}
}
