// C05: control flow.
#include "drive.h"
using namespace drv; using namespace eng; using ref::ND;
void eng::families(std::vector<Family>& out){
	static const int T = thorough();
	{
		Family f; f.name = "single"; f.what = "every control instruction x operands x incoming delta x place relative to the wrap edge x dialect";
		static const std::string ops = "<>^v_|#@zr[]wxjtqhlm;?"; static std::vector<i64> vs = {0, 1, -1, 2, -2, 3, 5, INT64_MIN, INT64_MAX};
		static std::vector<Pos> ds = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {2, 0}, {-2, 3}, {0, 0}};
		f.total = ops.size() * vs.size() * vs.size() * ds.size() * 3 * 3;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; int cf = m.take(3); c.cfg = cf == 0 ? cfg98() : cf == 1 ? cfg98(3) : cfg93();
			char op = ops[m.take(ops.size())]; i64 a = pick(m, vs), b = pick(m, vs); c.delta = pick(m, ds); int place = m.take(3);
			static const char* T3[3] = {"X1;@\n2345\n;67;", ";12X\n3z56\n7;80", "1234\n5X;7\n8;@a"};
			std::string t = T3[place]; size_t k = t.find('X'); t[k] = op; c.text = t;
			c.pos = place == 0 ? Pos{0, 0} : place == 1 ? Pos{3, 0} : Pos{1, 1};
			if(cf == 2 && c.delta[0] * c.delta[0] + c.delta[1] * c.delta[1] != 1) return;
			c.stack = {7, a, b}; if(op == 'x' && cf == 1) c.stack = {7, 1, a, b}; c.maxTicks = 5; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "iterate"; f.what = "k with every count, every kind of gap before its operand and every operand instruction";
		static const std::string ops = "0a+:$.,<>^v_|#@zr[]wxjnpg\"';sk{}uqty!~&()=Q \t";
		static std::vector<std::string> gaps = {"", " ", "   ", ";x;", ";1; ", " ;; ;@;", ";;;;"}; static std::vector<i64> cnt = {0, 1, 2, 3, 5, -1, -7};
		static std::vector<std::vector<i64>> st = {{}, {1, 2, 3}, {4, 0, 1, 1, 1}, {0, 2}};
		static std::vector<Pos> ds = {{1, 0}, {-1, 0}};
		f.total = ops.size() * gaps.size() * cnt.size() * st.size() * ds.size() * 2;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(); char op = ops[m.take(ops.size())]; std::string g = pick(m, gaps); i64 n = pick(m, cnt); c.stack = pick(m, st); c.delta = pick(m, ds); bool edge = m.take(2);
			if(c.stack.empty() && 0) return;
			std::string t = "k" + g + op + (edge ? "" : "1234");
			if(c.delta[0] < 0){ t = std::string(t.rbegin(), t.rend()); c.pos = Pos{(i64)t.size() - 1}; }
			c.text = t + "\n5678901\n@z"; c.stack.push_back(n); c.input = "12 3x"; c.maxTicks = 12; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "kk"; f.what = "k nested and chained: every string of the iterate alphabet with counts";
		static const std::string al = "k023+.z ;"; static const int n = T ? 6 : 5;
		f.total = 1; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); for(int k = 0; k < n; ++k) c.text += al[m.take(al.size())]; c.text += "@"; c.stack = {9, 1, 0, 2}; c.maxTicks = 25; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "wide-operand"; f.what = "k applied to cells whose value only matters beyond one byte";
		static std::vector<i64> vals = {256 + '1', 256 + '@', 512 + ' ', -1, 256 + ';', (1ll << 32) + '1', INT64_MIN + '@', 0, 127, 128, 255}; static std::vector<i64> cnt = {0, 1, 2};
		f.total = vals.size() * cnt.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); i64 v = pick(m, vals), n = pick(m, cnt); int p = m.take(3); c.text = p == 0 ? "kX5@" : p == 1 ? "k X5@" : "k;;X4@"; i64 at = p == 0 ? 1 : p == 1 ? 2 : 3; c.cells = {{Pos{at}, v}}; c.stack = {3, n}; c.maxTicks = 10; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "jump"; f.what = "j with every small count in every direction and place, with and without blanks";
		static std::vector<std::string> pr = {"j12345@", "12j 45@", "12345j@", " j  3 @", "j", "j;1;2@"};
		static std::vector<Pos> ds = {{1, 0}, {-1, 0}, {2, 0}, {-3, 0}, {0, 1}};
		f.total = 41 * pr.size() * ds.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); i64 n = (i64)m.take(41) - 20; c.text = pick(m, pr); c.delta = pick(m, ds); c.pos = Pos{(i64)c.text.find('j')}; c.stack = {n}; c.maxTicks = 8; run(c, x); };
		out.push_back(f);
	}
	{
		static const std::vector<i64> W = {100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, -100, -127, -128, -129, -200, -255, -256, -257, -300, 32767, 32768, 65535, 65536, 65537, -32769, -65536};
		Family f; f.name = "wide-counts"; f.what = "jumps, iterations and absolute deltas with counts around the limits of narrow integers, on rows shorter and longer than the count";
		static const std::vector<std::string> op = {"j", "k1", "k:", "kz", "k+", "x", "w"}; static const std::vector<int> len = {3, 50, 150, 280, 700};
		f.total = W.size() * op.size() * len.size() * 2; f.recycle = 200;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); c.cfg.dims = 2; i64 n = pick(m, W); std::string o = pick(m, op); int l = pick(m, len); bool second = m.take(2); if(o[0] == 'k' && (n > 5000 || n < -5000)) return; c.text = std::string(second ? 5 : 0, ' ') + o; for(int k = 0; k < l; ++k) c.text += "0123456789"[k % 10]; c.text += "\n@"; c.pos = Pos{second ? 5 : 0};
			c.stack = {}; for(int k = 0; k < 320; ++k) c.stack.push_back(k); if(o == "x"){ c.stack.push_back(n); c.stack.push_back(second ? 1 : 0); } else if(o == "w"){ c.stack.push_back(n); c.stack.push_back(second ? n - 1 : n + 256); } else c.stack.push_back(n); c.maxTicks = 4; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "sequence"; f.what = "every program of bounded length over the control instructions";
		static const std::string al = T ? "<>v^#_|rj[]wx;k12@" : "<v#_|rj[w;k1-x"; static const int n = 4;
		f.total = 3; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); int s = m.take(3); for(int k = 0; k < n; ++k) c.text += al[m.take(al.size())]; c.text += "4@\n1z_;@2"; c.stack = s == 0 ? std::vector<i64>{} : s == 1 ? std::vector<i64>{1, 0, -1, 2} : std::vector<i64>{0, 1, 1, 3, 0}; c.maxTicks = 20; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "random"; f.what = "? selects only unit vectors and each of the 2N directions is reached";
		f.total = 5;
		f.run = [](u64 i, Ctx& x){
			int dims = i == 0 ? 1 : i == 1 || i == 4 ? 2 : i == 2 ? 3 : 4; std::set<Pos> seen;
			Case c; c.cfg = i == 4 ? cfg93() : cfg98(dims); c.text = "?";
			static const char back[] = "<>^v";
			for(int d = 0; d < dims; ++d) for(int s = 0; s < 2; ++s){ Pos p; p[d] = s ? -1 : 1; if(i == 4 && s) p[d] = d ? 24 : 79; c.cells.push_back({p, i == 4 ? back[2 * d + s] : 'r'}); }
			c.maxTicks = 300 * dims; c.stopBefore = [&](ref::Machine&, ref::IP& ip){ if(ip.pos != Pos()) seen.insert(ip.delta); return false; };
			run(c, x);
			if(!x.failed && (int)seen.size() != 2 * dims) x.fail("? reached only " + std::to_string(seen.size()) + " of " + std::to_string(2 * dims) + " directions in " + std::to_string(150 * dims) + " draws");
		};
		f.recycle = 1;
		out.push_back(f);
	}
}
