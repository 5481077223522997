// C07: stack-stack blocks and the storage offset.
#include "drive.h"
using namespace drv; using namespace eng;
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	static std::vector<i64> ns = {0, 1, 2, 3, 4, 5, 9, 100, -1, -2, -3, -7, -100};
	{
		Family f; f.name = "single"; f.what = "{ } and u with every small count, every stack shape and depth, storage offset, position and delta";
		static std::vector<std::vector<i64>> st = {{}, {1}, {1, 2}, {1, 2, 3}, {INT64_MIN, INT64_MAX, 0, -1}, {1, 2, 3, 4, 5, 6}};
		static std::vector<std::vector<std::vector<i64>>> be = {{}, {{}}, {{8}}, {{8, 9}}, {{5, 6, 7, 8, 9}}, {{4}, {5, 6}}, {{1, 2}, {}}};
		static std::vector<Pos> so = {{}, {3, -4, 5}, {INT64_MAX, INT64_MIN}};
		static std::vector<std::string> op = {"{", "}", "u", "{}", "}{", "{u}", "uu", "{{"};
		f.total = ns.size() * st.size() * be.size() * so.size() * op.size() * 3 * 2;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; i64 n = pick(m, ns); c.stack = pick(m, st); c.stack.push_back(n); c.below = pick(m, be); c.storage = pick(m, so); std::string o = pick(m, op); int dims = 1 + m.take(3); bool back = m.take(2);
			c.cfg = cfg98(dims); if(dims < 2) c.storage[1] = 0; if(dims < 3) c.storage[2] = 0;
			c.text = o + "1@"; if(back){ c.text = "@1" + std::string(o.rbegin(), o.rend()); c.delta = Pos{-1}; c.pos = Pos{(i64)c.text.size() - 1}; }
			c.maxTicks = 8; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "sequence"; f.what = "every sequence of stack-stack, stack and storage-relative instructions of bounded length";
		static const std::string al = T ? "{}u012nw:-$pg\\" : "{}u012n:-pg"; static int n = T ? 6 : 5;
		static std::vector<std::vector<i64>> st = {{}, {4, 3, 2, 1, 2}};
		f.total = st.size(); for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); c.stack = pick(m, st); for(int k = 0; k < n; ++k) c.text += al[m.take(al.size())]; c.text += "@"; c.maxTicks = 24; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "storage"; f.what = "g, p and blocks with every combination of storage offset and coordinates, in every dimension";
		static std::vector<Pos> so = {{}, {1}, {-2}, {2, 3}, {-1, -1, -1}, {0, 0, 2}, {INT64_MAX}, {INT64_MIN, 5}};
		static std::vector<i64> co = {0, 1, 2, -1, -3, INT64_MAX, INT64_MIN};
		static std::vector<i64> va = {' ', 'x', 300, INT64_MIN};
		f.total = so.size() * co.size() * co.size() * va.size() * 4 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.storage = pick(m, so); i64 a = pick(m, co), b = pick(m, co), v = pick(m, va); int dims = 1 + m.take(4); bool p = m.take(2);
			c.cfg = cfg98(dims); for(int d = dims; d < 4; ++d) c.storage[d] = 0;
			c.text = p ? "p2k;;1@" : "g2@7"; c.stack = {11, v, 1, 2}; for(int d = 2; d < dims; ++d) c.stack.push_back(d == 2 ? b : 0); c.stack.push_back(a); if(dims > 1) c.stack.push_back(b); c.maxTicks = 6; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "nested-storage"; f.what = "storage offsets set by nested blocks at every column and restored, with get and put inside";
		static const std::string al = "{}gp013"; static int n = T ? 6 : 5;
		f.total = 3; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; int d = m.take(3); c.cfg = cfg98(d == 2 ? 3 : d == 1 ? 1 : 2); std::string t; for(int k = 0; k < n; ++k) t += al[m.take(al.size())]; c.text = "0{1" + t + "0}2.@"; c.stack = {5, 6, 7}; c.maxTicks = 24; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "large"; f.what = "large and extreme counts";
		static std::vector<i64> big = {1000, 65536, 100000, 1000000, -1000, -100000, (1ll << 61), INT64_MAX, INT64_MIN, INT64_MIN + 1, -(1ll << 61)};
		static std::vector<std::string> op = {"{1@", "}1@"};
		static std::vector<std::vector<std::vector<i64>>> be = {{}, {{8, 9}}};
		f.total = big.size() * op.size() * be.size(); f.recycle = 4;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); i64 n = pick(m, big); c.text = pick(m, op); c.below = pick(m, be); c.stack = {1, 2, 3, n}; c.maxTicks = 4; run(c, x); };
		out.push_back(f);
	}
	{
		static const std::vector<i64> W = {100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, -100, -127, -128, -129, -200, -255, -256, -257, -300, 32767, 32768, 65535, 65536, 65537, -32769, -65536};
		Family f; f.name = "wide-counts"; f.what = "{ } and u with counts around the limits of narrow integers on stacks shorter and longer than the count";
		static const std::vector<std::string> op = {"{1@", "}1@", "u1@", "{2}1@", "{}1@"}; static const std::vector<int> sz = {0, 100, 260, 600};
		f.total = W.size() * op.size() * sz.size() * sz.size(); f.recycle = 200;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); i64 n = pick(m, W); c.text = pick(m, op); int a = pick(m, sz), b = pick(m, sz); if(std::abs(n) > 600 && (a != 100 || b != 100)) return; for(int k = 0; k < a; ++k) c.stack.push_back(1000 + k); std::vector<i64> be; for(int k = 0; k < b; ++k) be.push_back(-k); if(c.text[0] != '{') c.below = {{7, 8, 9}, be}; c.stack.push_back(n); c.maxTicks = 6; run(c, x); };
		out.push_back(f);
	}
}
