// C11: the system information instruction.
#include "drive.h"
using namespace drv; using namespace eng;
static const std::vector<std::vector<std::string>> AR = {{"prog"}, {"a", "bb"}, {"p", "", "x y"}, {"", ""}, {"\xff\x80", "-std=be93", "1", "2"}};
static const std::vector<std::vector<std::string>> EN = {{}, {"A=1"}, {"A=1", "", "LONG=xyz"}, {"Q=\xe9"}};
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	{
		Family f; f.name = "select"; f.what = "every argument from -3 to beyond the report x dimensions x arguments x environments x stack shapes x stack-stack shapes";
		static std::vector<std::vector<i64>> st = {{}, {7}, {1, 2, 3, INT64_MIN}}; static std::vector<std::vector<std::vector<i64>>> be = {{}, {{}}, {{5, 6}, {1}}};
		static int N; N = T ? 100 : 80;
		f.total = (u64)N * 4 * AR.size() * EN.size() * st.size() * be.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); i64 n = (i64)m.take(N) - 3; Case c; c.cfg = cfg98(1 + m.take(4)); c.cfg.args = pick(m, AR); c.cfg.env = pick(m, EN); c.stack = pick(m, st); c.below = pick(m, be); c.stack.push_back(n); c.storage = Pos{3, -4, 5, 6}; for(int d = c.cfg.dims; d < 4; ++d) c.storage[d] = 0; c.text = "y1@"; c.maxTicks = 4; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "state"; f.what = "capabilities x positions x deltas x storage offsets x bounding boxes, whole report";
		static std::vector<Pos> po = {{0}, {2, 1}, {-3, -4}, {7, 0, 2}}, de = {{1}, {-1}, {0, 1}, {2, -3}, {0, 0, 1}}, so = {{}, {9, -9}, {INT64_MAX, INT64_MIN, 4}}; static std::vector<Pos> ex = {{0}, {5, 5}, {-5, 3}, {100, -100, 2}, {0, 0, 0, -7}};
		f.total = 8 * po.size() * de.size() * so.size() * ex.size() * 4 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; int k = m.take(8); Pos p = pick(m, po), d = pick(m, de), s = pick(m, so), e = pick(m, ex); int dims = 1 + m.take(4); i64 n = m.take(2) ? 0 : -1;
			for(int q = dims; q < 4; ++q) p[q] = d[q] = s[q] = e[q] = 0; if(d == Pos()) d = Pos{1};
			c.cfg = cfg98(dims); c.cfg.concurrent = !(k & 1); c.cfg.execute = !(k & 2); c.cfg.filesystem = !(k & 4); c.text = "1"; c.cells = {{e, 'e'}, {p, 'y'}, {p + d, '@'}}; c.pos = p; c.delta = d; c.storage = s; c.stack = {8, n}; c.maxTicks = 3; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "clock"; f.what = "every day of four years at noon and every minute of a day, and the ends of them";
		f.total = 1462 + 1440 * 2 + 120;
		f.run = [](u64 i, Ctx& x){ Case c; c.cfg = cfg98(); c.text = "y@"; c.stack = {0}; if(i < 1462) c.now = 1072915200 + (i64)i * 86400 + 43200; else if(i < 1462 + 2880) c.now = 1709164800 + (i64)(i - 1462) * 60 + ((i & 1) ? 59 : 0); else c.now = 1735689540 + (i64)(i - 1462 - 2880); c.maxTicks = 2; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "sequence"; f.what = "y among stack-stack, threading and field instructions, every program of bounded length";
		static const std::string al = T ? "y{}0123tp-kn" : "y{}013tp-k"; static int n = T ? 6 : 5;
		f.total = 2; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; int d = m.take(2); c.cfg = cfg98(d ? 2 : 1); for(int k = 0; k < n; ++k) c.text += al[m.take(al.size())]; if(c.text.find('y') == std::string::npos) c.text[n - 1] = 'y'; c.text += "@"; c.stack = {2, 1}; c.maxTicks = 40; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "threads"; f.what = "the report of each IP in programs with several IPs";
		static std::vector<std::string> pr = {"t0y@", "tt0yn@", "t#@0y@", "01{t0y@", "t1y2y3y9y@", "2kt9y@", "t0{y@"};
		f.total = pr.size() * 3 * 8;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.text = pick(m, pr); c.cfg = cfg98(1 + m.take(3)); int k = m.take(8); c.cfg.concurrent = !(k & 1); c.cfg.execute = !(k & 2); c.cfg.filesystem = !(k & 4); c.maxTicks = 40; run(c, x); };
		out.push_back(f);
	}
}
