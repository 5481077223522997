// C12: funge-style threads run in round-robin order.
#include "drive.h"
using namespace drv; using namespace eng;
static void seq(std::vector<Family>& out, const char* name, const std::string& al, int n, const std::string& pre, const std::string& post, int ticks){
	Family f; f.name = name; f.what = "every program of bounded length over " + al;
	f.total = 1; for(int k = 0; k < n; ++k) f.total *= al.size();
	f.run = [=](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); c.text = pre; for(int k = 0; k < n; ++k) c.text += al[m.take(al.size())]; c.text += post; c.maxTicks = ticks; run(c, x); };
	out.push_back(f);
}
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	seq(out, "programs", T ? "t@q#1.r z" : "t@q#1.r", T ? 7 : 5, "", "@", 120);
	seq(out, "shared-space", T ? "t013pg.@k" : "t03pg.@", T ? 6 : 6, "", "1@", 120);
	seq(out, "stacks", T ? "t{}u12.@r" : "t{}u1.@", T ? 6 : 5, "3", "9.@", 120);
	seq(out, "iterate", "tk2@1r.;", T ? 7 : 5, "", "@", 120);
	seq(out, "strings", "t\"j1' r@", T ? 6 : 5, "", "@", 100);
	{
		Family f; f.name = "plane"; f.what = "every 2-D program of 3x3 cells over split, turns, stop, quit and output";
		static const std::string al = T ? "t>v@1.q^" : "t>v@."; static int n = 7;
		f.total = 1; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); std::string t; for(int k = 0; k < n; ++k) t += al[m.take(al.size())]; while(t.size() < 9) t += 't'; c.text = t.substr(0, 3) + "\n" + t.substr(3, 3) + "\n" + t.substr(6); c.maxTicks = 60; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "state-copied"; f.what = "what a child of a split inherits: string mode, fingerprints, stacks, storage, dimensionality, deltas, mode";
		static std::vector<std::string> pr = {"t.@", "t:.@", "t0{.@", "0{t0}.@", "0{0{t02g.@", "t\"a\".@", "\"LOOB\"4(tA.@", "\"LOOB\"4(\"AMOR\"4(tI.C.@", "\"LOOB\"4(t\"LOOB\"4)1N.@", "2\"EDOM\"4(t12.Q.@", "\"PLLIC\"4(t@", "\"GNIF\"4(t@", "tt.@", "ttt.@", "tq@", "5tq@", "#@t.@", "9k@t@", "3kt1.@"};
		static std::vector<std::vector<i64>> st = {{}, {1, 2, 3}}; static std::vector<std::vector<std::vector<i64>>> be = {{}, {{4, 5}}, {{1}, {}, {2, 3}}}; static std::vector<Pos> so = {{}, {2, -1}}, de = {{1}, {2}, {-1}};
		f.recycle = 200; f.total = pr.size() * st.size() * be.size() * so.size() * de.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.text = pick(m, pr); c.stack = pick(m, st); c.below = pick(m, be); c.storage = pick(m, so); c.delta = pick(m, de); int dims = 1 + m.take(3); c.cfg = cfg98(dims); if(dims == 1) c.storage[1] = 0; if(c.delta[0] < 0){ std::string r(c.text.rbegin(), c.text.rend()); c.text = r; c.pos = Pos{(i64)r.size() - 1}; } c.maxTicks = 120; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "many"; f.what = "populations of IPs that grow and end";
		f.total = 24 * 4;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int n = 1 + m.take(24), k = m.take(4); Case c; c.cfg = cfg98(); c.text = std::string(n < 8 ? n : 7, 't') + (k == 0 ? "@" : k == 1 ? "1.@" : k == 2 ? "q" : "#@1.@"); if(n >= 8) c.text = std::string("k") + c.text.substr(6), c.stack = {n}; c.maxTicks = 3000; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "disabled"; f.what = "the split instruction with concurrency disabled";
		static const std::string al = "t1.rk@2"; static int n = 5; f.total = 1; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); c.cfg.concurrent = false; c.pos = Pos{1}; c.text = "@"; for(int k = 0; k < n; ++k) c.text += al[m.take(al.size())]; c.text += "@"; c.maxTicks = 40; run(c, x); };
		out.push_back(f);
	}
}
