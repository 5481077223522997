// C10: file input and output.
#include "drive.h"
using namespace drv; using namespace eng;
static void strArg(std::vector<i64>& st, const std::string& s){ st.push_back(0); for(size_t i = s.size(); i-- > 0; ) st.push_back((signed char)s[i]); }
static void vec(std::vector<i64>& st, const Pos& p, int dims){ for(int i = 0; i < dims; ++i) st.push_back(p[i]); }
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	// o: stack (top first): filename, flags, Va, Vb
	{
		Family f; f.name = "output"; f.what = "o of every small rectangle of every picture, both modes, storage offsets and dimensions";
		static const std::string al = "x \n"; static const int n = T ? 5 : 4;
		static u64 pics; pics = 1; for(int k = 0; k < n; ++k) pics *= al.size();
		static std::vector<Pos> og = {{0, 1}, {1, 2}, {-1, 1}, {2, 3}, {0, 2}}; static std::vector<Pos> so = {{}, {1, 1}, {-2, 0}};
		static std::vector<i64> sz = {1, 2, 3, 5};
		f.total = pics * og.size() * sz.size() * sz.size() * so.size() * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); std::string pic; for(int k = 0; k < n; ++k) pic += al[m.take(al.size())]; Pos o = pick(m, og); i64 w = pick(m, sz), h = pick(m, sz); Pos s = pick(m, so); i64 fl = m.take(2);
			Case c; c.cfg = cfg98(2); c.useFiles = true; c.storage = s; c.text = "o1@\n" + pic; vec(c.stack, Pos{w, h}, 2); vec(c.stack, o, 2); c.stack.push_back(fl); strArg(c.stack, "f"); c.maxTicks = 4; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "input"; f.what = "i of every file of bounded length at every small origin, both modes, storage offsets, dimensions";
		static const std::string al = T ? "x \n\r\fy" : "x \n\r\f"; static const int n = T ? 6 : 5;
		static std::vector<u64> pw; pw = {1}; for(int k = 0; k < n; ++k) pw.push_back(pw.back() * al.size());
		static u64 per; per = 0; for(u64 p : pw) per += p;
		static std::vector<Pos> og = {{0, 1}, {-3, -2}, {4, 2, 1}}; static std::vector<Pos> so = {{}, {2, -1}};
		f.total = per * og.size() * so.size() * 2 * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); u64 k = m.take(per); std::string t; int len = 0; while(k >= pw[len]){ k -= pw[len]; ++len; } for(int q = 0; q < len; ++q){ t += al[k % al.size()]; k /= al.size(); }
			Pos o = pick(m, og), s = pick(m, so); i64 fl = m.take(2); int dims = 1 + m.take(3); if(dims == 1 && o[1] == 1) o[0] = 5;
			for(int d = dims; d < ref::ND; ++d) o[d] = s[d] = 0;
			Case c; c.cfg = cfg98(dims); c.useFiles = true; c.files["f"] = t; c.storage = s; c.text = "i1@..."; c.stack = {9}; vec(c.stack, o, dims); c.stack.push_back(fl); strArg(c.stack, "f"); c.maxTicks = 4; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "round-trip"; f.what = "a picture written with o and read back with i elsewhere, in both modes, every picture of bounded size";
		static const std::string al = "x \n0"; static const int n = T ? 6 : 5;
		static u64 pics; pics = 1; for(int k = 0; k < n; ++k) pics *= al.size();
		f.total = pics * 4 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); std::string pic; for(int k = 0; k < n; ++k) pic += al[m.take(al.size())]; i64 f1 = m.take(2), f2 = m.take(2); bool s = m.take(2);
			Case c; c.cfg = cfg98(2); c.useFiles = true; if(s) c.storage = Pos{0, 1}; c.text = "oi.....@\n" + pic; c.stack = {}; vec(c.stack, Pos{10, -9}, 2); c.stack.push_back(f2); strArg(c.stack, "g"); vec(c.stack, Pos{4, 4}, 2); vec(c.stack, Pos{0, 1}, 2); c.stack.push_back(f1); strArg(c.stack, "g"); c.maxTicks = 10; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "bytes"; f.what = "every cell value written, every byte read, in both modes";
		f.total = 700 * 2 + 256 * 2;
		f.run = [](u64 i, Ctx& x){ Case c; c.cfg = cfg98(2); c.useFiles = true; c.maxTicks = 4;
			if(i < 1400){ i64 v = (i64)(i / 2) - 200; c.text = "o@"; c.cells = {{Pos{0, 1}, v}, {Pos{1, 1}, 'z'}}; if(i & 512) c.cells.pop_back(); vec(c.stack, Pos{3, 2}, 2); vec(c.stack, Pos{0, 1}, 2); c.stack.push_back(i & 1); strArg(c.stack, "f"); }
			else { i -= 1400; c.text = "i@"; c.files["f"] = std::string("a") + (char)(i / 2) + "b\n"; vec(c.stack, Pos{0, 1}, 2); c.stack.push_back(i & 1); strArg(c.stack, "f"); }
			run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "failure"; f.what = "missing, unreadable and unwritable files, disabled filesystem, odd flags and sizes: only reflection";
		static std::vector<std::string> nm = {"f", "missing", "d", "", "no/such", "f/x", "d/f", "q r", std::string(300, 'n')};
		static std::vector<i64> fl = {0, 1, 2, 3, -1, INT64_MAX}; static std::vector<i64> sz = {0, -1, 1, 4, INT64_MIN};
		f.total = nm.size() * fl.size() * sz.size() * sz.size() * 2 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(2); c.useFiles = true; c.files["f"] = "ab\ncd"; c.files["d/f"] = "q"; c.dirs = {"d"}; std::string n = pick(m, nm); i64 g = pick(m, fl), w = pick(m, sz), h = pick(m, sz); bool o = m.take(2); c.cfg.filesystem = !m.take(2);
			c.text = o ? "o3@7" : "i3@7"; c.stack = {4, 5}; if(o) vec(c.stack, Pos{w, h}, 2); vec(c.stack, o ? Pos{0, 0} : Pos{w, h}, 2); c.stack.push_back(g); strArg(c.stack, n); c.maxTicks = 4; run(c, x); };
		out.push_back(f);
	}
}
