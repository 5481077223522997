// C03: movement and wrapping.
#include "drive.h"
#include "FungeUniverse.h"
#include "FungeRunner.h"
using namespace drv; using namespace eng; using ref::ND;
static std::vector<i64> range(i64 a, i64 b){ std::vector<i64> r; for(i64 i = a; i <= b; ++i) r.push_back(i); return r; }
void eng::families(std::vector<Family>& out){
	static const int T = thorough();
	{
		Family f; f.name = "step2d"; f.what = "one step in every box of a set, from every position in and around it, with every small delta";
		static std::vector<std::vector<std::pair<Pos, i64>>> boxes;
		for(i64 w : {0, 1, 2, 4}) for(i64 h : {0, 1, 3}) for(auto o : std::vector<Pos>{{0, 0}, {-3, -2}, {0, -2}, {-2, 0}}){ Pos e{o[0] + w, o[1] + h}; boxes.push_back({{o, 'z'}, {e, 'z'}}); }
		boxes.push_back({{Pos{0, 0}, ' '}, {Pos{5, 2}, 'z'}, {Pos{7, 4}, 'z'}});
		boxes.push_back({{Pos{-4, -1}, 'z'}, {Pos{3, 0}, 'z'}, {Pos{-4, -1}, ' '}});
		static std::vector<i64> ds = T ? range(-7, 7) : std::vector<i64>{-5, -3, -2, -1, 0, 1, 2, 3, 4};
		static const i64 P0 = -8, P1 = 9; static u64 np = (P1 - P0 + 1) * 12;
		f.total = boxes.size() * ds.size() * ds.size() * np;
		f.recycle = 6000;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(); c.cells = pick(m, boxes); i64 dx = pick(m, ds), dy = pick(m, ds);
			c.pos = Pos{P0 + (i64)m.take(P1 - P0 + 1), -5 + (i64)m.take(12)};
			c.delta = Pos{dx, dy};
			// far from the box only a sample of rows is needed to see both "never meets" and "approaches"
			c.cells.push_back({c.pos, 'z'});
			c.cells.push_back({c.pos, ' '});       // leaves the box of the others, the IP may be outside of it
			c.maxTicks = 1; c.finalField = false;
			// the IP sits on a space: it moves until it finds something, so execute z at its own place instead
			c.cells.push_back({c.pos, 'z'});
			run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "outside"; f.what = "an IP left outside the occupied region (the cell it stands on was blanked): it must come back whenever its line crosses the region";
		static std::vector<i64> ds = T ? range(-5, 5) : std::vector<i64>{-3, -2, -1, 0, 1, 2, 3};
		f.total = 13 * 11 * ds.size() * ds.size() * 3;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98();
			c.pos = Pos{(i64)m.take(13) - 5, (i64)m.take(11) - 5}; c.delta = Pos{pick(m, ds), pick(m, ds)}; int k = m.take(3);
			// the only instruction outside is the p the IP starts on, which blanks itself
			for(i64 y = 0; y < 3; ++y) for(i64 X = 0; X < 4; ++X) if(k != 1 || (X + y) % 2 == 0) c.cells.push_back({Pos{X + (k == 2 ? 2 : 0), y - (k == 2 ? 1 : 0)}, X == 1 && y == 1 ? '@' : 'z'});
			c.cells.push_back({c.pos, 'p'});
			c.stack = {' ', c.pos[0], c.pos[1]};
			c.maxTicks = 14; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "jumpout"; f.what = "jumps and flying deltas far out of the region and back";
		static std::vector<i64> far = {1, 2, 3, 7, 10, 50, 1000, 99999, -1, -2, -5, -11, -1000, -99999};
		static std::vector<std::string> prog = {"x  z\n zz@\n@  z", "xz\n@z", "  x@z", "x", "zxz\n   \n  @"};
		f.total = far.size() * (far.size() + 1) * prog.size() * 2;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(); i64 dx = pick(m, far); u64 k = m.take(far.size() + 1); i64 dy = k == far.size() ? 0 : far[k];
			c.text = pick(m, prog); if(m.take(2)) std::swap(dx, dy);
			size_t p = c.text.find('x'); c.pos = Pos{(i64)p}; c.stack = {dx, dy}; c.maxTicks = 40; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "grid"; f.what = "every small grid of movement instructions and blanks, run for a bounded number of steps";
		static std::string al = T ? " zv>^<r#[" : " zv>^r#]"; static const int W = 3, H = 2;
		f.total = 4; for(int k = 0; k < W * H; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(); static const std::vector<Pos> ds = {{1, 0}, {0, 1}, {1, 1}, {-2, 1}}; c.delta = pick(m, ds);
			for(int r = 0; r < H; ++r){ for(int k = 0; k < W; ++k) c.text += al[m.take(al.size())]; c.text += "\n"; }
			c.maxTicks = 12; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "torus"; f.what = "every position at the edges of the 80x25 page and every small delta";
		static std::vector<i64> px = {0, 1, 2, 40, 76, 77, 78, 79}, py = {0, 1, 2, 12, 22, 23, 24}, ds = {-3, -2, -1, 0, 1, 2, 3};
		f.total = px.size() * py.size() * ds.size() * ds.size() * 2;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; int k = m.take(2); c.cfg = k ? cfg93() : cfg98(); c.cfg.topo = ref::TORUS;
			c.pos = Pos{pick(m, px), pick(m, py)}; c.delta = Pos{pick(m, ds), pick(m, ds)};
			if(k && c.delta[0] * c.delta[0] + c.delta[1] * c.delta[1] != 1) return;
			for(i64 y = 0; y < 25; ++y) for(i64 X : {0, 1, 2, 40, 76, 77, 78, 79}) c.cells.push_back({Pos{X, y}, '0' + (X + y) % 10});
			for(i64 y : {0, 1, 2, 12, 23, 24}) for(i64 X = 0; X < 80; X += 3) c.cells.push_back({Pos{X, y}, 'z' - (k ? 'z' - '5' : 0)});
			c.maxTicks = 30; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "torusprog"; f.what = "short programs on the torus: blanks to the page edge and back";
		static std::string al = " 1v>^<#_\"";
		f.total = 2; for(int k = 0; k < (T ? 6 : 5); ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg93(); bool low = m.take(2); std::string s;
			while(m.v || s.size() < 5) s += al[m.take(al.size())];
			if(low){ c.pos = Pos{78, 24}; for(size_t k = 0; k < s.size(); ++k) c.cells.push_back({Pos{(78 + (i64)k) % 80, k == 3 ? 0 : 24}, s[k]}); } else c.text = s;
			c.maxTicks = 14; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "turns-nd"; f.what = "turning, reflecting, popping and flying in one to seven dimensions, from every delta of small components, and the step after it";
		static std::vector<i64> ds = {0, -1, 2}; static const std::string ops = "r[]_|wx#?kqzj"; static int n = T ? 6 : 5;
		f.total = ops.size() * 7; for(int k = 0; k < n; ++k) f.total *= ds.size();
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); int dims = 1 + m.take(7); char o = ops[m.take(ops.size())]; if(o == '?' || o == 'q') return;
			Case c; c.cfg = cfg98(dims); for(int k = 0; k < n; ++k) c.delta[k] = pick(m, ds);
			for(int k = dims; k < 7; ++k) if(c.delta[k]) return;
			c.stack = {1, 3, -2, 4, 5, -1, 2, 7, 3}; c.text = std::string(1, o); c.pos = Pos();
			if(o == 'k'){ Pos q = c.delta; c.cells = {{q, 'r'}}; c.stack = {3}; if(q == Pos()) return; }
			Pos far; for(int k = 0; k < dims; ++k) far[k] = 3; c.cells.push_back({far, 'z'}); for(int k = 0; k < dims; ++k) far[k] = -3; c.cells.push_back({far, 'z'});
			c.maxTicks = 4; c.finalField = false; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "step1d3d"; f.what = "one- and three- and four-dimensional stepping from positions in and around a box";
		static std::vector<i64> ds = {-3, -1, 0, 1, 2};
		f.total = 5 * 5 * 5 * ds.size() * ds.size() * ds.size() * 3;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; int dm = (int)m.take(3); c.cfg = cfg98(dm == 0 ? 1 : dm == 1 ? 3 : 4);
			Pos p{(i64)m.take(5) - 1, (i64)m.take(5) - 1, (i64)m.take(5) - 1}; Pos d{pick(m, ds), pick(m, ds), pick(m, ds)};
			if(dm == 0){ if(p[1] || p[2] || d[1] || d[2]) return; }
			if(dm == 2){ p[3] = p[2]; p[2] = 0; d[3] = d[2]; d[2] = d[0]; }
			c.pos = p; c.delta = d;
			c.cells = {{Pos{0}, 'z'}, {dm == 0 ? Pos{2} : dm == 1 ? Pos{2, 2, 1} : Pos{2, 2, 1, 2}, 'z'}, {dm == 0 ? Pos{1} : Pos{1, 1}, 'z'}, {p, 'z'}};
			c.maxTicks = 4; c.finalField = false; run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "prog3d"; f.what = "every short tre98 program over the movement instructions, on two pages";
		static std::string al = " hlv>zr#mx";
		f.total = 1; for(int k = 0; k < (T ? 5 : 4); ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(3); for(int k = 0; k < (T ? 5 : 4); ++k){ c.text += al[m.take(al.size())]; if(k == 1) c.text += "z\n "; if(k == 2) c.text += "1\f"; }
			c.stack = {1, 0, 1, -1, 0, 1, 1}; c.maxTicks = 16; run(c, x);
		};
		out.push_back(f);
	}
}
