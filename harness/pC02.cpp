// C02: funge-space is an exact map with a sound bounding box.
#include "drive.h"
#include "Field.h"
#include <sstream>
using namespace drv; using namespace eng; using ref::ND;
static Funge::Vector V(const Pos& p){ Funge::Vector v{p[0]}; for(int i = 1; i < ND; ++i) if(p[i]) v.set(i, p[i]); return v; }
struct Op { Pos p; i64 v; };
// runs a sequence of stores on the real field and on the map, looking at every coordinate of interest after each
static void direct(const std::vector<Op>& seq, bool chars, int dims, const std::vector<Pos>& look, Ctx& x){
	Funge::Field f(dims, chars ? Funge::CELL_CHAR : Funge::CELL_INT);
	std::map<Pos, i64> map; Pos lo, hi;
	std::string d;
	u64 h = chars + 2 * dims;
	for(auto& o : seq){
		d += " put" + o.p.str() + "=" + std::to_string(o.v);
		if(x.replay) crashNote(d);
		f.put(V(o.p), o.v);
		i64 v = chars ? (i64)(signed char)o.v : o.v;
		if(v == ' '){
			// blanking an outermost cell shrinks the box back to the outermost remaining cell
			map.erase(o.p);
			if(!map.empty()) for(int k = 0; k < ND; ++k){
				i64 mn = INT64_MAX, mx = INT64_MIN; for(auto& c : map){ mn = std::min(mn, c.first[k]); mx = std::max(mx, c.first[k]); }
				if(lo[k] == o.p[k]) lo[k] = mn;
				if(hi[k] == o.p[k]) hi[k] = mx;
			}
		}else{ map[o.p] = v; for(int k = 0; k < ND; ++k){ lo[k] = std::min(lo[k], o.p[k]); hi[k] = std::max(hi[k], o.p[k]); } }
		x.add(C_TRANS);
		h = ref::mix(h, 77); for(auto& c : map){ for(int k = 0; k < ND; ++k) h = ref::mix(h, (u64)c.first[k]); h = ref::mix(h, (u64)c.second); }
		x.state(h);
		for(auto& p : look){
			auto e = map.find(p); i64 want = e == map.end() ? ' ' : e->second;
			if(f.get(V(p)) != want || f[V(p)] != want){ x.fail("after" + d + (chars ? " (char cells)" : "") + " cell " + p.str() + " reads " + std::to_string(f.get(V(p))) + ", expected " + std::to_string(want)); return; }
		}
		for(int k = 0; k < ND; ++k){
			if(f.min(k) != lo[k] || f.max(k) != hi[k]){ x.fail("after" + d + " bounds of dimension " + std::to_string(k) + " are " + std::to_string(f.min(k)) + ".." + std::to_string(f.max(k)) + ", expected " + std::to_string(lo[k]) + ".." + std::to_string(hi[k])); return; }
		}
	}
	x.add(C_TRACES);
	x.log = d;
}
static Family seqFamily(const char* name, const char* what, std::vector<Op> ops, int len, int dims, bool chars){
	Family f; f.name = name; f.what = what; f.total = 1; f.recycle = 200000;
	for(int i = 0; i < len; ++i) f.total *= ops.size();
	std::vector<Pos> look; std::set<Pos> seen;
	for(auto& o : ops) if(seen.insert(o.p).second) look.push_back(o.p);
	for(auto p : std::vector<Pos>(look)) for(int k = 0; k < 2; ++k){ Pos q = p; q[k] = (i64)((u64)q[k] + 1); if(seen.insert(q).second) look.push_back(q); q = p; std::swap(q[0], q[1]); if(seen.insert(q).second) look.push_back(q); }
	f.run = [=](u64 i, Ctx& x){ Mixed m(i); std::vector<Op> s; for(int k = 0; k < len; ++k) s.push_back(ops[m.take(ops.size())]); direct(s, chars, dims, look, x); };
	return f;
}
void eng::families(std::vector<Family>& out){
	int T = thorough();
	out.push_back(seqFamily("stores2d", "every sequence of stores over a small set of cells and values", {{{0,0},'a'},{{0,0},' '},{{2,0},'b'},{{2,0},' '},{{-1,1},300},{{-1,1},' '},{{1,3},-5},{{1,3},' '},{{2,3},'c'},{{2,3},' '},{{-1,0},'d'},{{-1,0},' '}}, 4 + T, 2, false));
	out.push_back(seqFamily("wide", "distant coordinates and full-width values", {{{INT64_MAX,0},1},{{INT64_MAX,0},' '},{{INT64_MIN,0},INT64_MIN},{{INT64_MIN,0},' '},{{0,INT64_MIN},INT64_MAX},{{0,INT64_MIN},' '},{{1ll<<32,1},(1ll<<32)+32},{{1ll<<32,1},' '},{{0,1},0},{{0,1},' '},{{-(1ll<<33),-(1ll<<33)},256+32},{{-(1ll<<33),-(1ll<<33)},' '}}, 4 + T, 2, false));
	out.push_back(seqFamily("chars", "char cells: values are truncated to one byte before anything else", {{{0,0},'a'},{{0,0},256+32},{{3,1},511},{{3,1},32},{{-2,0},128},{{-2,0},-224},{{0,4},0},{{0,4},' '},{{3,4},256+'x'},{{3,4},' '}}, 4 + T, 2, true));
	out.push_back(seqFamily("stores3d", "three dimensions, cells at zero in some of them", {{{0,0,2},'a'},{{0,0,2},' '},{{1,0,0},'b'},{{1,0,0},' '},{{0,2,1},'c'},{{0,2,1},' '},{{-1,-1,-1},'d'},{{-1,-1,-1},' '},{{0,0,0},'e'},{{0,0,0},' '},{{2,0,2},'f'},{{2,0,2},' '}}, 4 + T, 3, false));
	out.push_back(seqFamily("stores1d", "one dimension", {{{0},'a'},{{0},' '},{{1},'b'},{{1},' '},{{-1},'c'},{{-1},' '},{{9},'c'},{{9},' '},{{-7},'c'},{{-7},' '}}, 4 + T, 1, false));
	out.push_back(seqFamily("stores5d", "five dimensions", {{{0,0,0,0,2},'a'},{{0,0,0,0,2},' '},{{0,1,0,-3,0},'b'},{{0,1,0,-3,0},' '},{{1},'c'},{{1},' '},{{0,0,4,0,-1},'d'},{{0,0,4,0,-1},' '}}, 4 + T, 5, false));
	{
		Family f; f.name = "many"; f.what = "lines and blocks of cells stored and blanked in every combination of direction and order"; f.recycle = 100000;
		f.total = 4 * 4 * 9 * 9;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); int fill = m.take(4), er = m.take(4); i64 dx = (i64)m.take(9) - 4, dy = (i64)m.take(9) - 4;
			std::vector<Op> s; std::vector<Pos> look; int n = 40;
			auto at = [&](int k){ return Pos{dx * k, dy * (k % 7) - k / 7}; };
			for(int k = 0; k < n; ++k){ int j = fill == 0 ? k : fill == 1 ? n - 1 - k : fill == 2 ? (k * 7) % n : (k * 3) % n; s.push_back({at(j), 33 + j}); look.push_back(at(j)); }
			for(int k = 0; k < n; ++k){ int j = er == 0 ? k : er == 1 ? n - 1 - k : er == 2 ? (k * 11) % n : k % 2 ? k : n - 2 - k; s.push_back({at(j), ' '}); }
			direct(s, false, 2, look, x);
		};
		out.push_back(f);
	}
	{
		// through the language: p and g with storage offsets and full-width values
		Family f; f.name = "putget"; f.what = "p then g through the interpreter, every coordinate pair x value x storage offset x dialect";
		static std::vector<i64> co = {0, 1, -1, 5, 200, -200, 1ll << 31, -(1ll << 31), 1ll << 40, INT64_MAX, INT64_MIN}, vals = {0, ' ', 'a', 255, 256, 288, -1, -224, INT64_MAX, INT64_MIN, 1ll << 32}; static std::vector<Pos> st = {{0}, {3, -2}, {1ll << 40, 1}};
		f.total = co.size() * co.size() * vals.size() * st.size() * 4;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; int d = m.take(4); c.cfg = d == 0 ? cfg98() : d == 1 ? cfg98(3) : d == 2 ? cfg93() : cfg98(1);
			i64 X = pick(m, co), Y = pick(m, co), v = pick(m, vals); c.storage = pick(m, st); if(d == 1) c.storage[2] = 1; if(d == 3) c.storage[1] = 0;
			if(d == 3 && Y != 0){ return; }
			c.text = "pg@";
			c.stack = {X}; if(d != 3) c.stack.push_back(Y); if(d == 1) c.stack.push_back(Y);
			c.stack.push_back(v); c.stack.push_back(X); if(d != 3) c.stack.push_back(Y); if(d == 1) c.stack.push_back(Y);
			c.maxTicks = 6;
			run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "selfmod"; f.what = "programs that store and blank cells next to themselves while the bounding box is in use for wrapping";
		static int n; n = thorough() ? 4 : 3; static std::vector<std::string> tok = {"p", "g", "1", "2", "5", "c", "08-", " ", "77*1-", "84*", "v", "<"};
		f.total = 3; for(int k = 0; k < n + 1; ++k) f.total *= tok.size();
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); Case c; int d = m.take(3); c.cfg = d == 0 ? cfg98() : d == 1 ? cfg98(1) : cfg93();
			c.text = ""; for(int k = 0; k < n + 1; ++k) c.text += tok[m.take(tok.size())];
			if(d != 1) c.text += "\n >p2 ^";
			c.stack = {4, 1, 2, 0, 9, 0}; c.maxTicks = 30; run(c, x);
		};
		out.push_back(f);
	}
}
