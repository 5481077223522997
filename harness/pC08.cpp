// C08: exactly the instruction set of the selected standard and dimensionality acts.
#include "drive.h"
#include <cstring>
using namespace drv; using namespace eng;
static std::vector<i64> values(){
	std::vector<i64> v; for(i64 k = -300; k <= 1100; ++k) v.push_back(k);
	for(i64 h : {(i64)1 << 16, (i64)1 << 31, (i64)1 << 32, (i64)1 << 33, (i64)1 << 56, INT64_MIN, -((i64)1 << 32), -((i64)1 << 16)}) for(i64 k = 0; k < 256; ++k) v.push_back(h + k);
	v.push_back(INT64_MAX);
	return v;
}
static ref::Config dialect(int d){
	switch(d){ case 0: return cfg93(1); case 1: return cfg93(2); case 2: { auto c = cfg93(3); return c; } case 3: return cfg98(1); case 4: return cfg98(2); case 5: return cfg98(3); case 6: return cfg98(4); case 7: return cfgFish(); case 8: return cfgFish(true); case 9: return cfg98(5); default: { auto c = cfg93(2); c.charCells = false; return c; } }
}
void eng::families(std::vector<Family>& out){
	static std::vector<i64> vals = values();
	{
		Family f; f.name = "every-value"; f.what = "every cell value executed in every dialect with an empty and a filled stack, from two directions, with input waiting";
		f.total = vals.size() * 11 * 3 * 2; f.recycle = 3000;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); i64 v = pick(m, vals); int d = m.take(11), s = m.take(3); bool back = m.take(2);
			Case c; c.cfg = dialect(d); bool fish = d == 7 || d == 8;
			c.text = back ? "@ 52x1" : " x25 @"; if(fish) for(char& k : c.text) if(k == '@') k = ';';
			c.pos = back ? Pos{4} : Pos{1}; c.delta = back ? Pos{-1} : Pos{1};
			c.cells = {{c.pos, v}}; c.input = "65 q\n7"; c.useFiles = v == 'i' || v == 'o' || v == 'F';
			if(s == 1) c.stack = {3, 4, 1, 2}; else if(s == 2) c.stack = {0, 0, 0, 0, 0, 0};
			if(fish) for(i64& k : c.stack){ double q = (double)k; memcpy(&k, &q, 8); }
			c.maxTicks = 7;
			run(c, x);
		};
		out.push_back(f);
	}
	{
		Family f; f.name = "reachable-row"; f.what = "every printable character as the second instruction of a program after each other one (all pairs) in every dialect";
		static bool T = thorough();
		static std::string al; al.clear(); for(int k = 33; k < 127; ++k) al += (char)k;
		static std::string first; first = T ? al : std::string("1:\"'#k;?xw{");
		f.total = (u64)al.size() * first.size() * 10;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int d = m.take(10); Case c; c.cfg = dialect(d); bool fish = d == 7 || d == 8; char a = first[m.take(first.size())], b = al[m.take(al.size())]; c.text = std::string("1") + a + b + (fish ? "3;\n;;;;" : "3@\n@@@@"); c.input = "5 x"; c.useFiles = b == 'i' || b == 'o' || a == 'i' || a == 'o' || b == 'F' || a == 'F'; c.maxTicks = 8; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "capabilities"; f.what = "every printable character with each capability disabled";
		f.total = 94 * 8 * 4;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); char v = 33 + m.take(94); int k = m.take(8), d = 1 + m.take(4); Case c; c.cfg = cfg98(d); c.cfg.concurrent = !(k & 1); c.cfg.execute = !(k & 2); c.cfg.filesystem = !(k & 4); c.text = std::string("1") + v + "3@\n@@@@"; c.input = "5 x"; c.useFiles = true; c.stack = {0, 0, 'a', 0}; c.maxTicks = 6; run(c, x); };
		out.push_back(f);
	}
}
