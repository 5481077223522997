// C22: string and space fingerprints.
#include "drive.h"
#include <cstring>
using namespace drv; using namespace eng; using ref::Pos;
static Case with(const char* fp, int dims = 2, int ticks = 4){ Case c; c.cfg = cfg98(dims); c.cfg.fingerprints = {ref::fpid(fp)}; c.maxTicks = ticks; return c; }
static bool T;
static std::vector<std::vector<i64>> strings(int maxLen, const std::vector<i64>& al){        // 0gnirts, every string to a length
	std::vector<std::vector<i64>> r, cur = {{}};
	for(int n = 0; n <= maxLen; ++n){ std::vector<std::vector<i64>> nx; for(auto& s : cur){ std::vector<i64> z = {0}; z.insert(z.end(), s.rbegin(), s.rend()); r.push_back(z); for(i64 a : al){ auto t = s; t.push_back(a); nx.push_back(t); } } cur = nx; }
	return r;
}
static void app(std::vector<i64>& a, const std::vector<i64>& b){ a.insert(a.end(), b.begin(), b.end()); }
static void vec(std::vector<i64>& a, const Pos& p, int dims){ for(int i = 0; i < dims; ++i) a.push_back(p[i]); }
static std::vector<std::pair<Pos, i64>> plane(int dims){                                      // recognisable cells around the origin
	std::vector<std::pair<Pos, i64>> r;
	if(dims == 1) for(i64 x = -3; x <= 9; ++x){ if(x >= 0 && x < 2) continue; r.push_back({Pos{x}, 1000 + x}); }
	if(dims == 2) for(i64 y = -1; y <= 4; ++y) for(i64 x = -1; x <= 5; ++x){ if(y == 0) continue; r.push_back({Pos{x, y}, 1000 + x * 10 + y * 100}); }
	if(dims == 3) for(i64 z = -1; z <= 2; ++z) for(i64 y = -1; y <= 2; ++y) for(i64 x = -1; x <= 3; ++x){ if(y == 0 && z == 0) continue; r.push_back({Pos{x, y, z}, 10000 + x + y * 10 + z * 100}); }
	return r;
}
void eng::families(std::vector<Family>& out){
	T = thorough();
	static auto S1 = strings(T ? 4 : 3, {'a', 'b', '5'}), S2 = strings(2, {'a', 'b', ' ', 0x141, -3});
	{
		Family f; f.name = "strn-pairs"; f.what = "append, compare and find on every pair of short strings over a deeper stack, including wide and negative characters";
		f.total = 2 * S1.size() * S1.size() * 3 + S2.size() * S2.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("STRN"); c.text = std::string(1, "ACF"[m.take(3)]) + "1@"; c.stack = {7}; u64 k = m.v; if(k < S2.size() * S2.size()){ app(c.stack, S2[k % S2.size()]); app(c.stack, S2[k / S2.size()]); } else { k -= S2.size() * S2.size(); bool un = k & 1; k /= 2; auto a = S1[k % S1.size()]; if(un) a.erase(a.begin()), c.stack.clear(); app(c.stack, a); app(c.stack, S1[k / S1.size()]); } run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "strn-one"; f.what = "length, value and display of every short string, terminated or at the bottom of the stack"; static auto S = strings(T ? 5 : 4, {'a', '0', '-', ' ', '7'});
		f.total = S.size() * 3 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("STRN", 2, 8); c.text = std::string(1, "NVD"[m.take(3)]) + "1@"; auto s = pick(m, S); if(m.take(2)) c.stack = {3, 5}; else s.erase(s.begin()); app(c.stack, s); run(c, x); };
		out.push_back(f);
	}
	{
		static const std::vector<i64> W = {100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, -100, -127, -128, -129, -200, -255, -256, -257, -300, 32767, 32768, 65535, 65536, 65537, -32769, -65536};
		Family f; f.name = "wide-counts"; f.what = "strings, references and copies of lengths and counts around the limits of narrow integers"; static const std::vector<int> len = {0, 1, 100, 127, 128, 129, 255, 256, 257, 300};
		f.total = 12 * W.size() * len.size() * 2; f.recycle = 200;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int o = m.take(12); i64 n = pick(m, W); int l = pick(m, len); bool alt = m.take(2); Case c = with(o < 8 ? "STRN" : o < 10 ? "JSTR" : "TOYS", 2, 6); c.finalField = false;
			if(o >= 8 && (n < -600 || n > 600)) return;
			std::string t; for(int k = 0; k < l; ++k) t += (char)('a' + k % 26); std::vector<i64> str; str.push_back(0); for(size_t k = t.size(); k-- > 0; ) str.push_back(t[k]);
			c.stack = {7}; if(o < 8){ if(o == 6){ c.stack.push_back(0); c.stack.insert(c.stack.end(), {'b', 'a'}); } c.stack.insert(c.stack.end(), str.begin(), str.end()); }
			switch(o){ case 0: c.text = "L1@"; c.stack.push_back(n); break; case 1: c.text = "R1@"; c.stack.push_back(n); break; case 2: c.text = "M1@"; c.stack.push_back(alt ? 3 : n); c.stack.push_back(alt ? n : 3); break; case 3: if(n != 100) return; c.text = "N1@"; break; case 4: if(n != 100) return; c.text = "DN@"; break;
				case 5: c.text = "P1@"; c.stack.insert(c.stack.end(), {alt ? n : 2, alt ? 2 : n}); break; case 6: if(n != 100) return; c.text = "AN@"; break; case 7: c.text = "PG@"; c.text = "P1@"; c.stack.insert(c.stack.end(), {n, n}); break;
				case 8: case 9: c.text = o == 8 ? "P1@" : "G1@"; for(int k = 0; k < l; ++k) c.stack.push_back(k + 1); c.cells = plane(2); c.stack.insert(c.stack.end(), {alt, 1, 0, 3, n}); break;
				default: if(n <= 0) return; c.text = o == 10 ? "C1@" : "S1@"; c.cells = plane(2); if(o == 10) c.stack.insert(c.stack.end(), {0, 5, alt ? n : 2, alt ? 2 : n, 0, 700}); else c.stack.insert(c.stack.end(), {66, alt ? n : 2, alt ? 2 : n, 0, 5}); }
			run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "strn-parts"; f.what = "left, right and middle of every short string with every count"; static std::vector<i64> n = {0, 1, 2, 3, 4, 5, -1, 100, INT64_MAX, INT64_MIN, INT32_MAX, (i64)UINT32_MAX + 1, (i64)UINT32_MAX + 2};
		f.total = S1.size() * 3 * n.size() * n.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("STRN"); int o = m.take(3); c.text = std::string(1, "LRM"[o]) + "1@"; c.stack = {7}; app(c.stack, pick(m, S1)); i64 a = pick(m, n), b = pick(m, n); if(o < 2 && b != 0) return; if(o == 2) c.stack.push_back(b); c.stack.push_back(a); run(c, x); };
		out.push_back(f);
	}
	{ static std::vector<i64> v = EDGE; for(i64 p = 1, k = 0; k < 19; ++k, p *= 10) for(i64 d : {-1, 0, 1}) v.push_back(p + d), v.push_back(-p + d); Case c = with("STRN", 2, 8); c.stack = {0, 65}; products(out, "strn-number", "text of every interesting number and back", {"S", "SV", "SN"}, 1, v, c, "1@"); }
	{
		Family f; f.name = "strn-input"; f.what = "reading a line from every input of bounded length"; static const std::string al = std::string("a\n\r\0 \xff", 6); static int n = T ? 6 : 4; f.total = 1; for(int k = 0; k < n; ++k) f.total *= al.size(); f.total *= n + 1;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("STRN", 2, 8); c.stack = {3}; c.text = "II~1@"; int len = m.take(n + 1); for(int k = 0; k < n; ++k){ char ch = al[m.take(al.size())]; if(k < len) c.input += ch; } run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "strn-space"; f.what = "put and get of every short string at every place near the origin with every storage offset, in one to three dimensions";
		static std::vector<i64> co = {-2, 0, 1, 7}; static std::vector<Pos> so = {{}, {1, -1, 1}, {-5, 2, 0}}; static auto S = strings(2, {'a', 'z', 0x161, 200});
		f.total = 3 * 2 * so.size() * 64 * S.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int dims = 1 + m.take(3); bool put = m.take(2); Pos so1 = pick(m, so); Pos p; for(int k = 0; k < 3; ++k){ i64 v = pick(m, co); if(k < dims) p[k] = v; else { so1[k] = 0; if(v) return; } }
			Case c = with("STRN", dims, 8); c.storage = so1; auto s = pick(m, S); c.stack = {7}; if(put){ app(c.stack, s); c.text = "P1@"; c.cells = plane(dims); } else { Pos q = p + so1; c.text = "G1@"; for(size_t k = s.size(); k-- > 1; ){ if(q[0] >= 0 && q[0] < 3 && q[1] == 0 && q[2] == 0) return; c.cells.push_back({q, s[k]}); q[0]++; } if(q[0] >= 0 && q[0] < 3 && q[1] == 0 && q[2] == 0) return; c.cells.push_back({q, 0}); } vec(c.stack, p, dims); run(c, x); };
		out.push_back(f);
	}
	sequences(out, "strn-sequence", "every sequence of bounded length of string instructions", letters(T ? "ACDFLMNRSV012n" : "ACFLNRSV12"), T ? 5 : 4, with("STRN", 2, 30), {{}, {0, 'b', 'a', 0, 'a', 0, 'c', 'b', 'a'}}, "", "..@");
	{
		Family f; f.name = "jstr"; f.what = "strings along every vector, with every count, at every place and storage offset, in one to three dimensions"; static std::vector<i64> n = {-1, 0, 1, 2, 3, INT64_MIN}; static std::vector<Pos> at = {{0}, {1, 1}, {-2, 3, 1}, {4, 0, 2}}, d = {{1}, {-1}, {0, 1}, {2, -1, 1}, {}, {0, 0, -1}}, so = {{}, {1, 1, 1}, {-3, 2}};
		f.total = 3 * 2 * n.size() * at.size() * d.size() * so.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int dims = 1 + m.take(3); bool put = m.take(2); i64 k = pick(m, n); Pos a = pick(m, at), v = pick(m, d), s = pick(m, so); for(int q = dims; q < 3; ++q) a[q] = v[q] = s[q] = 0; Case c = with("JSTR", dims, 6); c.storage = s; c.cells = plane(dims); c.stack = {71, 72, 73, 74}; vec(c.stack, v, dims); vec(c.stack, a, dims); c.stack.push_back(k); c.text = put ? "P1@" : "G1@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "toys-copy"; f.what = "copying and moving every region of up to 3x3, low- and high-order first, between every pair of places, overlapping included"; static std::vector<i64> z = {0, 1, 2, 3}; static std::vector<Pos> at = {{0, 1}, {1, 1}, {2, 1}, {0, 2}, {1, 2}, {2, 3}, {-1, 2}, {7, 7}};
		f.total = 4 * z.size() * z.size() * at.size() * at.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("TOYS"); c.text = std::string(1, "CKMV"[m.take(4)]) + "1@"; c.cells = plane(2); Pos zz{pick(m, z), pick(m, z)}; c.stack = {5}; vec(c.stack, pick(m, at), 2); vec(c.stack, zz, 2); vec(c.stack, pick(m, at), 2); c.storage = Pos{3, 1}; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "toys-copy-dims"; f.what = "copying and moving in one and three dimensions, and with negative sizes"; static std::vector<i64> z = {-1, 0, 1, 2}; static std::vector<Pos> at = {{2, 1, 1}, {1, 1, 0}, {3, 2, 1}, {2, -1, 0}};
		f.total = 4 * 3 * 64 * at.size() * at.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int dims = 1 + m.take(3); Case c = with("TOYS", dims); c.text = std::string(1, "CKMV"[m.take(4)]) + "1@"; c.cells = plane(dims); Pos zz{pick(m, z), pick(m, z), pick(m, z)}; c.stack = {5}; vec(c.stack, pick(m, at), dims); vec(c.stack, zz, dims); vec(c.stack, pick(m, at), dims); run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "toys-fill"; f.what = "fill, store and load of every region with stacks of every size"; static std::vector<i64> z = {0, 1, 2, 3}; static std::vector<Pos> at = {{0, 1, 0}, {2, 2, 1}, {-1, -1, 0}, {6, 6, 2}};
		f.total = 3 * 3 * 64 * at.size() * 4;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int dims = 1 + m.take(3); Case c = with("TOYS", dims); char o = "FGS"[m.take(3)]; c.text = std::string(1, o) + "1@"; c.cells = plane(dims); Pos zz{pick(m, z), pick(m, z), pick(m, z)}; int n = m.take(4); for(int k = 0; k < (n == 3 ? 30 : n); ++k) c.stack.push_back(50 + k); vec(c.stack, zz, dims); vec(c.stack, pick(m, at), dims); if(o == 'S') { std::vector<i64> s(c.stack); c.stack = {5}; app(c.stack, s); } run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "toys-slide"; f.what = "sliding every row and column by every distance from every place"; f.total = 2 * 9 * 5 * 4 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); char o = "JO"[m.take(2)]; i64 n = (i64)m.take(9) - 4; int px = m.take(5), py = m.take(4); int dims = 1 + m.take(2); if(dims == 1 && (py || o == 'J')) return; Case c = with("TOYS", dims); std::string rows[4] = {"abcde", "fg hi", "  jkl", "mnopq"}; rows[py][px] = o; for(int k = 0; k < (dims == 1 ? 1 : 4); ++k) c.text += (k ? "\n" : "") + rows[k]; c.pos = Pos{px, py}; c.stack = {6, n}; c.maxTicks = 2; if(dims == 2) c.cells = {{Pos{-2, 1}, 99}, {Pos{1, -3}, 98}}; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "toys-local"; f.what = "reading and writing beside and behind the IP, stepping aside and waiting, from every place and delta"; static const std::string ops = "LRQXYZW"; static std::vector<Pos> de; for(int a = -2; a <= 2; ++a) for(int b = -2; b <= 2; ++b) de.push_back(Pos{a, b}); de.push_back(Pos{1, 0, 1});
		f.total = ops.size() * de.size() * 9 * 2 * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); char o = ops[m.take(ops.size())]; Pos d = pick(m, de); int p = m.take(9), dims = 2 + m.take(2); if(dims == 2 && d[2]) return; i64 w = 95 + m.take(3) * 2; Case c = with("TOYS", dims, 6); std::string g = "abcdefghi"; g[p] = o; c.text = g.substr(0, 3) + "\n" + g.substr(3, 3) + "\n" + g.substr(6); c.pos = Pos{p % 3, p / 3}; c.delta = d; if(o == 'W'){ c.stack = {w}; vec(c.stack, Pos{1, 1, 0}, dims); } else c.stack = {8, 97}; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "toys-wait-values"; f.what = "waiting for every value while the cell holds every value"; f.total = EDGE.size() * EDGE.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); i64 cell = pick(m, EDGE), w = pick(m, EDGE); int dims = 1 + m.take(3); Case c = with("TOYS", dims, 6); c.text = "1W2@"; Pos at{5, dims > 1 ? 1 : 0}; c.cells = {{at, cell}}; c.pos = Pos{1}; c.stack = {7, w}; vec(c.stack, at, dims); run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "toys-wait"; f.what = "waiting for a cell that another IP writes, at every moment, in every order"; f.total = 7 * 7 * 4;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("TOYS", 2, 80); i64 v = 3 + m.take(7), w = 3 + m.take(7); int dly = m.take(4); c.text = std::string("#vt") + std::to_string(w % 10) + "01-3W1.@\n v\n >" + std::string(dly, 'z') + std::to_string(v % 10) + "01-3p@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "toys-random"; f.what = "the random direction is written to the cell and taken, from every delta; each of the directions is reached"; f.total = 3 * 8;
		f.run = [](u64 i, Ctx& x){
			Mixed m(i); int dims = 1 + m.take(3); i64 d = (i64)m.take(8) - 4; std::set<Pos> seen;
			Case c = with("TOYS", dims, 100 * dims); c.text = "U"; c.delta = Pos{d};
			for(int k = 0; k < dims; ++k) for(int s = -1; s < 2; s += 2){ Pos p; p[k] = s; c.cells.push_back({p, 'r'}); }
			c.beforeTick = [](ref::Machine& m, Funge::FungeUniverse& u){ if(m.ips.front()->pos != Pos())poke(m, u, Pos(), 'U'); };
			c.stopBefore = [&](ref::Machine&, ref::IP& ip){ if(ip.pos != Pos()) seen.insert(ip.delta); return false; };
			run(c, x);
			if(!x.failed && d && (int)seen.size() != 2 * dims) x.fail("U reached only " + std::to_string(seen.size()) + " of " + std::to_string(2 * dims) + " directions in " + std::to_string(50 * dims) + " draws");
		};
		f.recycle = 1; out.push_back(f);
	}
	{
		Family f; f.name = "orth"; f.what = "absolute access, ramps and output for every operand and delta"; static const std::string ops = "GPSVWXYZ"; static std::vector<i64> v = {0, 1, -1, 2, 5, 100, INT64_MAX, INT64_MIN, 1ll << 33}; static std::vector<Pos> de = {{1}, {-1}, {0, 1}, {2, -3}};
		f.total = ops.size() * v.size() * v.size() * 3 * de.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); char o = ops[m.take(ops.size())]; i64 a = pick(m, v), b = pick(m, v); int e = m.take(3); Pos d = pick(m, de); int dims = 1 + m.take(3); if(o == 'S' && (a > 255 || a < 0 || b > 255 || b < 0)) return; if(dims == 1 && (d[1] || o == 'W' || o == 'Y')) return; Case c = with("ORTH", dims, 3); c.cells = plane(2); if(dims == 1) c.cells = plane(1); c.delta = d; c.storage = Pos{2, dims > 1 ? 3 : 0}; c.text = std::string(1, o) + "1@"; c.pos = Pos{0}; if(e == 1) c.stack = {66}; if(e == 2) c.stack = {7, 66, 67}; if(e) c.stack.push_back(a); c.stack.push_back(b); run(c, x); };
		out.push_back(f);
	}
	sequences(out, "orth-sequence", "every sequence of bounded length of absolute access and ramps", letters(T ? "GPVWXYZ0123" : "GPVWXYZ01"), T ? 5 : 4, with("ORTH", 2, 20), {{}, {1, 2, 3, 1, 2}}, "", "1@");
	sequences(out, "refc", "every sequence of bounded length of references and dereferences in one to three dimensions", letters("RD123:\\$n"), T ? 6 : 5, with("REFC", 2, 30), {{}, {4, 5, 6, 7}}, "", "@");
	sequences(out, "refc-3d", "references in three dimensions", letters("RD12\\$"), T ? 6 : 5, with("REFC", 3, 30), {{4, 5, 6, 7, 8, 9}}, "", "@");
	{
		Family f; f.name = "subr"; f.what = "calls, jumps and returns with every number of arguments, in absolute and relative mode, from every delta"; static std::vector<i64> n = {0, 1, 2, 3, -1, 5, INT64_MIN}; static std::vector<Pos> de = {{1}, {2}, {0, 1}, {-1}}, at = {{4, 2}, {0, 1}, {-3, 2}, {9, 9}};
		f.total = n.size() * n.size() * de.size() * at.size() * 3 * 2 * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); i64 a = pick(m, n), b = pick(m, n); Pos d = pick(m, de), t = pick(m, at); char o = "CJR"[m.take(3)]; bool rel = m.take(2); int dims = 1 + m.take(3); if(dims == 1){ if(d[1]) return; t[1] = 0; } Case c = with("SUBR", dims, 10); std::string row = std::string(rel ? "O" : "A") + std::string(1, o); c.pos = Pos{2}; c.text = "  " + row; if(d == Pos{0, 1}) c.text = "  " + row.substr(0, 1) + "\n  " + row.substr(1); if(d == Pos{2}) c.text = "  " + row.substr(0, 1) + "z" + row.substr(1); if(d == Pos{-1}){ c.text = " " + std::string(row.rbegin(), row.rend()); } c.delta = d; c.cells = {{t + Pos{1}, 'z'}, {t, 'z'}, {t + Pos{2}, '0' + (b >= 0 && b < 6 ? b : 0)}, {t + Pos{3}, 'R'}}; for(int k = 1; k < 8; ++k) c.stack.push_back(k); if(o == 'R'){ vec(c.stack, t, dims); vec(c.stack, d, dims); c.stack.insert(c.stack.end(), {41, 42, 43}); c.stack.push_back(a); } else if(o == 'C'){ c.stack.insert(c.stack.end(), {41, 42, 43}); vec(c.stack, t, dims); c.stack.push_back(a); } else { c.stack.push_back(44); vec(c.stack, t, dims); } run(c, x); };
		out.push_back(f);
	}
	sequences(out, "subr-sequence", "every sequence of bounded length of SUBR and stack instructions", letters(T ? "ACJOR0123z" : "ACJOR013"), T ? 5 : 5, with("SUBR", 2, 16), {{}, {3, 0, 1, 0, 2}}, "", "@");
}
