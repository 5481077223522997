// C16: funge-lib fingerprints.
#include "drive.h"
using namespace drv; using namespace eng; using ref::Pos;
static Case with(std::vector<const char*> fps, int ticks){ Case c; c.cfg = cfg98(); for(auto f : fps) c.cfg.fingerprints.push_back(ref::fpid(f)); c.maxTicks = ticks; return c; }
static std::string id(const std::string& n){ return "\"" + std::string(n.rbegin(), n.rend()) + "\"" + std::to_string(n.size()); }
static bool T;
static i64 fdiv(i64 a, i64 b){ i64 q = b == -1 ? (i64)(0 - (u64)a) : a / b; return q < 0 ? q - 1 : q; }
static i64 rem(i64 a, i64 b){ return b == -1 ? 0 : a % b; }
static std::string roman(i64 n){
	static const char* h[] = {"", "C", "CC", "CCC", "CD", "D", "DC", "DCC", "DCCC", "CM"}; static const char* t[] = {"", "X", "XX", "XXX", "XL", "L", "LX", "LXX", "LXXX", "XC"}; static const char* u[] = {"", "I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX"};
	return std::string(n / 1000, 'M') + h[n / 100 % 10] + t[n / 10 % 10] + u[n % 10];
}
static void expect(const Case& c, Ctx& x, const std::string& want){
	Result r = run(c, x);
	if(!x.failed && !r.diverged && r.out != want) x.fail("output \"" + quote(r.out) + "\", the documented result is \"" + quote(want) + "\"\n  case: " + describe(c));
}
void eng::families(std::vector<Family>& out){
	T = thorough();
	{
		Family f; f.name = "modulo"; f.what = "the three modulo variants on every pair of small operands and of interesting ones, against their definitions"; f.recycle = 150;
		static std::vector<i64> v; i64 n = T ? 40 : 12; for(i64 k = -n; k <= n; ++k) v.push_back(k); for(i64 k : {100, -100, 1000003, INT32_MAX, INT32_MIN}) v.push_back(k); v.push_back(INT64_MAX); v.push_back(-INT64_MAX); v.push_back(1ll << 40);
		f.total = v.size() * v.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); i64 a = pick(m, v), b = pick(m, v); Case c = with({"MODU"}, 40); c.stack = {7, a, b, a, b, a, b}; c.text = "M.R.U..@"; 
			i64 M = b ? (i64)((u64)a - (u64)fdiv(a, b) * (u64)b) : 0, R = b ? rem(a, b) : 0, U = 0; if(b){ i64 r = rem(a, b); U = r > 0 ? r : (i64)((u64)r + (b < 0 ? 0 - (u64)b : (u64)b)); }
			expect(c, x, std::to_string(M) + " " + std::to_string(R) + " " + std::to_string(U) + " 7 "); };
		out.push_back(f);
	}
	{
		Family f; f.name = "roman"; f.what = "every number to a bound in Roman numerals"; f.recycle = 150; static int n = T ? 4100 : 2100; static const std::string al = "IVXLCDM"; f.total = n + 40 + 7;
		f.run = [](u64 i, Ctx& x){ Case c = with({"ROMA"}, 10); if(i < 7){ static const i64 v[] = {1, 5, 10, 50, 100, 500, 1000}; c.stack = {3}; c.text = std::string(1, al[i]) + "..@"; expect(c, x, std::to_string(v[i]) + " 3 "); return; } i64 k = (i64)i - 47; if(k == -40) k = INT64_MIN; if(k == -39) k = -1000000; c.stack = {3, k}; c.text = "P.@"; expect(c, x, (k <= 0 ? "0 " : roman(k) + " ") + "3 "); };
		out.push_back(f);
	}
	{
		Family f; f.name = "terminal"; f.what = "every terminal instruction with every operand in a range, against the escape sequence it stands for"; f.recycle = 100; static std::vector<i64> v; for(i64 k = T ? -130 : -25; k <= (T ? 260 : 60); ++k) v.push_back(k); v.push_back(999); v.push_back(12345678901ll);
		f.total = v.size() * 2 + 31 * 31 + 4;
		f.run = [](u64 i, Ctx& x){ Case c = with({"TERM"}, 10); c.stack = {3}; std::string e = "\x1b[", w;
			if(i < 4){ c.text = std::string(1, "CHLS"[i]); const char* ws[] = {"2J", "1;1H", "0K", "0J"}; w = e + ws[i]; }
			else if(i < 4 + 31 * 31){ i64 a = (i - 4) % 31, b = (i - 4) / 31; if(a > 26) a = a * 37; if(b > 26) b = b * 111; c.text = "G"; c.stack.push_back(a); c.stack.push_back(b); w = e + std::to_string(b + 1) + ";" + std::to_string(a + 1) + "H"; }
			else { i -= 4 + 31 * 31; bool d = i & 1; i64 k = v[i / 2]; c.text = d ? "D" : "U"; c.stack.push_back(k); i64 n = k < 0 ? -k : k; if(k) w = e + std::to_string(n) + ((k > 0) == d ? "B" : "A"); }
			c.text += ".@"; expect(c, x, w + "3 "); };
		out.push_back(f);
	}
	{
		Family f; f.name = "null"; f.what = "every letter of the null fingerprint reflects"; f.recycle = 100; f.total = 26 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({"BITW", "NULL"}, 10); c.pos = Pos{2}; c.stack = {3, 4}; c.text = "@." + std::string(1, 'A' + m.take(26)) + "5@"; if(m.take(2)) c.cfg.dims = 3; expect(c, x, "4 "); };
		out.push_back(f);
	}
	static const std::string dyn = "ABCDEFGHIJKLMNO";
	{
		Family f; f.name = "caller"; f.what = "every instruction a library can use on its caller, for every operand and state of the caller"; f.recycle = 100;
		static std::vector<std::vector<i64>> st = {{}, {1}, {2, 0, 1}, {9, 8, 7, 6, 5, 4, 3, 2}, {9, 8, 7, 3}, {9, 8, 7, -3}, {9, -1, 0, 1, 0, 0}, {5, 1, 1, 0}, {1, INT64_MIN}, {1, INT64_MAX}, {1, 2, 3, 1, 0, 0}, {65, 3, 1, 0}}; static std::vector<Pos> de = {{1}, {-1}, {0, 1}, {2}};
		f.total = dyn.size() * st.size() * de.size() * 4 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); char l = dyn[m.take(dyn.size())]; auto s = pick(m, st); Pos d = pick(m, de); int k = m.take(4); if(m.take(2) && T) return; Case c = with({"DYNA"}, 12); int dims = k == 3 ? 3 : k == 2 ? 1 : 2; if(dims == 1 && d[1]) return; c.cfg.dims = dims; c.stack = s; c.delta = d; c.pos = Pos{1, dims > 1 ? 1 : 0}; c.storage = Pos{1}; std::string row = std::string("z") + l + "1z@"; c.text = dims == 1 ? row : "zzzzz\n" + row + "\nz2zzz\nz@zzz"; if(k == 1) c.mode = ref::M_HOVER; run(c, x); };
		out.push_back(f);
	}
	{
		static const std::string toks = "ACDEFIJKLMNO12"; Case c = with({"DYNA"}, 40);
		sequences(out, "caller-sequence", "every sequence of bounded length of library instructions that act on the caller", letters(T ? "ABCDEFGHIJKLMNO12-" : "ABCDFIJKLMN12"), T ? 3 : 3, c, {{}, {1, 0, 0, 2, 0, 1}}, "", ".@", 80);
	}
	{
		Family f; f.name = "libraries"; f.what = "libraries that load libraries, split, keep state in their own space, move blocks and return with deeper or shallower stacks: every sequence"; f.recycle = 60; static const std::vector<std::string> tok = {"A", "B", "C", "D", "E", "G", "H", "I", "J", "K", "L", "M", "N", "Z", "1", "."}; static int n = T ? 3 : 2;
		f.total = 3; for(int k = 0; k < n; ++k) f.total *= tok.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({"LIBN"}, 60); c.stack = std::vector<std::vector<i64>>{{}, {1, 2}, {9, 8, 7, 6, 5, 4, 3}}[m.take(3)]; if(c.stack.size() == 2) c.below = {{4, 5}, {6}}; for(int k = 0; k < n; ++k) c.text += pick(m, tok); c.text += "...@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "ips"; f.what = "libraries loaded and used by several IPs, before and after splits, loaded repeatedly and unloaded"; f.recycle = 30;
		static const std::vector<std::string> tok = {id("ROMA") + "($$", id("ROMA") + ")", "I.", "t", "X.", id("MODU") + "($$", "73M."}; static int n = T ? 5 : 4; f.total = 1; for(int k = 0; k < n; ++k) f.total *= tok.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({}, 300); for(int k = 0; k < n; ++k) c.text += pick(m, tok); c.text += "V.@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "modes"; f.what = "library instructions while the caller's universe is in each mode"; f.recycle = 100; static const std::vector<std::pair<std::string, std::string>> op = {{"ROMA", "I"}, {"ROMA", "C"}, {"MODU", "M"}, {"MODU", "R"}, {"MODU", "U"}, {"LIBN", "J"}, {"LIBN", "M"}, {"LIBN", "Z"}, {"LIBN", "I"}, {"DYNA", "C"}, {"DYNA", "H"}, {"DYNA", "J"}, {"DYNA", "L"}};
		f.total = op.size() * 16 * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); auto& o = pick(m, op); unsigned k = m.take(16); Case c = with({"MODE", o.first.c_str()}, 30); c.mode = (k & 1 ? (unsigned)ref::M_HOVER : 0u) | (k & 2 ? (unsigned)ref::M_INVERT : 0u) | (k & 4 ? (unsigned)ref::M_QUEUE : 0u) | (k & 8 ? (unsigned)ref::M_SWITCH : 0u); c.stack = std::vector<std::vector<i64>>{{}, {7, 3}, {1, 2, 3, 4, 5}}[m.take(3)]; c.text = o.second + "12\\.." + o.second + "..@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "preferred"; f.what = "a library is preferred over a built-in of the same name, from the command line and by the load instruction, in every order"; f.total = 16; f.recycle = 16;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int how = m.take(4), use = m.take(4); Case c = with({}, 60); if(how == 1) c.cfg.fingerprints = {ref::fpid("HRTI")}; std::string t = how == 1 ? "" : how == 2 ? "#v" : ""; if(how == 0) t = id("HRTI") + "($$"; if(how == 2) t = id("HRTI") + "($$" + id("HRTI") + "($$"; if(how == 3) t = "t" + id("HRTI") + "($$"; const char* u[] = {"S.", "G.", "SG..", "S.S."}; c.text = t + u[use] + "@"; const char* w[] = {"8 ", "7 ", "7 8 ", "8 8 "}; expect(c, x, how == 3 ? std::string() : std::string(w[use])); };
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int how = m.take(4), use = m.take(4); Case c = with({}, 80); std::string t; if(how == 1) c.cfg.fingerprints = {ref::fpid("HRTI")}; else if(how == 0) t = id("HRTI") + "($$"; else if(how == 2) t = id("HRTI") + "($$" + id("HRTI") + "($$"; else t = id("BOOL") + "($$" + id("HRTI") + "($$"; const char* u[] = {"S.", "G.", "SG..", "S.S."}; const char* w[] = {"8 ", "7 ", "7 8 ", "8 8 "}; c.text = t + u[use] + "@"; expect(c, x, w[use]); };
		out.push_back(f);
	}
	{
		Family f; f.name = "letters"; f.what = "a library overlays exactly the letters it has pages for"; f.recycle = 80; static const std::vector<std::pair<std::string, std::string>> lib = {{"ROMA", "CDILMPVX"}, {"MODU", "MRU"}, {"TERM", "CDGHLSU"}, {"HRTI", "GS"}, {"LIBN", "ABCDEFGHIJKLMNZ"}}; f.total = lib.size() * 26;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); auto& l = pick(m, lib); char c0 = 'A' + m.take(26); if(l.second.find(c0) != std::string::npos) return; Case c = with({l.first.c_str()}, 30); c.stack = {3, 4}; c.pos = Pos{2}; c.text = std::string("@.") + c0 + "5@"; expect(c, x, "4 "); };
		out.push_back(f);
	}
}
