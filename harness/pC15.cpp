// C15: fingerprint loading and unloading.
#include "drive.h"
using namespace drv; using namespace eng;
static Case with(std::vector<const char*> fps, int ticks){ Case c; c.cfg = cfg98(); for(auto f : fps) c.cfg.fingerprints.push_back(ref::fpid(f)); c.maxTicks = ticks; return c; }
static std::string id(const std::string& n){ return "\"" + std::string(n.rbegin(), n.rend()) + "\"" + std::to_string(n.size()); }
static const std::vector<std::string> FPS = {"BASE", "BITW", "BOOL", "CPLI", "DBUG", "DIRF", "FING", "FISH", "FIXP", "FPDP", "FPRT", "FPSP", "FRTH", "HRTI", "IIPC", "JSTR", "MODE", "NFUN", "ORTH", "PERL", "REFC", "STRN", "SUBR", "TOYS"};
static bool T;
static Family seqIds(const char* name, const char* what, const std::vector<std::string>& tok, int n, const std::string& post, int ticks){
	Family f; f.name = name; f.what = what; f.total = 1; for(int k = 0; k < n; ++k) f.total *= tok.size();
	f.run = [=](u64 i, Ctx& x){ Mixed m(i); Case c = with({}, ticks); for(int k = 0; k < n; ++k) c.text += pick(m, tok); c.text += post; run(c, x); };
	return f;
}
void eng::families(std::vector<Family>& out){
	T = thorough();
	// overlapping fingerprints: BOOL, BITW and ORTH share A, O, X, L.. in different ways
	static std::vector<std::string> tok; for(const char* n : {"BOOL", "BITW", "ORTH"}){ tok.push_back(id(n) + "($$"); tok.push_back(id(n) + ")"); } for(const char* o : {"35A.", "35O.", "N.", "12X"}) tok.push_back(o);
	out.push_back(seqIds("lifo", "every sequence of bounded length of loading, unloading and using three overlapping fingerprints", tok, T ? 5 : 4, "35O.@", 200));
	static std::vector<std::string> tok2; for(const char* n : {"BOOL", "TOYS"}){ tok2.push_back(id(n) + "("); tok2.push_back(id(n) + ")"); } for(const char* o : {"#v", "z", "A.", "t"}) tok2.push_back(o);
	out.push_back(seqIds("split", "every sequence of bounded length of loading, unloading, using and splitting", {id("BOOL") + "($$", id("BOOL") + ")", id("BITW") + "($$", id("BITW") + ")", "35A.", "35X.", "t", "N."}, T ? 6 : 4, "35A.@", 400));
	{
		Family f; f.name = "children"; f.what = "after every sequence of bounded length of loads and unloads of three overlapping fingerprints, an IP and its child (and grandchild) use the shared letters"; static int n = T ? 7 : 6; f.total = n * 2; for(int k = 0; k < n; ++k) f.total *= 6;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int len = 1 + m.take(n); bool grand = m.take(2); Case c = with({}, 400); static const char* fp[] = {"BITW", "CPLI", "ORTH"}; bool seen[3] = {}; std::string t;
			for(int k = 0; k < n; ++k){ int v = m.take(6); if(k >= len){ if(v) return; continue; } int q = v % 3; if(v < 3){ t += id(fp[q]) + "($$"; seen[q] = true; } else { if(!seen[q]) return; t += id(fp[q]) + ")"; } }
			std::string use = grand ? "t1234A..35O..@" : "1234A..35O..@";
			size_t col = t.size() + 1; c.text = t + "#vt1234A..35O..@\n"; c.text += std::string(col, ' ') + (grand ? ">" : "v") + (grand ? "z#" "vt1234A..35O..@" : "") + "\n"; if(grand) col += 3; for(char ch : std::string("1234A..35O..@")) c.text += std::string(col, ' ') + ch + "\n"; (void)use; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "each"; f.what = "every fingerprint: what loading pushes, which letters act or reflect while it is loaded, and after it is unloaded"; f.total = FPS.size() * 26 * 4;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); std::string n = pick(m, FPS); char l = 'A' + m.take(26); int k = m.take(4); Case c = with({}, 80); c.useFiles = true; c.cfg.execute = c.cfg.filesystem = false; std::string q = id(n); static const char* L = nullptr; (void)L; std::string un = k == 1 || k == 3 ? q + ")" : ""; bool act = std::string(ref::Machine::fpLetters(ref::fpid(n.c_str()))).find(l) != std::string::npos; if(act && un.empty() && k == 0 && n == "DBUG" && l == 'E') return; c.text = "#@" + std::string(k >= 2 ? q + "($$" : "") + q + "(.." + un + "1234" + std::string(1, l) + ".@"; if(n == "HRTI" || n == "FIXP" || n == "TOYS") c.maxTicks = 60; c.input = "5\n"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "twice"; f.what = "loading the same fingerprint several times needs as many unloads"; f.total = 5 * 6 * 8;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int a = m.take(5), b = m.take(6); std::string n = FPS[(m.take(8) * 3 + 2) % FPS.size()]; std::string nm = id(n); Case c = with({}, 300); c.text = "#@"; for(int k = 0; k < a; ++k) c.text += nm + "("; for(int k = 0; k < b; ++k) c.text += "#v" + nm + ")"; char l = ref::Machine::fpLetters(ref::fpid(n.c_str()))[0]; if(n == "HRTI") return; c.text += "5678" + std::string(1, l) + ".@\n>@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "ids"; f.what = "loading and unloading by every count and every spelling: unknown ids, empty, negative and huge counts, leading zeros, wide cells"; static std::vector<i64> cnt = {INT64_MIN, -1, 0, 1, 2, 3, 4, 5, 8, 9, 12};
		static std::vector<std::vector<i64>> st = {{}, {'L', 'O', 'O', 'B'}, {'B', 'O', 'O', 'L'}, {0, 'L', 'O', 'O', 'B', 0}, {'L', 'O', 'O', 'B', 0, 0, 0, 0}, {'L', 'O', 'O', 'B', 1}, {0x424F4F4C}, {0x4F4C, 0x424F}, {0x424F4F4C - 256 * 255, 255}, {'L', 'O' + 256, 'O' - 1, 'B'}, {1ll << 62, 0x424F4F4C}, {-1, -1, -1}, {'X', 'X', 'X', 'X'}, {'L', 'O', 'O', 'B', -1}, {0x424F4F4C00ll, 0}};
		f.total = cnt.size() * st.size() * 2 * 2 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({}, 60); i64 n = pick(m, cnt); auto s = pick(m, st); bool un = m.take(2), pre = m.take(2), lib = m.take(2); c.stack = lib ? std::vector<i64>{7, 8, 9} : std::vector<i64>{}; c.stack.insert(c.stack.end(), s.begin(), s.end()); c.stack.push_back(n); if(pre) c.cfg.fingerprints = {ref::fpid("BOOL")}; c.pos = Pos{1}; c.text = std::string("@") + (un ? ")" : "(") + "...35A..@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "reflect"; f.what = "letters of no loaded fingerprint reflect and change nothing, before, between and after"; f.total = 26 * FPS.size() * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); char l = 'A' + m.take(26); std::string n = pick(m, FPS); bool un = m.take(2); if(!un && std::string(ref::Machine::fpLetters(ref::fpid(n.c_str()))).find(l) != std::string::npos) return; Case c = with({n.c_str()}, 30); std::string q = un ? id(n) + ")" : ""; c.text = "@." + q + "12" + l + "@"; c.pos = ref::Pos{2}; run(c, x); };
		out.push_back(f);
	}
	sequences(out, "fing", "every sequence of bounded length of swapping, dropping and copying single letters and using them", {"'A", "'O", "1", "'N", "X", "Y", "Z", "A", "O"}, T ? 6 : 5, with({"FING", "BOOL"}, 40), {{}, {6, 5, 3}}, "", "A.@");
	{
		Family f; f.name = "fing-operands"; f.what = "single-letter operations with every operand from -2 to 100 as letter or index"; f.total = 3 * 103 * 103;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); char o = "XYZ"[m.take(3)]; i64 a = (i64)m.take(103) - 2, b = (i64)m.take(103) - 2; Case c = with({"BITW", "FING"}, 20); c.stack = {6, 3, 12, a, b}; c.text = std::string(1, o) + "A.@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "fing-mixed"; f.what = "single-letter operations mixed with loading, unloading and splitting"; static const std::vector<std::string> t = {"'A'OX", "'AY", "'A'OZ", id("BOOL") + "($$", id("BOOL") + ")", id("BITW") + "($$", id("GNIF") + ")", "73A.", "73O.", "t"}; static int n = T ? 5 : 4; f.total = 1; for(int k = 0; k < n; ++k) f.total *= t.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({"FING"}, 300); for(int k = 0; k < n; ++k) c.text += pick(m, t); c.text += "73A.@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "preloaded"; f.what = "every ordered pair of fingerprints given on the command line, then each letter"; f.total = FPS.size() * FPS.size() * 26;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); std::string a = pick(m, FPS), b = pick(m, FPS); char l = 'A' + m.take(26); Case c = with({a.c_str(), b.c_str()}, 4); c.useFiles = true; c.cfg.execute = c.cfg.filesystem = false; c.pos = ref::Pos{1}; c.text = "@" + std::string(1, l) + "1@"; c.stack = {0, 'b', 'a', 2, 1, 1}; c.input = "12\n"; run(c, x); };
		out.push_back(f);
	}
}
