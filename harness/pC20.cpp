// C20: MODE switches.
#include "drive.h"
using namespace drv; using namespace eng;
static Case with(std::vector<const char*> fps, int ticks){ Case c; c.cfg = cfg98(); for(auto f : fps) c.cfg.fingerprints.push_back(ref::fpid(f)); c.maxTicks = ticks; return c; }
static const std::vector<unsigned> MODES = {0, ref::M_HOVER, ref::M_INVERT, ref::M_QUEUE, ref::M_SWITCH, ref::M_INVERT | ref::M_QUEUE, ref::M_HOVER | ref::M_SWITCH, ref::M_INVERT | ref::M_SWITCH, ref::M_QUEUE | ref::M_SWITCH, ref::M_HOVER | ref::M_QUEUE, ref::M_HOVER | ref::M_INVERT, ref::M_HOVER | ref::M_INVERT | ref::M_QUEUE, ref::M_HOVER | ref::M_INVERT | ref::M_QUEUE | ref::M_SWITCH};
static bool T;
// every sequence of tokens under every initial mode
static void underModes(std::vector<Family>& out, const char* name, const char* what, const std::vector<std::string>& tok, int n, const Case& base, const std::vector<std::vector<i64>>& st, const std::vector<unsigned>& modes, const std::string& post){
	Family f; f.name = name; f.what = what; f.total = modes.size() * st.size(); for(int k = 0; k < n; ++k) f.total *= tok.size();
	f.run = [=](u64 i, Ctx& x){ Mixed m(i); Case c = base; c.mode = pick(m, modes); c.stack = pick(m, st); for(int k = 0; k < n; ++k) c.text += pick(m, tok); c.text += post; run(c, x); };
	out.push_back(f);
}
void eng::families(std::vector<Family>& out){
	T = thorough();
	static std::vector<i64> A = {1, 2, 3, 4, 5};
	sequences(out, "toggle-stack", "every sequence of bounded length of invert and queue toggles with stack instructions", letters(T ? "IQ123:\\$+-n.g" : "IQ12:\\$-n"), T ? 6 : 5, with({"MODE"}, 30), {{}, A}, "", "..@");
	sequences(out, "toggle-blocks", "every sequence of bounded length of invert and queue toggles with stack-stack instructions", letters(T ? "IQ012{}u.-" : "IQ12{}u"), T ? 6 : 5, with({"MODE"}, 40), {{}, A}, "", "..@");
	sequences(out, "toggle-split", "toggles with concurrent IPs: every sequence of bounded length", letters(T ? "IQHSt12.{:" : "IQt12.{"), T ? 6 : 5, with({"MODE"}, 80), {A}, "", ".@");
	sequences(out, "toggle-switch", "every sequence of bounded length of switch toggles and bracket instructions", letters(T ? "S[](){}1r#" : "S[](){}1"), T ? 6 : 5, with({"MODE"}, 40), {{}, {1, 1}}, "", "@");
	{
		Family f; f.name = "switch-grid"; f.what = "every 3x3 grid of brackets and turns executed in switch mode, then read back"; static const std::string al = T ? "[]{}(>v" : "[]{>v("; static int n = 7; f.total = 1; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({"MODE"}, 24); c.mode = ref::M_SWITCH; std::string t; for(int k = 0; k < n; ++k) t += al[m.take(al.size())]; t += "<^"; c.text = t.substr(0, 3) + "\n" + t.substr(3, 3) + "\n" + t.substr(6); run(c, x); };
		out.push_back(f);
	}
	sequences(out, "toggle-hover", "every sequence of bounded length of hover toggles and direction instructions", letters(T ? "H><^v[]r_|#1" : "H><^v[]r#"), T ? 5 : 5, with({"MODE"}, 24), {{}, {0, 1, 0}}, "", "@");
	{
		Family f; f.name = "hover-plane"; f.what = "direction instructions in hover mode from every delta at every place of a plane"; static const std::vector<std::string> tok = {">", "<", "^", "v", "[", "]", "r", "_", "|", "x", "w", "@", "z", "#", "j", "k>", "h", "l", "m"};
		static std::vector<Pos> de; for(int a = -2; a <= 2; ++a) for(int b = -2; b <= 2; ++b) de.push_back(Pos{a, b}); de.push_back(Pos{1, 1, 1}); de.push_back(Pos{0, 0, -2});
		f.total = tok.size() * tok.size() * de.size() * 3 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({"MODE"}, 16); c.mode = ref::M_HOVER; c.pos = Pos{2, 1}; c.delta = pick(m, de); std::string a = pick(m, tok), b = pick(m, tok); c.stack = std::vector<std::vector<i64>>{{1, 1, 1}, {0, 2, -1}, {}}[m.take(3)]; c.cfg.dims = 2 + m.take(2); if(c.cfg.dims == 2) c.delta[2] = 0; c.text = b + b + b + b + "\n" + b + a + a + b + "\n" + b + b + b + b; run(c, x); };
		out.push_back(f);
	}
	// each instruction under each combination of modes
	{
		Family f; f.name = "every-instruction"; f.what = "every printable instruction on stacks of every size to four under every combination of modes";
		static std::vector<i64> v = {0, 1, 3}; f.total = 94 * MODES.size() * 5 * 81 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({"MODE"}, 12); char o = 33 + m.take(94); c.mode = pick(m, MODES); int len = m.take(5); i64 vals[4]; for(i64& q : vals) q = v[m.take(3)]; for(int k = 0; k < 4; ++k) if(k < len) c.stack.push_back(vals[k]); else if(vals[k] != 0) return; if(m.take(2)) c.below = {{7, 8}}; c.cfg.filesystem = c.cfg.execute = false; if(o == '=' || o == 'y') c.cfg.env.clear(); c.text = std::string(1, o) + "12@"; c.input = "5 a"; run(c, x); };
		out.push_back(f);
	}
	underModes(out, "queue-invert", "every sequence of bounded length of stack instructions under each of the four stack disciplines", letters(T ? "123:\\$+-!n`yg" : "123:\\$-!n"), T ? 5 : 4, with({"MODE"}, 24), {{}, A}, {0, ref::M_INVERT, ref::M_QUEUE, ref::M_INVERT | ref::M_QUEUE}, "...@");
	underModes(out, "queue-invert-blocks", "every sequence of bounded length of stack-stack instructions under each of the four stack disciplines", letters(T ? "0123{}u:$n" : "012{}u:n"), T ? 5 : 5, with({"MODE"}, 40), {{}, A}, {0, ref::M_INVERT, ref::M_QUEUE, ref::M_INVERT | ref::M_QUEUE}, "...@");
	{
		Family f; f.name = "fingerprints"; f.what = "instructions of other fingerprints under the stack modes";
		static const std::vector<std::pair<const char*, std::string>> fp = {{"BOOL", "ANOX"}, {"BITW", "ALNORX"}, {"CPLI", "ADMOSV"}, {"FRTH", "DLOPR"}, {"REFC", "RD"}, {"STRN", "ACDFLMNRSV"}, {"JSTR", "GP"}, {"TOYS", "ABDEHINPLRQ"}, {"ORTH", "AEGOPS"}, {"SUBR", "ACJOR"}, {"FPDP", "ABCDFIMNPSY"}};
		static std::vector<std::vector<i64>> st = {{}, A, {0, 65, 66, 0, 67, 1}, {2, 0, 1, 3, 1, 2, 1}, {0, 49, 50, 0, 0, 51}};
		f.total = 0; for(auto& q : fp) f.total += q.second.size(); f.total *= MODES.size() * st.size() * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); unsigned mo = pick(m, MODES); auto s = pick(m, st); bool two = m.take(2); u64 k = m.v; for(auto& q : fp){ if(k >= q.second.size()){ k -= q.second.size(); continue; } Case c = with({q.first}, 12); c.mode = mo; c.stack = s; c.text = std::string(two ? 2 : 1, q.second[k]) + "1.@"; run(c, x); return; } };
		out.push_back(f);
	}
	{
		Family f; f.name = "scope"; f.what = "modes reach every stack of every IP, and turning them off restores normal behaviour";
		static const std::vector<std::string> pr = {"0{I12..0}..@", "0{Q12..0}..@", "0{0{I5}12..Q34..@", "tI12..@", "tQ12..@", "tI1I2Q..@", "I0{12:..0}.@", "Q0{12:..0}.@", "IQ0{12t..@", "It0{12..@", "I0{t12..@", "Q0{t12..@", "II12..@", "QQ12..@", "HH>1.@", "SS[[1.@", "t0{I01u..@", "QtQ12..@", "ItI12..@", "tt0{I1Q2..@", "St[1.@", "Ht>1.@"};
		static std::vector<std::vector<i64>> st = {{}, {9, 8, 7}, A}; static std::vector<std::vector<std::vector<i64>>> be = {{}, {{4, 5, 6}}, {{1, 2}, {3}}};
		f.total = pr.size() * st.size() * be.size() * MODES.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({"MODE"}, 120); c.text = pick(m, pr); c.stack = pick(m, st); c.below = pick(m, be); c.mode = pick(m, MODES); run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "load-at-runtime"; f.what = "modes switched by a fingerprint loaded at run time, and left on after it is unloaded";
		static const std::vector<std::string> a = {"H", "I", "Q", "S"}; static const std::vector<std::string> b = {"", "H", "I", "Q", "S"};
		f.total = 4 * 5 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with({}, 60); std::string p = pick(m, a), q = pick(m, b); bool un = m.take(2); c.text = "\"EDOM\"4(" + p + (un ? "\"EDOM\"4)" : "") + "12" + q + "3..@"; run(c, x); };
		out.push_back(f);
	}
}
