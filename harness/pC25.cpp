// C25: inter-IP communication.
#include "drive.h"
using namespace drv; using namespace eng;
static Case with(int ticks, std::vector<const char*> more = {}){ Case c; c.cfg = cfg98(); c.cfg.fingerprints = {ref::fpid("IIPC")}; for(auto f : more) c.cfg.fingerprints.push_back(ref::fpid(f)); c.maxTicks = ticks; return c; }
static bool T;
// every pair of programs run by a parent and its child: the child starts at column 0 of row 0 moving left
static void pairs(std::vector<Family>& out, const char* name, const char* what, const std::vector<std::string>& tok, int n, const std::vector<std::vector<i64>>& st, const std::string& postP, const std::string& postC, std::vector<const char*> more = {}){
	Family f; f.name = name; f.what = what; f.total = st.size(); for(int k = 0; k < 2 * n; ++k) f.total *= tok.size();
	f.run = [=](u64 i, Ctx& x){ Mixed m(i); Case c = with(120, more); c.stack = pick(m, st); std::string a, b; for(int k = 0; k < n; ++k) a += pick(m, tok); for(int k = 0; k < n; ++k) b += pick(m, tok); a += postP; b += postC; /* parent runs a to the right of t, the child b on the row below */ c.text = "#vt" + a + "\n >" + b; run(c, x); };
	out.push_back(f);
}
void eng::families(std::vector<Family>& out){
	T = thorough();
	// ids are those of the live IPs, obtained through I and A
	pairs(out, "family", "every pair of short programs run by a parent and its child, over identities, taking, reading and pushing", T ? std::vector<std::string>{"A", "I", "G", "L", "P", "1", ":", "\\", "$"} : std::vector<std::string>{"A", "I", "G", "L", "P", "1"}, 3, {{}, {7, 8, 9}}, "1z.@", "z..@");
	pairs(out, "child-acts", "longer child programs acting on the parent", {"AG", "AL", "5AP", "IG", "4IP", "A1+G", "D", "z", ".", "t"}, T ? 3 : 2, {{}, {7, 8, 9}}, "zz...@", "...@");
	pairs(out, "dormant", "every pair of short programs with dormancy: a dormant IP resumes exactly when its stack has been touched", {"D", "A5\\P", "AG", "AL", "1", "z", ".", "{", "D."}, T ? 3 : 2, {{}, {7, 8, 9}}, "zzzzz.@", "zzzz.@");
	{
		Family f; f.name = "wake"; f.what = "the parent sleeps; the child touches, peeks at or ignores its stack at every moment"; static const std::vector<std::string> act = {"A5\\P", "5AP", "AG", "AL", "AG AG", "5AP6AP", "I", "AL$", "AG AP", "z", "@"};
		static std::vector<std::vector<i64>> st = {{}, {1}, {7, 8, 9}}; f.total = act.size() * act.size() * 6 * st.size() * 4 * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with(90); std::string a = pick(m, act), b = pick(m, act); int dly = m.take(6); c.stack = pick(m, st); int pre = m.take(4); if(m.take(3) == 1) c.below = {{4, 5}}; c.text = "#vt" + std::string(pre, 'z') + "D.D.@\n >" + std::string(dly, 'z') + a + "z" + b + "zz..@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "ids"; f.what = "every operand as an identity: live, dead, never used, negative and huge"; static std::vector<i64> off = {-2, -1, 0, 1, 2, 3, 100, INT64_MAX, INT64_MIN, 1ll << 32, 1ll << 33};
		f.total = 3 * off.size() * 3 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with(60); char o = "GLP"[m.take(3)]; i64 d = pick(m, off); int k = m.take(3); c.cells = {}; std::string num; bool big = d > 100 || d < -100; /* identities are relative to the IP's own */ std::string rel = big ? "$" : d == 100 ? "aa*+" : d < 0 ? std::string("0") + std::to_string(-d) + "-+" : std::to_string(d) + "+"; c.pos = ref::Pos{1}; c.text = std::string("@") + (k == 1 ? "#zt" : k == 2 ? "tt" : "z") + "6I" + rel + (big ? ":" : "") + o + "..@"; if(big){ c.text = std::string("@") + o + "..@"; c.stack = {5, 6, d}; } else c.stack = {5, 6}; if(m.take(2)) c.text += "zz"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "dead"; f.what = "the addressed IP ends at every moment around the access"; f.total = 3 * 10 * 10 * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with(90); char o = "GLP"[m.take(3)]; int a = m.take(10), b = m.take(10); bool up = m.take(2); c.stack = {7, 8, 9}; std::string acc = std::string(up ? "6A" : "6I1+") + o + ".#@."; if(up) c.text = "#vt" + std::string(a, 'z') + "@\n >" + std::string(b, 'z') + acc + "@"; else c.text = "#vt" + std::string(a, 'z') + acc + "@\n >" + std::string(b, 'z') + "@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "stacks"; f.what = "the top stack of the addressed IP is the one acted on, whatever stacks it has and whichever is selected"; static const std::vector<std::string> pre = {"", "0{", "2{", "0{0{", "0{5", "0}", "2{3}"}; static const std::vector<std::string> act = {"AG.AG.", "AL.AL.", "5AP6AP", "AG AG 5AP"};
		f.total = pre.size() * pre.size() * act.size() * 2 * 8;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with(120); std::string a = pick(m, pre), b = pick(m, pre), q = pick(m, act); if(m.take(2)) c.below = {{4, 5}, {6}}; int d = m.take(8); c.stack = {11, 12, 13}; c.text = "#vt" + a + std::string(12 - a.size(), 'z') + "...0}..@\n >" + b + std::string(d, 'z') + q + "..@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "modes"; f.what = "reading, taking and pushing under the stack modes"; static const std::vector<std::string> act = {"AG.", "AL.", "5AP", "D."}; f.total = 4 * act.size() * act.size() * 5;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with(90, {"MODE"}); unsigned k = m.take(4); c.mode = (k & 1 ? (unsigned)ref::M_INVERT : 0u) | (k & 2 ? (unsigned)ref::M_QUEUE : 0u); std::string a = pick(m, act), b = pick(m, act); int d = m.take(5); c.stack = {11, 12, 13}; c.text = "#vt" + std::string(d, 'z') + (a[0] == 'A' ? "zz" : a == "D." ? "D." : "6.") + "...@\n >" + a + b + "..@"; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "three"; f.what = "grandchildren: identity and parent of every IP of every split tree of three splits"; static const std::vector<std::string> t = {"t", "z", "I.", "A.", "AL.", "5AP"}; static int n = T ? 6 : 4; f.total = 1; for(int k = 0; k < n; ++k) f.total *= t.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with(220); for(int k = 0; k < n; ++k) c.text += pick(m, t); c.text += "I$@"; c.text = "@" + c.text; c.pos = ref::Pos{1}; c.stack = {3, 4}; run(c, x); };
		out.push_back(f);
	}
}
