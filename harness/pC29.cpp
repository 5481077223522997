// C29: directories, commands, Perl and timers.
#include "drive.h"
using namespace drv; using namespace eng; using ref::Pos;
static bool T;
static char pick(Mixed& m, const std::string& s){ return s[m.take(s.size())]; }
static void str(std::vector<i64>& st, const std::string& s){ st.push_back(0); for(size_t i = s.size(); i-- > 0; ) st.push_back((i64)(signed char)s[i]); }
static Family fam(const char* n, const char* w, u64 total, std::function<void(u64, Ctx&)> f, unsigned recycle = 2000){ Family q; q.name = n; q.what = w; q.total = total; q.run = f; q.recycle = recycle; return q; }
void eng::families(std::vector<Family>& out){
	T = thorough();
	{
		static const std::vector<std::string> names = {"a", "b", "f", "q"}; static const std::string ops = "CMRo";
		static int n = T ? 5 : 3; static u64 per = names.size() * ops.size(); u64 tot = 2; for(int k = 0; k < n; ++k) tot *= per;
		out.push_back(fam("directories", "every sequence of bounded length of making, entering and removing directories and writing files, with names of a directory that holds something, an empty one, a file and nothing; with and without access to the file system", tot, [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(1); c.cfg.fingerprints = {ref::fpid("DIRF")}; c.useFiles = true; c.dirs = {"a", "b"}; c.files["f"] = "1"; c.files["a/g"] = "2"; c.maxTicks = 40; c.cfg.filesystem = m.take(2) == 0;
			std::string t; std::vector<std::vector<i64>> parts;
			for(int k = 0; k < n; ++k){ char op = pick(m, ops); const std::string& d = pick(m, names); t += op; std::vector<i64> p; if(op == 'o') p = {1, 0, 0}; str(p, d); parts.push_back(p); }
			for(size_t k = parts.size(); k-- > 0; ) c.stack.insert(c.stack.end(), parts[k].begin(), parts[k].end());
			c.text = "#@" + t + "@"; run(c, x);
		}));
	}
	{
		static const std::string al = "EMTSGz.t"; static const std::vector<std::pair<i64, i64>> clocks = {{123456000, 1000}, {999998000, 1000}, {999000000, 250000}, {0, 333333000}, {1000, 1999999000}, {5000, 3600000000000ll}};
		static int n = T ? 7 : 5; u64 tot = clocks.size(); for(int k = 0; k < n; ++k) tot *= al.size();
		out.push_back(fam("timers", "every sequence of bounded length of the timer instructions, waits, output and a split, under clocks that advance by a microsecond up to an hour in a tick", tot, [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(1); c.cfg.fingerprints = {ref::fpid("HRTI")}; auto k = pick(m, clocks); c.nowNs = k.first; c.stepNs = k.second; c.maxTicks = 60; c.text = "#@";
			bool t = false; for(int q = 0; q < n; ++q){ char o = pick(m, al); if(o == 't'){ if(t) return; t = true; } c.text += o; } c.text += ".@"; run(c, x);
		}));
	}
	static const std::vector<int> rets = {0, 1, 255, 256, 2 * 256, 255 * 256, 9, 139, -1, 32512, 127, 65535};
	{
		static const std::string ch = std::string("a \"'\\$;|\n\x01") + '\xff' + '\0'; static int n = T ? 4 : 3; u64 tot = rets.size() * 2; for(int k = 0; k < n; ++k) tot *= ch.size();
		out.push_back(fam("commands", "every command over ordinary characters, quotes, blanks, control and high bytes and an inner zero, up to a length, with every kind of status; with and without execution", tot, [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(1); c.systemRet = pick(m, rets); c.cfg.execute = m.take(2) == 0; std::string s; for(int k = 0; k < n; ++k) s += pick(m, ch);
			c.stack = {7, 8}; str(c.stack, s); c.text = "#@=..@"; c.maxTicks = 20; run(c, x);
		}));
		static const std::string al = "=&.:$e0"; static int n2 = T ? 6 : 5; u64 t2 = rets.size(); for(int k = 0; k < n2; ++k) t2 *= al.size();
		out.push_back(fam("command-sequences", "every sequence of bounded length of commands and stack instructions", t2, [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(1); c.systemRet = pick(m, rets); c.stack = {0, 'b', 0, 'b', 'a', 0, 'c'}; c.text = "#@"; for(int k = 0; k < n2; ++k) c.text += pick(m, al); c.text += ".@"; c.maxTicks = 60; run(c, x);
		}));
		static int n3 = T ? 4 : 3; u64 t3 = rets.size() * 2 * 3; for(int k = 0; k < n3; ++k) t3 *= ch.size();
		out.push_back(fam("perl", "every Perl text over ordinary characters, quotes, blanks, control and high bytes and an inner zero, up to a length, with every kind of status; with and without execution", t3, [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(1); c.cfg.fingerprints = {ref::fpid("PERL")}; c.systemRet = pick(m, rets); c.cfg.execute = m.take(2) == 0; char op = "EIS"[m.take(3)]; std::string s; for(int k = 0; k < n3; ++k) s += pick(m, ch);
			c.stack = {7, 8}; str(c.stack, s); c.text = std::string("#@") + op + "....@"; c.maxTicks = 20; run(c, x);
		}));
		static const std::string pl = "EIS.:$=0"; static int n4 = T ? 6 : 4; u64 t4 = rets.size() * 2; for(int k = 0; k < n4; ++k) t4 *= pl.size();
		out.push_back(fam("perl-sequences", "every sequence of bounded length of Perl, command and stack instructions", t4, [](u64 i, Ctx& x){
			Mixed m(i); Case c; c.cfg = cfg98(1); c.cfg.fingerprints = {ref::fpid("PERL")}; c.systemRet = pick(m, rets); c.cfg.execute = m.take(2) == 0; c.stack = {5, 0, '1', '+', '2', 0, 'a', 0, 'c'}; c.text = "#@"; for(int k = 0; k < n4; ++k) c.text += pick(m, pl); c.text += "..@"; c.maxTicks = 60; run(c, x);
		}));
	}
}
