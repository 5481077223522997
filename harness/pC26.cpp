// C26: every instruction in every state, under AddressSanitizer and checked library containers.
#include "cli.h"
#include <cstring>
#include <cmath>
using namespace drv; using namespace eng; using ref::Pos;
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:malloc_context_size=0:quarantine_size_mb=1:exitcode=86:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=600:detect_stack_use_after_return=0"; }
static std::string now;
static void report(const char* r){ std::string s(r); size_t k = s.find("ERROR:"); crashNote(now + "\n" + s.substr(k == std::string::npos ? 0 : k, 2000)); }
static bool T;
static Family fam(const char* n, const char* w, u64 total, std::function<void(u64, Ctx&)> f, unsigned recycle = 20000){ Family q; q.name = n; q.what = w; q.total = total; q.run = f; q.recycle = recycle; return q; }
static void go(Case c, Ctx& x){ static bool once = (__asan_set_error_report_callback(report), true); (void)once; c.freeTicks = 1; c.finalField = false; now = describe(c).substr(0, 600); run(c, x); }
static i64 bits(double d){ i64 v; memcpy(&v, &d, 8); return v; }
static const std::vector<std::string> FPS = {"BASE", "BITW", "BOOL", "CPLI", "DIRF", "FING", "FISH", "FIXP", "FPDP", "FPRT", "FPSP", "FRTH", "HRTI", "IIPC", "JSTR", "MODE", "NFUN", "ORTH", "PERL", "REFC", "STRN", "SUBR", "TOYS", "ROMA", "MODU", "TERM", "NULL"};
static std::string lettersOf(const std::string& f){ if(f == "ROMA") return "CDILMVXP"; if(f == "MODU") return "MUR"; if(f == "TERM") return "CDGHLSU"; if(f == "NULL") return "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; return ref::Machine::fpLetters(ref::fpid(f.c_str())); }
struct Op { std::string fp; char c; };
static Case base(int dims){ Case c; c.cfg = cfg98(dims); c.maxTicks = 6; return c; }
void eng::families(std::vector<Family>& out){
	T = thorough();
	static std::vector<i64> adv; adv = {0, 1, -1, 65, (i64)INT32_MAX + 1, INT64_MAX, INT64_MIN}; if(!T) adv.push_back(2);
	static std::vector<i64> more; more = {0, 3, -7, 31, 64, 255, -128, INT32_MIN, (i64)UINT32_MAX, INT64_MAX - 1, INT64_MIN + 1, bits(1.5), bits(1e308), bits(-0.0), bits(INFINITY), bits(NAN), bits(5e-324)};
	static std::vector<Op> fops; if(fops.empty()) for(auto& f : FPS) for(char c : lettersOf(f)) fops.push_back({f, c});
	static const std::string I98 = "0123456789abcdef<>^v[]wrx|_?#;jk@qz{}u$:\\ngps'\"+-*/%`!.,&~oi=()yhlmtXAEIZ";
	static const std::string IFISH = "0123456789abcdef><v^\\/|_#x!?.+-*,%=)('\":~$@l{}r[]oni&gp;`CRuOIDFShmsZ";
	auto tuple = [](Mixed& m, Case& c, int n, const std::vector<i64>& v){ for(int k = 0; k < n; ++k) c.stack.push_back(pick(m, v)); };
	auto pw = [](u64 b, int e){ u64 r = 1; while(e--) r *= b; return r; };
	{
		static int n = T ? 4 : 3;
		out.push_back(fam("base", "every Funge-98 instruction on every tuple of three (thorough: four) extreme operands, in 1 to 3 dimensions", I98.size() * 3 * pw(adv.size(), n), [=](u64 i, Ctx& x){ Mixed m(i); Case c = base(1 + m.take(3)); char o = I98[m.take(I98.size())]; tuple(m, c, n, adv); c.text = std::string("z") + o + "1@"; c.useFiles = o == 'i' || o == 'o'; c.input = "-"; go(c, x); }));
		out.push_back(fam("fingerprints", "every instruction of every fingerprint on every tuple of three (thorough: four) extreme operands", fops.size() * pw(adv.size(), n), [=](u64 i, Ctx& x){ Mixed m(i); auto& o = fops[m.take(fops.size())]; Case c = base(2); tuple(m, c, n, adv); c.cfg.fingerprints = {ref::fpid(o.fp.c_str())}; c.text = std::string("z") + o.c + "1@"; c.useFiles = o.fp == "DIRF"; c.useFing = true; go(c, x); }));
		static std::vector<i64> advf; advf.clear(); for(double v : {0.0, 1.0, -1.0, 2.0, 65.0, 0.5, -129.0, 1e300, (double)INFINITY, (double)NAN, 4294967296.0}) advf.push_back(bits(v)); if(T) advf.resize(8);
		out.push_back(fam("fish", "every ><> and *><> instruction on every tuple of three (thorough: four) extreme operands", IFISH.size() * 2 * pw(advf.size(), n), [=](u64 i, Ctx& x){ Mixed m(i); Case c = base(2); c.cfg = cfgFish(m.take(2)); char o = IFISH[m.take(IFISH.size())]; tuple(m, c, n, advf); c.text = std::string("1") + o + "1;"; c.useFiles = c.cfg.std == ref::STARFISH && o == 'F'; go(c, x); }));
		static int n2 = T ? 3 : 2; if(T) more = {0, 3, -7, 255, INT32_MIN, (i64)UINT32_MAX, INT64_MAX - 1, INT64_MIN + 1, bits(1.5), bits(1e308), bits(INFINITY), bits(NAN)};
		out.push_back(fam("numbers", "every instruction of every fingerprint and of Funge-98 on every tuple of integers and floating-point bit patterns", (fops.size() + I98.size()) * pw(more.size(), n2), [=](u64 i, Ctx& x){ Mixed m(i); u64 k = m.take(fops.size() + I98.size()); Case c = base(2); tuple(m, c, n2, more); char o; if(k < fops.size()){ o = fops[k].c; c.cfg.fingerprints = {ref::fpid(fops[k].fp.c_str())}; c.useFiles = fops[k].fp == "DIRF"; } else { o = I98[k - fops.size()]; c.useFiles = o == 'i' || o == 'o'; } c.text = std::string("z") + o + "1@"; go(c, x); }));
	}
	{
		// strings on the stack, with and without end
		static std::vector<std::vector<i64>> strs; if(strs.empty()){ for(const char* s : {"", "a", "ab", "I", "MCMXCIX", "-1", "1.5e3", "inf", "%", "%d", "%s%n", "..", "/", "nodir/x", "((", "\x80\xff", " "}){ std::vector<i64> v = {0}; for(size_t k = strlen(s); k-- > 0; ) v.push_back((signed char)s[k]); strs.push_back(v); } std::vector<i64> v; strs.push_back({}); for(int k = 0; k < 300; ++k) v.push_back('x'); strs.push_back(v); v.insert(v.begin(), 0); strs.push_back(v); strs.push_back({0, 256 + 'a', -1000}); strs.push_back({0, INT64_MIN, INT64_MAX, 0}); }
		static std::vector<i64> n = {5, INT64_MIN, 0}; if(!T) n.resize(2);
		if(!T) strs.erase(strs.begin() + 12, strs.end() - 4);
		static std::vector<Op> all; if(all.empty()){ all = fops; for(char c : I98) all.push_back({"", c}); }
		out.push_back(fam("strings", "every instruction on every pair of odd strings, with a number above, between or below", all.size() * strs.size() * strs.size() * n.size(), [](u64 i, Ctx& x){ Mixed m(i); auto& o = pick(m, all); auto a = pick(m, strs), b = pick(m, strs); i64 v = pick(m, n); int where = v == 0 ? 1 : v < 0 ? 2 : 0; Case c = base(2); auto add = [&](const std::vector<i64>& w){ c.stack.insert(c.stack.end(), w.begin(), w.end()); }; if(where == 0) c.stack.push_back(v); add(b); if(where == 1) c.stack.push_back(v); add(a); if(where == 2) c.stack.push_back(v); if(!o.fp.empty()) c.cfg.fingerprints = {ref::fpid(o.fp.c_str())}; c.useFiles = o.fp == "DIRF" || o.fp.empty(); c.files["ab"] = "1\n2"; c.text = std::string("z") + o.c + "1@"; go(c, x); }));
	}
	{
		// two instructions of a fingerprint after each other, and an instruction at every edge of the program
		static std::vector<std::array<u64, 3>> prs; if(prs.empty()) for(size_t a = 0; a < fops.size(); ++a) for(size_t b = 0; b < fops.size(); ++b) if(fops[a].fp == fops[b].fp) prs.push_back({a, b, 0});
		static const std::vector<std::vector<i64>> st = {{}, {0, 0, 0, 0}, {3, 2, 1}, {-1, -1, -1, -1, -1}, {0, 'a', 'b', 2, 1}, {INT64_MIN, INT64_MAX, 5}, {7, 0, 'x', 0, 'y', 'z'}, {1, 0, 0, 1, 1, 0}, {bits(1.5), bits(-2.0), 4}};
		static const u64 NM = T ? 8 : 4; static std::vector<std::vector<i64>> stb; stb = st; if(!T) stb.resize(5);
		out.push_back(fam("pairs", "every pair of instructions of a fingerprint on every one of several stacks, in four (thorough: eight) modes", prs.size() * stb.size() * NM, [](u64 i, Ctx& x){ Mixed m(i); auto& p = pick(m, prs); Case c = base(2); c.stack = pick(m, stb); static const unsigned md[] = {0, ref::M_HOVER, ref::M_INVERT, ref::M_QUEUE, ref::M_SWITCH, ref::M_DIVE, ref::M_INVERT | ref::M_QUEUE, ref::M_HOVER | ref::M_SWITCH}; c.mode = md[m.take(NM)]; c.cfg.fingerprints = {ref::fpid(fops[p[0]].fp.c_str())}; c.text = std::string("z") + fops[p[0]].c + fops[p[1]].c + "1@"; c.maxTicks = 9; c.useFiles = fops[p[0]].fp == "DIRF"; go(c, x); }));
		out.push_back(fam("base-pairs", "every pair of Funge-98 instructions on every one of several stacks, in four (thorough: eight) modes and three dialects", I98.size() * I98.size() * stb.size() * NM * 2, [](u64 i, Ctx& x){ Mixed m(i); Case c = base(2); char a = I98[m.take(I98.size())], b = I98[m.take(I98.size())]; c.stack = pick(m, stb); static const unsigned md[] = {0, ref::M_HOVER, ref::M_INVERT, ref::M_QUEUE, ref::M_SWITCH, ref::M_DIVE, ref::M_INVERT | ref::M_QUEUE, ref::M_HOVER | ref::M_SWITCH}; c.mode = md[m.take(NM)]; if(m.take(2)){ c.cfg = cfg93(2); } c.text = std::string("z") + a + b + "1@"; c.maxTicks = 9; c.useFiles = a == 'i' || b == 'i' || a == 'o' || b == 'o'; c.input = "1"; go(c, x); }));
		static std::vector<Op> all; if(all.empty()){ all = fops; for(char c : I98) all.push_back({"", c}); }
		static std::vector<std::string> lay; lay = {"%", "%@", "z%", "\n%", "%\n%", "@%", "%%", "k%", "'%", "s%", "\"%", ";%", "#%", "%\f%", "2k%", "9k%", "v\n%@"}; static std::vector<Pos> del; del = {Pos{1}, Pos{-1}, Pos{0, 1}, Pos{0, -1}, Pos{2, 1}, Pos{-3, 2}, Pos{0}, Pos{1, 1, 1}}; if(!T){ del.erase(del.begin() + 3); del.erase(del.begin() + 5, del.begin() + 6); }
		out.push_back(fam("edges", "every instruction at every edge of small programs, entered in every direction, on every one of several stacks", all.size() * lay.size() * del.size() * stb.size(), [](u64 i, Ctx& x){ Mixed m(i); auto& o = pick(m, all); std::string t = pick(m, lay); Case c = base(2); c.delta = pick(m, del); c.stack = pick(m, stb); if(c.delta[2]) c.cfg.dims = 3; std::string s; for(char ch : t) if(ch == '%') s += o.c; else s += ch; c.text = s; if(!o.fp.empty()) c.cfg.fingerprints = {ref::fpid(o.fp.c_str())}; c.useFiles = o.fp == "DIRF" || o.c == 'i' || o.c == 'o'; c.maxTicks = 7; go(c, x); }));
		static std::string fl; fl = "lr{}[]gpIFDOuCR:$@&n0oi~sm"; if(T) fl.resize(22); static int nf = T ? 4 : 3; u64 tot = 2; for(int k = 0; k < nf; ++k) tot *= fl.size();
		out.push_back(fam("fish-sequences", "every sequence of bounded length of ><> and *><> instructions that use stacks, registers, calls, files", tot * (T ? 1 : 3), [](u64 i, Ctx& x){ Mixed m(i); Case c = base(2); c.cfg = cfgFish(m.take(2)); c.stack = st[T ? 2 : m.take(3)]; for(auto& v : c.stack) v = bits((double)v); for(int k = 0; k < nf; ++k) c.text += fl[m.take(fl.size())]; c.text += "l;"; c.maxTicks = 12; c.useFiles = c.text.find('F') != std::string::npos; c.input = "q"; go(c, x); }));
	}
	{
		// large stacks: nothing may need call depth or memory out of proportion
		static std::vector<Op> all; if(all.empty()){ all = fops; for(char c : I98) all.push_back({"", c}); }
		static const std::vector<std::string> lay = {"z%1@", "kk%1@", "\"x\"%@"}; static const int big = T ? 20000 : 6000;
		out.push_back(fam("large-stacks", "every instruction on stacks of thousands of values, alone and under a chain of k, with a call stack of 1 MB", all.size() * lay.size() * 3, [](u64 i, Ctx& x){ Mixed m(i); auto& o = pick(m, all); Case c = base(2); std::string t = pick(m, lay), s; for(char ch : t) if(ch == '%') s += o.c; else s += ch; c.text = s; int w = m.take(3); if(w == 1) c.stack = {0}; for(int k = 0; k < big; ++k) c.stack.push_back(w == 2 ? k % 3 : 1); if(w == 1){ c.stack.push_back(0); c.stack.push_back(big / 2); } if(!o.fp.empty()) c.cfg.fingerprints = {ref::fpid(o.fp.c_str())}; c.useFiles = o.fp == "DIRF" || o.c == 'i' || o.c == 'o'; c.maxTicks = 4; go(c, x); }, 200));
	}
	{
		static const std::vector<std::string> unit = {"1", "0", "f", "-", " ", "\n", "a ", "\x80"}, tail = {"", "\n", "1\n"}, pr = {"&.&.@", "~~&.@", "I.@", "I.@", "iiii;", "\"\"~@"}; static const int len = T ? 200000 : 20000;
		out.push_back(fam("large-input", "input of many thousands of characters to every input instruction", unit.size() * tail.size() * pr.size() * 4, [](u64 i, Ctx& x){ Mixed m(i); Case c = base(2); const auto &u = pick(m, unit), &t = pick(m, tail); int w = m.take(pr.size()); i64 b = std::vector<i64>{2, 10, 16, 36}[m.take(4)]; if(w == 4) c.cfg = cfgFish(true); if(w == 2){ c.cfg.fingerprints = {ref::fpid("BASE")}; c.stack = {b}; } if(w == 3) c.cfg.fingerprints = {ref::fpid("STRN")}; c.text = pr[w]; for(int k = 0; k < len; ++k) c.input += u; c.input += t; c.maxTicks = 6; go(c, x); }, 100));
	}
	{
		// stacks of stacks
		static const std::vector<std::string> tk = {"{", "}", "u", "0{", "2}", "3u", "0", "1", "n", "s", "y", "]", "t", "("}; static int n = T ? 5 : 4; u64 tot = T ? 1 : 3; for(int k = 0; k < n; ++k) tot *= tk.size();
		static const std::vector<std::vector<i64>> st = {{}, {1, 2, 3}, {-2, -1}};
		out.push_back(fam("stack-stack", "every sequence of bounded length of block instructions", tot, [](u64 i, Ctx& x){ Mixed m(i); Case c = base(2); c.stack = T ? st[1] : pick(m, st); for(int k = 0; k < n; ++k) c.text += pick(m, tk); c.text += "@"; c.maxTicks = 25; go(c, x); }));
		static const std::vector<std::string> tk2 = {"\"ENIF\"4(", "\"LLUN\"4(", "\"HSIF\"4(", "\"EDOM\"4(", "\"CFER\"4(", "\"AMOR\"4(", "\"PIH\"3(", ")", "\"LLUN\"4)", "A", "X", "Y", "Z", "S", "I", "0", "t"}; static int n2 = T ? 4 : 3; u64 tot2 = 2; for(int k = 0; k < n2; ++k) tot2 *= tk2.size();
		out.push_back(fam("loading", "every sequence of bounded length of loading, unloading, copying and using fingerprints", tot2, [](u64 i, Ctx& x){ Mixed m(i); Case c = base(2); if(m.take(2)) c.stack = {'A', 'B', 1, 'S'}; c.text = "#@"; for(int k = 0; k < n2; ++k) c.text += pick(m, tk2); c.text += "1@"; c.useFing = true; c.maxTicks = 50; go(c, x); }, 4000));
	}
	{
		// programs of arbitrary bytes
		static std::vector<int> by; by = {0, 1, 9, 10, 12, 13, 27, ' ', '"', '\'', ';', '#', 'k', '{', '@', 127, 128, 255, 'j', 'x'}; if(T) by.resize(17); static int n = T ? 4 : 3; u64 tot = 8; for(int k = 0; k < n; ++k) tot *= by.size();
		out.push_back(fam("bytes", "every program of bounded length over odd bytes, in every dialect", tot, [](u64 i, Ctx& x){ Mixed m(i); Case c; int d = m.take(8); c.cfg = d < 4 ? cfg98(d) : d < 6 ? cfg93(d - 3) : cfgFish(d == 7); c.text = ""; for(int k = 0; k < n; ++k) c.text += (char)pick(m, by); c.text += d < 6 ? "1@" : "1;"; c.maxTicks = 12; go(c, x); }));
		static const std::string num = "0-+.e9a \n\xff"; static int n2 = T ? 5 : 4; u64 tot2 = 6; for(int k = 0; k < n2; ++k) tot2 *= num.size();
		out.push_back(fam("input", "every input of bounded length over digits, signs and odd bytes, to every input instruction", tot2, [](u64 i, Ctx& x){ Mixed m(i); int w = m.take(6); Case c = base(2); static const char* t[] = {"&.&.@", "~.~.~.@", "z\"x\"&~&@", "IIII@", "&&~~@", "iii;"}; if(w == 5) c.cfg = cfgFish(false); c.text = t[w]; if(w == 3) c.cfg.fingerprints = {ref::fpid("BASE")}; for(int k = 0; k < n2; ++k) c.input += num[m.take(num.size())]; c.maxTicks = 12; go(c, x); }));
	}
}
