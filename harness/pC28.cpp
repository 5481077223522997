// C28: floating point fingerprints.
#include "drive.h"
#include <cmath>
#include <cstring>
using namespace drv; using namespace eng;
static std::vector<i64> vals(bool f){
	std::vector<i64> r;
	std::vector<double> d = {0, -0.0, 1, -1, 0.5, -0.5, 2, 10, 1e-3, 3.14159265358979, -2.718281828, 1e10, -1e10, 1e30, 1e-30, 123456.789, 16777216, 16777217, 9007199254740993.0, INFINITY, -INFINITY, NAN, 1.0000001, 0.1, 9e17, -7.5};
	for(double x : d){ i64 v = 0; if(f){ float y = (float)x; memcpy(&v, &y, 4); } else memcpy(&v, &x, 8); r.push_back(v); }
	if(f){ r.push_back(1); r.push_back(0x7f7fffff); r.push_back(0x00800000); r.push_back((i64)0xffffffff3f800000ull); r.push_back(0x1234567840490fdbll); r.push_back(INT64_MIN); }
	else { r.push_back(1); r.push_back(0x7fefffffffffffffll); r.push_back(0x0010000000000000ll); r.push_back(-1); }
	return r;
}
static Case with(const char* fp, int ticks = 4){ Case c; c.cfg = cfg98(); c.cfg.fingerprints = {ref::fpid(fp)}; c.maxTicks = ticks; return c; }
static void pushStr(Case& c, const std::string& s){ c.stack.push_back(0); for(size_t i = s.size(); i-- > 0; ) c.stack.push_back((i64)(signed char)s[i]); }
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	for(int f = 0; f < 2; ++f){
		const char* fp = f ? "FPSP" : "FPDP";
		auto nm = [&](const char* s){ return std::string(fp) + "-" + s; };
		Case c = with(fp); c.stack = {5, 6, 7};
		products(out, nm("binary").c_str(), "every pair of special and ordinary values, over a deeper stack", letters("ADMSY"), 2, vals(f), c);
		products(out, nm("unary").c_str(), "every function of special and ordinary values, over a deeper stack", letters("BCEGHIKLNQTVXP"), 1, vals(f), c);
		c = with(fp);
		products(out, nm("short").c_str(), "operands missing from the stack", letters("ABCDEGHIKLMNPQSTVXYF"), 1, vals(f), c);
		products(out, nm("from-integer").c_str(), "every interesting integer", letters("F"), 1, EDGE, c);
		sequences(out, nm("sequence").c_str(), "every sequence of bounded length of arithmetic, conversion and stack instructions", letters(T ? "ASMDNQVFI3.:\\P" : "ASMDFI3P:"), 5, with(fp, 30), {{}, {7, 2, 9}}, "", ".@");
		{
			Family g; g.name = nm("dense"); g.what = "every function on a dense range of values"; static const std::string ops = "BCEGHIKLNQTVXP"; static int N; N = T ? 20000 : 1000; bool fl = f;
			g.total = ops.size() * (u64)N;
			g.run = [fl](u64 i, Ctx& x){ Mixed m(i); Case c = with(fl ? "FPSP" : "FPDP"); char o = ops[m.take(ops.size())]; double v = ((int)m.take(N) - N / 2) * (T ? 0.00171 : 0.0337); if(o == 'E' || o == 'H') v /= 17; i64 q = 0; if(fl){ float y = (float)v; memcpy(&q, &y, 4); } else memcpy(&q, &v, 8); c.stack = {1, q}; c.text = std::string(1, o) + "1@"; run(c, x); };
			out.push_back(g);
		}
		{
			Family g; g.name = nm("parse"); g.what = "every string of bounded length over digits, sign, point, exponent and others is parsed or reflects"; static const std::string al = T ? "01.-+e xi" : "01.-e x"; static int n = T ? 6 : 5; bool fl = f;
			g.total = n + 1; for(int k = 0; k < n; ++k) g.total *= al.size();
			g.run = [fl](u64 i, Ctx& x){ Mixed m(i); Case c = with(fl ? "FPSP" : "FPDP"); int len = m.take(n + 1); std::string s; for(int k = 0; k < n; ++k){ char ch = al[m.take(al.size())]; if(k < len) s += ch; } c.stack = {4}; pushStr(c, s); c.text = "#@R1@"; c.maxTicks = 5; run(c, x); };
			out.push_back(g);
			Family h; h.name = nm("parse-words"); h.what = "numbers written in words and at the limits"; static std::vector<std::string> w = {"inf", "-inf", "nan", "infinity", "0x1p3", "0x", "1e308", "-1.7976931348623157e308", "3.4028235e38", "1e39", "1e-40", "123456789012345678901234567890", "1 2", "1,5", "--1", "+-1", ".", "e5", "1e", "1e+", "\t 7", "7abc", "9007199254740993", "16777217"};
			h.total = w.size(); h.run = [fl](u64 i, Ctx& x){ Case c = with(fl ? "FPSP" : "FPDP"); c.stack = {4}; pushStr(c, w[i]); c.text = "#@RP@"; c.maxTicks = 5; run(c, x); };
			out.push_back(h);
		}
	}
	{
		Family g; g.name = "FPRT"; g.what = "every format of bounded structure, with every kind of value";
		static std::vector<std::string> pre = {"", "a", "%%", "x%%y"}, flag = {"%", "%-", "%0", "%+", "% ", "%#", "%-+ #0"}, wid = {"", "5", "12"}, prec = {"", ".0", ".3"}, conv = {"d", "i", "u", "x", "X", "o", "f", "e", "g", "G", "a", "s"}, post = {"", "z", "%%"}; static const std::string ops = "DFILS";
		g.total = pre.size() * flag.size() * wid.size() * prec.size() * conv.size() * post.size() * ops.size() * 3;
		g.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("FPRT"); c.text = "#@.@"; std::string f = pick(m, pre) + pick(m, flag) + pick(m, wid) + pick(m, prec); f += pick(m, conv); f += pick(m, post); char o = ops[m.take(ops.size())]; int v = m.take(3);
			c.stack = {42}; pushStr(c, f); static const std::vector<double> dv = {1.5, -123456.75, 0}; static const std::vector<i64> iv = {7, -1234567890123ll, 0}; static const std::vector<std::string> sv = {"hello", "", "a b"};
			if(o == 'S') pushStr(c, sv[v]); else if(o == 'D'){ i64 q; memcpy(&q, &dv[v], 8); c.stack.push_back(q); } else if(o == 'F'){ float y = (float)dv[v]; i64 q = 0; memcpy(&q, &y, 4); c.stack.push_back(q); } else if(o == 'I') c.stack.push_back(iv[v]); else { c.stack.push_back(iv[v] >> 32); c.stack.push_back(iv[v] & 0xffffffffll); }
			c.text = std::string("#@") + o + "1@"; c.maxTicks = 5; run(c, x); };
		out.push_back(g);
		Family w; w.name = "FPRT-words"; w.what = "integers of one and of two words, printed in every base, for every pair of interesting words"; static const std::vector<std::string> cv = {"%d", "%u", "%x", "%o", "%22d"};
		w.total = EDGE.size() * EDGE.size() * cv.size() * 2;
		w.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("FPRT"); i64 h = pick(m, EDGE), l = pick(m, EDGE); bool one = m.take(2); c.stack = {42}; pushStr(c, pick(m, cv)); c.stack.push_back(h); if(!one) c.stack.push_back(l); else if(l) return; c.text = std::string("#@") + (one ? "I" : "L") + "1@"; c.maxTicks = 5; run(c, x); };
		out.push_back(w);
		Family b; b.name = "FPRT-malformed"; b.what = "formats that do not convert exactly the value given"; static std::vector<std::string> fs = {"", "abc", "%", "%%", "a%%b", "%d%d", "%f%f", "%n", "%s", "%s%s", "%p", "%*d", "%.*f", "%1$d", "%d%n", "%f%s", "%5", "%.", "%-", "100%", "%d%%%d", "%y", "%lld%s", "%999999999999d", "%999999999999f", "%-999999999999s", "a%0999999999999x"};
		b.total = fs.size() * ops.size();
		b.run = [](u64 i, Ctx& x){ Mixed m(i); Case c = with("FPRT"); std::string f = pick(m, fs); char o = ops[m.take(ops.size())]; c.stack = {42}; pushStr(c, f); if(o == 'S') pushStr(c, "str"); else if(o == 'L'){ c.stack.push_back(1); c.stack.push_back(2); } else c.stack.push_back(5); c.text = std::string("#@") + o + "1@"; c.maxTicks = 5; run(c, x); };
		out.push_back(b);
	}
}
