// C06: string mode, fetch and store-character in every string style.
#include "drive.h"
using namespace drv; using namespace eng;
static void addStrings(std::vector<Family>& out, const std::string& name, const std::string& al, int n){
	Family f; f.name = name; f.what = "every program \"...\" of bounded length over quotes, white space, escapes and instructions, in three styles, two standards and both directions";
	f.total = 3 * 3; for(int k = 0; k < n; ++k) f.total *= al.size();
	f.run = [al, n](u64 i, Ctx& x){
		Mixed m(i); Case c; int s = m.take(3), d = m.take(3);
		c.cfg = d == 2 ? cfg93() : cfg98();
		c.cfg.strs = s == 0 ? ref::SGML : s == 1 ? ref::MULTI : ref::CSTR;
		std::string t; for(int k = 0; k < n; ++k) t += al[m.take(al.size())];
		c.text = "1\"" + t + (d == 1 ? "\"2@" : "@");
		c.maxTicks = 40;
		run(c, x);
	};
	out.push_back(f);
}
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	addStrings(out, "strings", T ? std::string("\" \\naer0x") : std::string("\" \\n0x"), T ? 6 : 5);
	addStrings(out, "whitespace", std::string("\" \tx\\"), T ? 7 : 5);
	{
		Family f; f.name = "escape"; f.what = "a backslash before every cell value";
		f.total = (303 + 8) * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); static const i64 w[] = {INT64_MIN, INT64_MAX, (1ll << 32) + 'n', 256 + '0', 512 + '"', -256 + 'e', (1ll << 40) + '\\', -1000}; u64 k = m.take(311); i64 v = k < 303 ? (i64)k - 2 : w[k - 303]; int s = m.take(3);
			Case c; c.cfg = cfg98(); c.cfg.strs = s == 0 ? ref::SGML : s == 1 ? ref::MULTI : ref::CSTR; c.text = "\"x\\y2\"@@"; c.cells = {{Pos{3}, v}}; c.maxTicks = 20; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "wide"; f.what = "cells of every width pushed by string mode, fetched, and white space runs of every kind in every direction";
		static std::vector<i64> v = {0, 1, 9, 10, 11, 12, 13, 14, 8, 31, 32, 33, 34, 92, 127, 128, 133, 160, 255, 256, 256 + 32, 256 + 34, 256 + 92, 512 + 9, (1ll << 32) + 32, (1ll << 32) + 34, INT64_MIN, INT64_MIN + 32, INT64_MAX, -1, -32, -34, -224};
		static std::vector<Pos> ds = {{1}, {-1}, {2}, {-3}};
		f.total = v.size() * v.size() * ds.size() * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); int s = m.take(3); c.cfg.strs = s == 0 ? ref::SGML : s == 1 ? ref::MULTI : ref::CSTR; i64 a = pick(m, v), b = pick(m, v); Pos d = pick(m, ds);
			c.delta = d; i64 k = d[0];
			c.cells = {{Pos{}, '"'}, {Pos{k}, a}, {Pos{2 * k}, b}, {Pos{3 * k}, '"'}, {Pos{4 * k}, '@'}}; c.maxTicks = 14; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "fetch-store"; f.what = "' and s for every cell value, position next to the wrap edge and delta";
		static std::vector<i64> v; for(i64 k = -2; k < 260; ++k) v.push_back(k); for(i64 e : EDGE) v.push_back(e);
		static std::vector<std::string> pr = {"'x1@", "s x@", "1@'", "2@s", "' @", "s @", "k'xy@", "ks  z@", "'", "s"};
		static std::vector<Pos> ds = {{1}, {-1}, {2}, {0, 1}, {1, 1}};
		f.total = v.size() * pr.size() * ds.size() * 2;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; i64 e = pick(m, v); std::string p = pick(m, pr); Pos d = pick(m, ds); bool cc = m.take(2); c.cfg = cfg98(); c.cfg.charCells = cc;
			size_t at = p.find('\'') != std::string::npos ? p.find('\'') : p.find('s'); c.text = p + "\n 1@"; c.pos = Pos{(i64)(p[0] == 'k' ? 0 : at)}; c.delta = d; Pos n = c.pos + d; if(p[0] != 'k' && p.find('\'') != std::string::npos && n[0] >= 0 && n[1] >= 0) c.cells = {{n, e}}; c.stack = {e, 5, e, p[0] == 'k' ? 2 : e}; c.maxTicks = 8; run(c, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "wrap"; f.what = "strings and fetches crossing the edge of the occupied region, from every start column, with blank columns between";
		static const std::string al = "\"' sx"; static int n = T ? 7 : 6;
		f.total = 2 * 3 * n; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(); int s = m.take(3); c.cfg.strs = s == 0 ? ref::SGML : s == 1 ? ref::MULTI : ref::CSTR; c.delta = Pos{m.take(2) ? 1 : -1}; c.pos = Pos{(i64)m.take(n)}; for(int k = 0; k < n; ++k) c.text += al[m.take(al.size())]; c.stack = {7, 65, 66}; c.maxTicks = 16; run(c, x); };
		out.push_back(f);
	}
}
