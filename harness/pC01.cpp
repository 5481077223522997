// C01: source text is laid out in funge-space as documented.
#include "drive.h"
#include "Field.h"
#include <sstream>
using namespace drv; using namespace eng;
static Funge::Vector V(const Pos& p){ Funge::Vector v{p[0]}; for(int i = 1; i < ref::ND; ++i) if(p[i]) v.set(i, p[i]); return v; }
static void load(const std::string& text, int dims, bool chr, Ctx& x){
	x.log = "dims=" + std::to_string(dims) + (chr ? " char" : "") + " text=\"" + quote(text) + "\"";
	crashNote(x.log);
	std::istringstream is(text);
	Funge::Field f(is, Funge::Field::FORMAT_BF, dims, chr ? Funge::CELL_CHAR : Funge::CELL_INT);
	ref::Field m; m.charCells = chr;
	m.parse(Pos(), text, false, dims);
	x.add(C_TRANS, text.size()); x.add(C_TRACES);
	x.state(ref::mix(m.hash(), dims));
	auto bad = [&](const std::string& s){ x.fail(s + "\n  case: " + x.log); };
	for(auto& c : m.cells) if(f.get(V(c.first)) != c.second) return bad("cell " + c.first.str() + " holds " + std::to_string(f.get(V(c.first))) + ", expected " + std::to_string(c.second));
	for(int d = 0; d < ref::ND; ++d) if(f.min(d) != m.lo[d] || f.max(d) != m.hi[d]) return bad("bounds of dimension " + std::to_string(d) + " are " + std::to_string(f.min(d)) + ".." + std::to_string(f.max(d)) + ", expected " + std::to_string(m.lo[d]) + ".." + std::to_string(m.hi[d]));
	Pos p; u64 n = 1; for(int d = 0; d < 5; ++d) n *= m.hi[d] + 3;
	if(n < (text.size() > 60 ? 4000 : 40000)) for(u64 k = 0; k < n; ++k){ u64 q = k; for(int d = 0; d < 5; ++d){ i64 w = m.hi[d] + 3; p[d] = (i64)(q % w) - 1; q /= w; } if(f.get(V(p)) != m.get(p)) return bad("cell " + p.str() + " holds " + std::to_string(f.get(V(p))) + ", expected " + std::to_string(m.get(p))); }
	if(dims == 0 && !m.cells.empty()){ int u = 1; for(auto& c : m.cells) for(int d = 0; d < ref::ND; ++d) if(c.first[d]) u = std::max(u, d + 1); if((int)f.size() != u) return bad("the funge has " + std::to_string(f.size()) + " dimensions, expected " + std::to_string(u)); }
	if(dims != 0 && (int)f.size() != dims) bad("the funge has " + std::to_string(f.size()) + " dimensions, expected " + std::to_string(dims));
}
void eng::families(std::vector<Family>& out){
	static bool T = thorough();
	{
		Family f; f.name = "texts"; f.what = "every text of bounded length over a letter, space, CR, LF, form feed and vertical tab, loaded with 0 to 4 dimensions";
		static const std::string al = "x \n\r\f\v"; static const int n = T ? 8 : 6;
		static std::vector<u64> pw; pw = {1}; for(int k = 0; k < n; ++k) pw.push_back(pw.back() * al.size());
		static u64 per; per = 0; for(u64 p : pw) per += p;
		f.total = per * 5; f.recycle = 100000;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); u64 k = m.take(per); int d = m.take(5); std::string t; int len = 0; while(k >= pw[len]){ k -= pw[len]; ++len; } for(int q = 0; q < len; ++q){ t += al[k % al.size()]; k /= al.size(); } load(t, d, false, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "bytes"; f.what = "every byte value in every context, with int and char cells";
		static std::vector<std::pair<std::string, std::string>> cx = {{"", ""}, {"a", "b"}, {"\n", "c"}, {"\f", "d"}, {"a\v", "\ne"}, {"\r", "\n"}, {"\t", "\t"}, {std::string("\0", 1), "z"}};
		f.total = 256 * cx.size() * 5 * 2; f.recycle = 100000;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); char c = m.take(256); auto& k = pick(m, cx); int d = m.take(5); load(k.first + c + k.second, d, m.take(2), x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "shapes"; f.what = "lines and pages of every length around the page size, with every line end";
		static std::vector<int> ln = T ? std::vector<int>{0, 1, 2, 79, 80, 81, 300} : std::vector<int>{0, 1, 79, 81}; static std::vector<std::string> le = {"\n", "\r", "\r\n", "\f\n", "\v\r\n", "\n\f", "  \n"};
		f.total = ln.size() * ln.size() * ln.size() * le.size() * le.size() * le.size() * 3; f.recycle = 100000;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); int a = pick(m, ln), b = pick(m, ln), c = pick(m, ln); std::string p = pick(m, le), q = pick(m, le), r = pick(m, le); int d = m.take(3); load(std::string(a, 'a') + p + std::string(b / 2, ' ') + std::string(b - b / 2, 'b') + q + std::string(c, 'c') + r, d == 2 ? 3 : d * 2, false, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "tall"; f.what = "many lines and pages";
		f.total = 4 * 3 * 5 * 3;
		f.run = [](u64 i, Ctx& x){ Mixed m(i); static const int ns[] = {24, 25, 26, 1000}; int n = ns[m.take(4)]; static const char* s[] = {"\n", "\f", "\v"}; const char* e = s[m.take(3)]; int d = m.take(5); int k = m.take(3); std::string t; for(int q = 0; q < n; ++q){ if(k == 0 || (k == 1 && q % 7 == 3) || (k == 2 && q == n - 1)) t += std::string(q % 5, ' ') + "y"; t += e; } load(t, d, false, x); };
		out.push_back(f);
	}
	{
		Family f; f.name = "executed"; f.what = "loaded programs run from the origin: the IP finds the text where it was laid out (all dimensions and line ends)";
		static const std::string al = "1v>h\n\r\f."; static const int n = T ? 6 : 5;
		f.total = 4; for(int k = 0; k < n; ++k) f.total *= al.size();
		f.run = [](u64 i, Ctx& x){ Mixed m(i); Case c; c.cfg = cfg98(1 + m.take(4)); for(int k = 0; k < n; ++k) c.text += al[m.take(al.size())]; c.text += "@"; c.maxTicks = 12; run(c, x); };
		out.push_back(f);
	}
}
