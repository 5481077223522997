// C27: BeQunge and funge-lib files, funges of any dimension.
#include "cli.h"
using namespace drv; using namespace eng; using ref::Pos;
static bool T;
static Family fam(const char* n, const char* w, u64 total, std::function<void(u64, Ctx&)> f, unsigned recycle = 2000){ Family q; q.name = n; q.what = w; q.total = total; q.run = f; q.recycle = recycle; return q; }
static Case load(Fmt f, const std::string& t, int dims = 0){ Case c; c.cfg = cfg98(dims); c.fmt = f; c.text = t; c.wholeField = true; c.maxTicks = 0; c.finalField = false; return c; }
static Case nfun(int dims){ Case c; c.cfg = cfg98(dims); c.cfg.fingerprints = {ref::fpid("NFUN")}; c.maxTicks = 60; return c; }
// text that pushes n
static std::string num(int n){ return n < 10 ? std::string(1, '0' + n) : std::string(1, 'a' + n - 10); }
void eng::families(std::vector<Family>& out){
	T = thorough();
	// ---- loading
	{
		static const std::vector<std::string> dir = {"Version 1", "Dimensions 3", "Dimensions 2", "Dimensions 5", "Dimensions 0", "Lines 1", "Lines 2", "Lines 3", "Lines 0", "Origin 0:0", "Origin 1:2", "Origin -3:-1", "Origin 5", "Origin 1:2:3", "Origin :4", "Coord 0", "Coord 2", "Coord -1:", "Coord 1:0:2:", "Coord :7", "Coord 0:0:0:1", "Comment x", "", "Lines 1\r", "Coord 1\t"};
		static int n = T ? 4 : 3; u64 tot = 2; for(int k = 0; k < n; ++k) tot *= dir.size();
		out.push_back(fam("beq-directives", "every sequence of bounded length of directives on one line, followed by text", tot, [](u64 i, Ctx& x){ Mixed m(i); int d = m.take(2) * 3; std::string h; for(int k = 0; k < n; ++k) h += (k ? "," : "") + pick(m, dir); run(load(BEQ, h + "\n1@\n 2\n\n3", d), x); }));
	}
	{
		static const std::vector<std::string> org = {"0:0", "2:1", "-2:-1", "1:0", "-1:1", "2147483648:0", "0:-4000000000"}, co = {"", ",Coord 0", ",Coord 1", ",Coord -1", ",Coord 0:1:", ",Coord 2:0:-1:0:3"}, body = {"a", "ab\nc", " x\n\n y", "a\n \nb", "  ", ""}, hd = {"", "Version 1,Dimensions 3\n", "Dimensions 7\n", "Version 1\n\n"};
		static int n = T ? 3 : 2; u64 tot = hd.size() * 2; u64 bl = org.size() * co.size() * body.size(); for(int k = 0; k < n; ++k) tot *= k == 2 ? 12 : bl;
		out.push_back(fam("beq-blocks", "every file of bounded length of blocks: origins, coordinates and texts that are apart, adjacent or overlap", tot, [](u64 i, Ctx& x){ Mixed m(i); bool nl = m.take(2); std::string t = pick(m, hd); for(int k = 0; k < n; ++k){ std::string o, c, b; if(k == 2){ int v = m.take(12); o = org[v % 3]; c = co[v % 4]; b = body[v / 4]; } else { o = pick(m, org); c = pick(m, co); b = pick(m, body); } int lines = 1; for(char ch : b) if(ch == '\n') ++lines; t += "Lines " + std::to_string(lines) + ",Origin " + o + c + "\n" + b + "\n"; } if(!nl) t.pop_back(); run(load(BEQ, t), x); }));
	}
	{
		static std::vector<std::string> val; if(val.empty()) for(const char* v : {"", "x", "-", "-1", "99999999999999999999", "-99999999999999999999", "9223372036854775807", "1x", "1:", ":", "::", ":1", "1:x", "x:1", "0x10", "1e3", "1 2", " 1", "\r", "1\r", "\xff", "+1", "1.5", ":::::::::", "1:1:1:1:1:1:1:1:1:1"}) val.push_back(v);
		static const std::vector<std::string> key = {"Version", "Dimensions", "Lines", "Origin", "Coord", "", "lines", "Line"};
		static const std::vector<std::string> sep = {" ", "", "  ", "\t"}, post = {"", "\n1@\n 2\n", ",Lines 2\n1@\n 2\n", ",Lines 1,Origin 0:0\n1@"};
		out.push_back(fam("beq-malformed", "every malformed, missing, extreme or strange value of every directive, alone and among others: the file loads and the program runs on", key.size() * val.size() * sep.size() * post.size() * 2 * 2, [](u64 i, Ctx& x){ Mixed m(i); std::string k = pick(m, key), v = pick(m, val), s = pick(m, sep), p = pick(m, post); bool pre = m.take(2); int d = m.take(2) * 2; if(k == "Dimensions" && v == "9223372036854775807") return; std::string t = (pre ? "Version 1,Dimensions 3\nLines 1,Origin 0:0\n#v@\n" : "") + k + s + v + p; Case c = load(BEQ, t, d); c.freeTicks = 3; run(c, x); }));
		static int n = T ? 6 : 5; static const std::string al = "L1 ,:\nO-";
		static const std::vector<std::string> tk = {"Lines ", "Origin ", "Coord ", "Dimensions ", "1", "-", ":", ",", "\n", " ", "2", "a"}; u64 tot = n + 1; for(int k = 0; k < n; ++k) tot *= tk.size();
		out.push_back(fam("beq-grammar", "every file of bounded length over the tokens of the grammar loads", tot, [](u64 i, Ctx& x){ Mixed m(i); int len = m.take(n + 1); std::string t; for(int k = 0; k < n; ++k){ int q = m.take(tk.size()); if(k < len) t += tk[q]; else if(q) return; } Case c = load(BEQ, t, 3); c.freeTicks = 1; run(c, x); }, 20000));
	}
	{
		static const std::vector<std::string> line = {"=A", "=B", "=Z", "=a", "=AB", " =A", "=", "1@", "  x", "", "=\x80", "a=B", "=C "}; static int n = T ? 5 : 4; u64 tot = (n + 1) * 3; for(int k = 0; k < n; ++k) tot *= line.size();
		out.push_back(fam("fl-pages", "every funge-lib file of bounded length over section headers, near-headers and text", tot, [](u64 i, Ctx& x){ Mixed m(i); int d = m.take(3), len = m.take(n + 1); bool nl = d == 2; std::string t; for(int k = 0; k < n; ++k){ int q = m.take(line.size()); if(k < len) t += line[q] + (k + 1 < len || nl ? "\n" : ""); else if(q) return; } run(load(FL, t, d == 1 ? 3 : 0), x); }, 5000));
		static const std::vector<std::string> pg = {"=A\n12v\n  >3h", "=B\n     4l", "=C\n  .@", "=A\n1h", "=B\n 2>h", "=Z\n7.@", "=D\nab"}; static int n2 = T ? 4 : 3; u64 tot2 = 1; for(int k = 0; k < n2; ++k) tot2 *= pg.size();
		out.push_back(fam("fl-run", "every file of several pages runs as a three-dimensional program", tot2, [](u64 i, Ctx& x){ Mixed m(i); std::string t; for(int k = 0; k < n2; ++k) t += pick(m, pg) + "\n"; Case c = load(FL, t, 3); c.maxTicks = 40; c.finalField = true; run(c, x); }));
	}
	// ---- moving in 2 to 7 dimensions
	static std::vector<std::string> ops;
	if(ops.empty()){ for(const char* o : {"A", "V", "H", "L", "C", "D", "I", "M", "R"}) ops.push_back(o); for(int n = 0; n < 8; ++n) for(const char* o : {"Y", "Z", "X"}) ops.push_back(std::to_string(n) + o); }
	{
		// a cross around the origin: on every axis the cells at some distances continue, others hold another instruction
		static const std::vector<std::string> cont = {"z", "r", "@", "1", "#", ";", "x"}; static const std::vector<std::pair<int, int>> ext = {{-1, 1}, {0, 2}, {-2, 0}, {0, 0}, {-3, 4}};
		static const std::vector<std::vector<i64>> st = {{}, {1}, {0}, {-1, 3}};
		out.push_back(fam("axes", "every movement instruction in 2 to 7 dimensions from a crossing of all axes, with every extent and continuation, both orientations", ops.size() * 6 * cont.size() * ext.size() * ext.size() * st.size() * 2, [](u64 i, Ctx& x){
			Mixed m(i); std::string o = pick(m, ops); int d = 2 + m.take(6); char k = pick(m, cont)[0]; auto e1 = pick(m, ext), e2 = pick(m, ext); Case c = nfun(d); c.stack = pick(m, st); c.cfg.inverthl = m.take(2); c.maxTicks = 14; c.finalField = false; int base = 7;
			c.text = "z"; std::string s = o; Pos p; for(size_t q = 0; q < s.size(); ++q){ Pos w; w[0] = base + q; c.cells.push_back({w, s[q]}); } c.pos[0] = base; c.delta = Pos{1}; c.text = ""; base += s.size() - 1;
			for(int a = 0; a < 8; ++a){ auto e = a % 2 ? e1 : e2; for(int v = e.first; v <= e.second; ++v) if(v){ Pos w; w[0] = base; w[a] += v; if(a == 0 && w[0] <= base && w[0] >= 7) continue; c.cells.push_back({w, v == e.first ? k : v == 1 ? 'z' : k}); } }
			run(c, x); }));
	}
	{
		// programs laid along one axis of an n-dimensional space
		static int n = T ? 4 : 3; static const std::vector<std::string> tk = {"A", "V", "H", "L", "C", "D", "0I", "1M", "R", "3Z", "6Y", "15X", "r", "#", "z", "k"}; u64 tot = 6; for(int k = 0; k < n; ++k) tot *= tk.size();
		out.push_back(fam("turns", "every sequence of bounded length of movement instructions, with a crossing at every turn, in 2 to 7 dimensions", tot, [](u64 i, Ctx& x){
			Mixed m(i); int d = 2 + m.take(6); Case c = nfun(d); c.maxTicks = 40; c.finalField = false; static const std::vector<std::string> seqs; std::string s; for(int k = 0; k < n; ++k) s += pick(m, tk); c.text = s + "@";
			// the same instructions continue along every other axis
			for(int a = 1; a < 7; ++a) for(int v = -2; v <= 2; ++v) if(v) for(int q = 0; q < (int)s.size(); ++q){ Pos w; w[0] = q; w[a] = v; c.cells.push_back({w, s[(q + v * v + a) % s.size()]}); }
			run(c, x); }));
	}
	{
		// flying: wrapping at every edge and corner of n-dimensional space
		static const std::vector<std::pair<int, int>> ext = {{0, 0}, {0, 1}, {-1, 2}}; static int n = T ? 5 : 4; u64 pts = 1; for(int k = 0; k < n; ++k) pts *= 3; u64 e = 1; for(int k = 0; k < n; ++k) e *= ext.size();
		out.push_back(fam("wrapping", "wrapping for every small delta from every cell, for every bounding box of small extents in four or five dimensions", e * pts * pts, [](u64 i, Ctx& x){
			Mixed m(i); Case c = nfun(n); c.maxTicks = 5; c.finalField = false; Pos lo, hi; for(int a = 0; a < n; ++a){ auto q = pick(m, ext); lo[a] = q.first; hi[a] = q.second; } for(int a = 0; a < n; ++a){ int v = m.take(3); c.pos[a] = v == 0 ? lo[a] : v == 1 ? hi[a] : (lo[a] + hi[a]) / 2; } for(int a = 0; a < n; ++a) c.delta[a] = (i64)m.take(3) - 1;
			bool z = true; for(int a = 0; a < n; ++a) if(c.delta[a]) z = false; if(z) return; c.text = ""; c.cells = {{lo, 'z'}, {hi, 'z'}, {c.pos, 'z'}}; run(c, x); }, 8000));
	}
	// ---- everything else takes vectors of that many dimensions
	{
		static int n = T ? 3 : 2; static const std::vector<std::string> tk = {"g", "p", "0{", "2{", "0}", "u", "s", "'x", "x", "t", "k1", "7y", "y", "3j", "A", "5Z", "0V", "?", "w", "[", "h", "l", "m", "i", "o"}; u64 tot = 6 * 4; for(int k = 0; k < n; ++k) tot *= tk.size();
		static const std::vector<std::vector<i64>> st = {{}, {1, 2, 3, 0, 1, 0, 0, 0, 0, 0, 1}, {65, 0, 1, 0, 0, 0, 0, 0, 1, 0}, {3, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 102}};
		out.push_back(fam("vectors", "every sequence of bounded length of instructions that take positions, in 2 to 7 dimensions", tot, [](u64 i, Ctx& x){ Mixed m(i); Case c = nfun(2 + m.take(6)); c.stack = pick(m, st); std::string s; for(int k = 0; k < n; ++k) s += pick(m, tk); c.text = "#@z" + s + "0g.1@"; c.maxTicks = 40; c.useFiles = s.find('i') != std::string::npos || s.find('o') != std::string::npos; c.files["f"] = "xy\nz"; run(c, x); }));
	}
	// ---- the program itself
	{
		static const std::vector<std::string> opt = {"", "-std=be98", "-std=tre98", "-finvert-hl", "-lBOOL", "-fno-concurrent", "-std=be93"};
		static std::vector<std::string> prog; if(prog.empty()) for(auto& o : ops) for(int d = 0; d < 3; ++d){ std::string t = "Version 1"; if(d) t += ",Dimensions " + std::to_string(d == 1 ? 3 : 8); t += "\n"; static const int ax[] = {2, 3, 4, 5, 6}; t += "Lines 1,Origin 0:0\n#@7y." + o + "1.@\n"; int col = 4 + o.size(); for(int a : ax) for(int v = -1; v <= 1; v += 2){ t += "Lines 1,Origin " + std::to_string(col) + ":0,Coord "; for(int q = 2; q < a; ++q) t += "0:"; t += std::to_string(v) + ":\n" + ">" + num(2 + a) + (v < 0 ? "n" : "") + ".@\n"; } prog.push_back(t); }
		out.push_back(fam("cli-beq", "every movement instruction in a BeQunge file given to the program, with every option", opt.size() * prog.size(), [](u64 i, Ctx& x){
			Mixed m(i); std::string o = pick(m, opt), t = pick(m, prog); cli::Run r; if(!o.empty()) r.args.push_back(o); r.args.push_back("p.beq"); r.files["p.beq"] = t; r.env = {"TZ=UTC"};
			Case c; c.fmt = BEQ; c.cfg = cfg98(o == "-std=tre98" ? 3 : o.empty() || o[1] != 's' ? 0 : 2); if(o == "-std=be93"){ c.cfg.std = ref::S93; c.cfg.topo = ref::TORUS; c.cfg.strs = ref::MULTI; c.cfg.charCells = true; } if(o == "-lBOOL") c.cfg.fingerprints.push_back(ref::fpid("BOOL")); c.cfg.fingerprints.push_back(ref::fpid("NFUN")); c.cfg.inverthl = o == "-finvert-hl"; c.cfg.concurrent = o != "-fno-concurrent"; c.cfg.args = {"p.beq"}; c.text = t; c.maxTicks = 200;
			auto e = cli::ref(c); if(e.unknown){ x.note("outside model: " + e.why); x.add(C_UNMOD); return; } if(!e.ended){ x.note("does not end: " + e.why); x.add(C_DIVERGE); return; }
			x.log = cli::describe(r); auto g = cli::run(r); x.add(C_TRACES); x.add(C_TRANS); u64 h = 3; for(char q : e.out) h = ref::mix(h, q); x.state(h);
			if(g.timeout || g.signal || g.status != e.status || g.out != e.out) x.fail("got " + g.str() + "; expected status " + std::to_string(e.status) + ", output \"" + quote(e.out) + "\"\n  " + cli::describe(r)); }));
	}
}
