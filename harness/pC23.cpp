// C23: command line.
#include "cli.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <optional>
using namespace drv; using namespace eng; using ref::Pos;
static bool T;
// ---- model of the command line, written from doc/man.md
struct Cmd { ref::Config c; bool autoStd = true, native = false, debug = false; int error = 0; std::string file; std::vector<std::string> yargs; };
static Cmd parse(const std::vector<std::string>& a){
	Cmd m; m.c.dims = 0; m.c.std = ref::S98; size_t i = 0;
	auto starts = [](const std::string& s, const char* p){ return s.compare(0, strlen(p), p) == 0; };
	for(; i < a.size(); ++i){
		const std::string& s = a[i];
		if(s.empty() || s[0] != '-') break;
		size_t eq = s.find('='); std::string k = s.substr(0, eq), v = eq == std::string::npos ? "" : s.substr(eq + 1);
		bool has = eq != std::string::npos;
		if(k == "-std" && has){
			m.autoStd = false;
			if(v == "une93" || v == "be93"){ m.c.std = ref::S93; m.c.dims = v == "une93" ? 1 : 2; m.c.topo = ref::TORUS; m.c.strs = ref::MULTI; m.c.charCells = true; }
			else if(v == "une98" || v == "be98" || v == "tre98"){ m.c.std = ref::S98; m.c.dims = v == "une98" ? 1 : v == "be98" ? 2 : 3; m.c.topo = ref::LAHEY; m.c.strs = ref::SGML; m.c.charCells = false; }
			else if(v == "fish" || v == "sfish"){ m.c.std = v == "fish" ? ref::FISH : ref::STARFISH; m.c.dims = 2; m.c.topo = ref::LAHEY; m.c.strs = ref::MULTI; m.c.charCells = false; }
			else { m.error = EINVAL; return m; }
		}
		else if(s == "-fconcurrent") m.c.concurrent = true; else if(s == "-fno-concurrent") m.c.concurrent = false;
		else if(s == "-fexecute") m.c.execute = true; else if(s == "-fno-execute") m.c.execute = false;
		else if(s == "-ffilesystem") m.c.filesystem = true; else if(s == "-fno-filesystem") m.c.filesystem = false;
		else if(s == "-finvert-hl") m.c.inverthl = true;
		else if(s == "-ftopo=torus") m.c.topo = ref::TORUS; else if(s == "-ftopo=lahey") m.c.topo = ref::LAHEY;
		else if(s == "-fstrings=multispace") m.c.strs = ref::MULTI; else if(s == "-fstrings=sgml") m.c.strs = ref::SGML; else if(s == "-fstrings=c") m.c.strs = ref::CSTR;
		else if(s == "-fcells=char") m.c.charCells = true; else if(s == "-fcells=int") m.c.charCells = false;
		else if(s == "-fthreads=native") m.native = true; else if(s == "-fthreads=funge") m.native = false;
		else if(starts(s, "-l")){ u64 f = 0; for(size_t k2 = 2; k2 < s.size(); ++k2) f = (f << 8) + (unsigned char)s[k2]; m.c.fingerprints.push_back(f); }
		else if(s == "-g") m.debug = true;
		else { m.error = EINVAL; return m; }
	}
	if(i >= a.size() || a[i].empty()){ m.error = EINVAL; return m; }
	m.file = a[i];
	m.yargs.assign(a.begin() + i, a.end());
	return m;
}
static std::string ext(const std::string& f){ size_t s = f.rfind('/'); std::string b = s == std::string::npos ? f : f.substr(s + 1); size_t d = b.rfind('.'); return d == std::string::npos || d == 0 ? "" : b.substr(d); }
static void detect(Cmd& m, Fmt& fmt){
	std::string e = ext(m.file); fmt = BF;
	if(e == ".beq"){ fmt = BEQ; m.c.fingerprints.push_back(ref::fpid("NFUN")); } else if(e == ".fl") fmt = FL;
	if(m.autoStd){
		if(e == ".bf") m.c.std = ref::S93;
		else if(e == ".fish" || e == ".sf"){ m.c.std = e == ".fish" ? ref::FISH : ref::STARFISH; m.c.dims = 2; m.c.strs = ref::MULTI; }
		else m.c.std = ref::S98;
	}
}
// runs a command line and compares with the model
static void check(cli::Run r, Ctx& x, int ticks = 6000){
	r.env.push_back("TZ=UTC");
	Cmd m = parse(r.args);
	if(m.debug) return;
	cli::Out o; std::string want; bool ok = true;
	x.log = cli::describe(r);
	std::string text; int status = m.error;
	if(!status){ auto f = r.files.find(m.file); if(f == r.files.end()) status = EIO; else text = f->second; }
	if(status){
		o = cli::run(r); x.add(C_TRACES); x.add(C_TRANS);
		ok = !o.timeout && !o.signal && o.status == status && o.out.empty() && o.systems.empty();
		want = "status " + std::to_string(status) + " and no output";
	}else{
		Case c; c.now = 1234567890; detect(m, c.fmt); c.cfg = m.c; c.cfg.args = m.yargs; c.cfg.env = r.env; c.cfg.env.push_back("VERIF_CLI=" + std::to_string(r.systemRet)); c.text = text; c.input = r.input; c.files = r.files; c.dirs = r.dirs; c.systemRet = r.systemRet; c.maxTicks = ticks;
		auto e = cli::ref(c);
		if(e.unknown){ x.note("outside model: " + e.why); x.add(C_UNMOD); return; }
		if(!e.ended){ x.note("does not end: " + e.why); x.add(C_DIVERGE); return; }
		o = cli::run(r, true); x.add(C_TRACES); x.add(C_TRANS);
		std::string got = o.out; if(m.native){ std::sort(got.begin(), got.end()); std::sort(e.out.begin(), e.out.end()); }       // native threads write in any order
		ok = !o.timeout && !o.signal && o.status == e.status && got == e.out && o.systems == e.systems && o.files == e.files;
		want = "status " + std::to_string(e.status) + ", output \"" + quote(e.out.substr(0, 600)) + "\""; for(auto& s : e.systems) want += ", command \"" + quote(s) + "\"";
		for(auto& f : e.files) if(!r.files.count(f.first)) want += ", file " + f.first + " \"" + quote(f.second) + "\"";
	}
	u64 h = 7; for(char ch : want) h = ref::mix(h, ch); x.state(h);
	if(!ok){ std::string fs; for(auto& f : o.files) if(!r.files.count(f.first)) fs += " " + f.first + " \"" + quote(f.second) + "\""; x.fail("got " + o.str() + (fs.empty() ? "" : ", files" + fs) + "; expected " + want + "\n  " + cli::describe(r)); }
}
static const std::vector<std::string> OPTS = {"-std=une93", "-std=une98", "-std=be93", "-std=be98", "-std=tre98", "-std=fish", "-std=sfish", "-fconcurrent", "-fno-concurrent", "-fexecute", "-fno-execute", "-ffilesystem", "-fno-filesystem", "-finvert-hl", "-ftopo=torus", "-ftopo=lahey", "-fstrings=multispace", "-fstrings=sgml", "-fstrings=c", "-fcells=char", "-fcells=int", "-fthreads=native", "-fthreads=funge", "-lBOOL", "-lTOYS"};
static std::string pad(const std::string& s, size_t n){ return s + std::string(n - s.size(), ' '); }
static const std::vector<std::string>& probes(){
	static const std::vector<std::string> p = {
		"\"a  \\nb\"......@",                                   // string style
		pad("<", 77) + "@.1@.2",                               // topology along a row
		"v\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n^\n@\n@\n1\n.\n@",        // topology along a column
		"\"~\"2*3*00p00g.@",                                   // cell size
		"a.@",                                                 // standard
		"v@.1\n2\n.\n@",                                       // dimensions
		"h@.1\f>2.@\f>3.@",                                    // third dimension and its orientation
		"1y.t1.@",                                             // concurrency
		"\"dmc\"0\\ =.1y.@",                                   // execution
		"\"f\"0\\ 0 0 9 i....@",                               // files
		"02220 0 \"g\" 0 \\ o1.@",                               // writing a file
		"35A.53D.@",                                           // fingerprints
		"12n34n;@",                                            // ><>
		"h1n;u2O3n;",                                          // *><>
		"\"a  b\\n\"oooooo;",                                    // string style of ><> and *><>
		"7y.3y.2y.@",                                          // dimensions by report
	};
	return p;
}
static void add(std::vector<Family>& out, const char* n, const char* w, u64 total, std::function<void(u64, Ctx&)> f){ Family q; q.name = n; q.what = w; q.total = total; q.run = f; q.recycle = 5000; out.push_back(q); }
void eng::families(std::vector<Family>& out){
	T = thorough();
	auto optSeq = [&](const char* n, const char* w, int len, const std::vector<std::string>& opts, bool one){
		u64 tot = one ? 1 : probes().size(); for(int k = 0; k < len; ++k) tot *= opts.size();
		add(out, n, w, tot, [=](u64 i, Ctx& x){ Mixed m(i); cli::Run r; std::string p = probes()[one ? 7 : m.take(probes().size())]; for(int k = 0; k < len; ++k) r.args.push_back(pick(m, opts)); r.args.push_back("prog"); r.files["prog"] = p; r.files["f"] = "xy\nz"; check(r, x); });
	};
	optSeq("options-0", "every probe program without options", 0, OPTS, false);
	optSeq("options-1", "every option with every probe program", 1, OPTS, false);
	optSeq("options-2", "every ordered pair of options with every probe program: later options override earlier ones", 2, OPTS, false);
	if(T) optSeq("options-3", "every ordered triple of options with every probe program", 3, OPTS, false);
	{
		static const std::vector<std::string> o = {"-std=be93", "-std=be98", "-std=tre98", "-std=fish", "-ftopo=torus", "-ftopo=lahey", "-fstrings=c", "-fcells=char", "-fno-concurrent", "-fconcurrent"};
		if(!T) optSeq("options-3", "every ordered triple of interacting options", 3, o, true);
	}
	{
		static const std::vector<std::string> e = {"p.bf", "p.b98", "p.fish", "p.sf", "p.fl", "p", "p.txt", "p.BF", ".bf", "p.bf.b98", "d/p.fish", "d.sf/p", "./p.b98"}; static const std::vector<std::string> o = {"", "-std=be98", "-std=be93", "-std=sfish", "-fstrings=c", "-fstrings=sgml", "-ftopo=torus", "-fcells=char", "-lTOYS"};
		add(out, "extensions", "every file extension with every probe program and overriding options", e.size() * o.size() * probes().size(), [](u64 i, Ctx& x){ Mixed m(i); cli::Run r; std::string f = pick(m, e), op = pick(m, o), p = pick(m, probes()); if(ext(f) == ".fl") p = "=A\n" + p + "\n=B\n1.@\n"; if(!op.empty()) r.args.push_back(op); r.args.push_back(f); if(f == "./p.b98"){ r.files["p.b98"] = p; std::string g = f; (void)g; r.args.back() = "p.b98"; } else r.files[f] = p; if(f.find("d/") == 0) r.dirs.insert("d"); if(f.find("d.sf/") == 0) r.dirs.insert("d.sf"); r.files["f"] = "xy\nz"; check(r, x); });
	}
	{
		static std::vector<std::string> bad; 
		for(const char* p : {"-std=", "-ftopo=", "-fstrings=", "-fcells=", "-fthreads="}) for(const char* v : {"", "x", "=", "be98=", "BE98", " be98", "torus ", "lahey=1", "sgm", "sgmls", "in", "integer", "nativ", "-"}) bad.push_back(std::string(p) + v);
		for(const char* p : {"-", "--", "-s", "-std", "-stdbe98", "-f", "-fno", "-fno-", "-ftopo", "-ftopotorus", "-fstring=c", "-fcells", "-fthreads", "-fno-concurrent=1", "-fconcurrent ", "-finvert-h", "-finvert-hl=", "-fexecut", "-fno-executes", "-G", "-gg", "-h", "--help", "-v", "-\xff", "-x=y", "=", "-=", "-Std=be98", "-fthreads=\nfunge"}) bad.push_back(p);
		add(out, "invalid", "every misspelled, truncated, extended or empty option before, after and between valid ones", bad.size() * 4 * 3, [](u64 i, Ctx& x){ Mixed m(i); cli::Run r; std::string b = pick(m, bad); int k = m.take(4), v = m.take(3); std::string good = v == 0 ? "-std=be98" : v == 1 ? "-fstrings=c" : "-lBOOL"; if(k == 1 || k == 3) r.args.push_back(good); r.args.push_back(b); if(k >= 2) r.args.push_back(good); r.args.push_back("prog"); r.files["prog"] = "1.@"; check(r, x); });
	}
	{
		static const std::vector<std::string> a = {"", "-", "prog", "none", "dir", "-std=be98", "-std=", "-lX", "-l", "a b", "-fno-execute", "dir/prog", "none/prog", "\x80\xff", "prog/x"}; static int n = T ? 4 : 3;
		u64 tot = n + 1; for(int k = 0; k < n; ++k) tot *= a.size();
		add(out, "vectors", "every argument vector of bounded length over options, files that exist, do not exist or are directories, and odd strings", tot, [](u64 i, Ctx& x){ Mixed m(i); cli::Run r; int len = m.take(n + 1); for(int k = 0; k < n; ++k){ auto s = pick(m, a); if(k < len) r.args.push_back(s); else if(s != a[0]) return; } r.files["prog"] = "1.@"; r.files["dir/prog"] = "2.@"; r.dirs = {"dir"}; check(r, x); });
	}
	{
		static const std::vector<std::string> a = {"", "a", "-std=une93", "a b", "x\ny", "\x80\xff\x01", std::string(60, 'q'), "prog", "-"}; static int n = T ? 4 : 3;
		u64 tot = (n + 1) * 2; for(int k = 0; k < n; ++k) tot *= a.size();
		add(out, "arguments", "every list of program arguments of bounded length, as the program sees it", tot, [](u64 i, Ctx& x){ Mixed m(i); cli::Run r; bool e = m.take(2); int len = m.take(n + 1); r.args = {"prog"}; for(int k = 0; k < n; ++k){ auto s = pick(m, a); if(k < len){ if(e) r.env.push_back("E" + std::to_string(k) + "=" + s); else r.args.push_back(s); } else if(s != a[0]) return; } r.files["prog"] = "0y" + std::string(330, '.') + "@"; check(r, x); });
	}
	add(out, "status", "the exit status for every quit value in a range, interesting values, and programs that do not quit", (601 + EDGE.size()) * 3 + 6, [](u64 i, Ctx& x){
		cli::Run r; r.args = {"prog"};
		if(i < 6){ static const char* p[] = {"@", "1.@", "t@", "#@tz@", "q", "5tq@"}; r.files["prog"] = p[i]; check(r, x); return; }
		Mixed m(i - 6); int how = m.take(3); i64 v = m.v < 601 ? (i64)m.v - 300 : EDGE[m.v - 601]; std::string n; u64 z = v < 0 ? 0 - (u64)v : (u64)v; std::string t = "0"; for(int k = 60; k >= 0; k -= 4){ int d = (z >> k) & 15; t += "f1+*"; t += d < 10 ? '0' + d : 'a' + d - 10; t += '+'; } if(v < 0) t = "0" + t + "-"; r.files["prog"] = t + (how == 0 ? "q" : how == 1 ? "tq" : "#vtzzq\n  >1.q"); check(r, x); });
	{   // multiverse files
		static const std::vector<std::string> line = {"a.b98", "b.b98 x yy", "", "  ", "sub/c.b98", "a.b98  ", "\ta.b98\tz", "a.b98\r", "missing.b98", "n.fmv", "sub/m.fmv", "sub"}; static int n = T ? 4 : 3;
		u64 tot = (n + 1) * 2; for(int k = 0; k < n; ++k) tot *= line.size();
		add(out, "multiverse", "every multiverse file of bounded length over lines that name files, have arguments, are blank, are nested or fail", tot, [](u64 i, Ctx& x){
			Mixed m(i); bool nl = m.take(2); int len = m.take(n + 1); std::string t; std::vector<std::string> ls; for(int k = 0; k < n; ++k){ auto s = pick(m, line); if(k < len) ls.push_back(s); else if(s != line[0]) return; }
			for(size_t k = 0; k < ls.size(); ++k) t += ls[k] + (k + 1 < ls.size() || nl ? "\n" : "");
			// each universe prints its argument count and the length of the last argument, in one write each
			cli::Run r; r.args = {"m.fmv", "arg"}; r.files["m.fmv"] = t; r.files["a.b98"] = "1,@"; r.files["b.b98"] = "2,3q"; r.files["sub/c.b98"] = "3,@"; r.dirs = {"sub"}; r.files["n.fmv"] = "b.b98\n\n"; r.files["sub/m.fmv"] = "c.b98\n../a.b98";
			std::string want; int status = -1; bool fail = false;
			for(auto& s : ls){ std::string f = s; f.erase(0, f.find_first_not_of(" \t\r") == std::string::npos ? f.size() : f.find_first_not_of(" \t\r")); f = f.substr(0, f.find_first_of(" \t\r")); if(f.empty()) continue; if(f == "missing.b98" || f == "sub"){ fail = true; break; } int st = 0; if(f == "a.b98") want += '\1'; else if(f == "b.b98" || f == "n.fmv"){ want += '\2'; st = 3; } else if(f == "sub/c.b98") want += '\3'; else if(f == "sub/m.fmv") want += "\3\1"; if(status < 0) status = st; }
			if(!fail && status < 0) return;         // no universe at all
			x.log = cli::describe(r); auto o = cli::run(r); x.add(C_TRACES); x.add(C_TRANS);
			std::string got = o.out; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
			bool ok = fail ? !o.timeout && !o.signal && o.status == EIO : !o.timeout && !o.signal && o.status == status && got == want;
			if(!ok) x.fail("got " + o.str() + "; expected " + (fail ? "EIO" : "status " + std::to_string(status) + " and output bytes " + quote(want)) + "\n  " + cli::describe(r)); });
		add(out, "multiverse-arguments", "arguments given on the command line and in the multiverse file reach the program in order", 7 * 7 * 3, [](u64 i, Ctx& x){
			static const std::vector<std::string> a = {"", " p", " p q", "  p   q  ", " -l", "\tp", " p\tq r"}; Mixed m(i); std::string l = pick(m, a), c0 = pick(m, a); int where = m.take(3);
			auto words = [](const std::string& s){ std::vector<std::string> w; size_t k = 0; while((k = s.find_first_not_of(" \t", k)) != std::string::npos){ size_t e = s.find_first_of(" \t", k); if(e == std::string::npos) e = s.size(); w.push_back(s.substr(k, e - k)); k = e; } return w; };
			cli::Run r; r.env = {"TZ=UTC"}; std::string dir = where == 1 ? "sub/" : ""; r.args = {dir + "m.fmv"}; for(auto& w : words(c0)) r.args.push_back(w); if(where == 1) r.dirs = {"sub"}; r.files[dir + "m.fmv"] = "a.b98" + l + (where == 2 ? "\n" : ""); std::string prog = "0y" + std::string(200, '.') + "@"; r.files[dir + "a.b98"] = prog;
			Case c; c.now = 1234567890; c.cfg = cfg98(0); c.cfg.args = r.args; for(auto& w : words(l)) c.cfg.args.push_back(w); c.cfg.env = r.env; c.cfg.env.push_back("VERIF_CLI=0"); c.text = prog; c.maxTicks = 1000; auto e = cli::ref(c);
			x.log = cli::describe(r); auto o = cli::run(r); x.add(C_TRACES); x.add(C_TRANS); if(o.timeout || o.signal || o.status != 0 || o.out != e.out) x.fail("got " + o.str() + "; expected \"" + quote(e.out) + "\"\n  " + cli::describe(r)); });
	}
	{
		static const std::vector<std::string> f = {"-lBOOL", "-lORTH", "-lROMA", "-lMODU", "-lNONE", "-l", "-lBO", "-lABCDEFGHIJ", "-l\x80\x81", "-lFPDP"}; static int n = T ? 3 : 2; u64 tot = 4; for(int k = 0; k < n; ++k) tot *= f.size();
		add(out, "fingerprints", "every list of fingerprints of bounded length: known, unknown, funge-libs, short and long ids", tot, [](u64 i, Ctx& x){ Mixed m(i); cli::Run r; static const char* p[] = {"35A.I.@", "35O.@", "73M.@", "z1.@"}; r.files["prog"] = p[m.take(4)]; for(int k = 0; k < n; ++k) r.args.push_back(pick(m, f)); r.args.push_back("prog"); check(r, x); });
	}
	{
		static const std::vector<std::string> in = {"", "5", "a\n", "12 34\n", "\n\n", "\xff"}; static const std::vector<std::string> p = {"&.&.@", "~.~.~.@", "&.~.@", "~,~,@", "&&&...@"};
		add(out, "input", "console input reaches the program unchanged, also at its end", in.size() * p.size() * 2, [](u64 i, Ctx& x){ Mixed m(i); cli::Run r; r.input = pick(m, in); r.files["prog"] = "#@" + pick(m, p); r.args = {"prog"}; if(m.take(2)) r.args.insert(r.args.begin(), "-std=be93"); check(r, x); });
	}
	{
		static const std::vector<std::string> o = {"", "-fno-execute", "-fno-filesystem", "-fno-concurrent"};
		add(out, "execute", "commands, their exit status and disabled capabilities", 4 * 4 * 260, [](u64 i, Ctx& x){ Mixed m(i); cli::Run r; std::string op = pick(m, o); static const char* p[] = {"0\"ma\"=.@", "0=.@", "\"LREP\"4($$0\"1\"I.@", "0\"b\"= q"}; std::string t = p[m.take(4)]; int st = m.take(260); if(st > 8 && st % 16 && !T) return; r.systemRet = st * 256; if(st > 255) r.systemRet = (st - 255) * 7; if(!op.empty()) r.args.push_back(op); r.args.push_back("prog"); r.files["prog"] = "#@" + t; check(r, x); });
	}
}
