// C17: disabled capabilities.
#include "cli.h"
using namespace drv; using namespace eng; using ref::Pos;
static std::string id(const std::string& n){ return "\"" + std::string(n.rbegin(), n.rend()) + "\"" + std::to_string(n.size()); }
static bool T;
static Case caps(unsigned k, int dims = 2){ Case c; c.cfg = cfg98(dims); c.cfg.concurrent = k & 1; c.cfg.execute = k & 2; c.cfg.filesystem = k & 4; c.useFiles = true; c.files["f"] = "xy\nz"; c.files["d/g"] = "1"; c.dirs = {"d", "e"}; c.systemRet = 7 * 256; c.maxTicks = 120; return c; }
// texts that each use one capability
static std::vector<std::string> uses(int dims){
	std::string z(dims, '0'), nine = "9" + std::string(dims - 1, '0'), size = "2" + std::string(dims - 1, '1');
	return {
		"0\"ma\"=.",                                   // run a command
		nine + "00\"f\"i" + std::string(2 * dims, '.'),   // read a file
		size + z + "00\"g\"o",                          // write a file
		size + z + "00\"f\"o",                          // overwrite a file
		"t",
		"1y.", "5y.",
		id("PERL") + "($$0\"1\"I.", id("PERL") + "($$0\"1\"E.", id("PERL") + "($$S.",
		id("DIRF") + "($$0\"n\"M", id("DIRF") + "($$0\"e\"R", id("DIRF") + "($$0\"d\"C",
		"0\"b\"2k=", nine + "00\"f\"1ki", size + z + "00\"h\"1ko", "2kt",
	};
}
static const std::vector<std::string> LIB = {"A", "B", "C", "D", "E", "F", "G", "H", "I"};
static Family fam(const char* n, const char* w, u64 total, std::function<void(u64, Ctx&)> f, unsigned recycle = 2000){ Family q; q.name = n; q.what = w; q.total = total; q.run = f; q.recycle = recycle; return q; }
void eng::families(std::vector<Family>& out){
	T = thorough();
	{
		static std::vector<std::string> u[4]; for(int d = 1; d <= 3; ++d) u[d] = uses(d);
		out.push_back(fam("single", "every use of a capability, under all 8 combinations, in 1, 2 and 3 dimensions: plain, in a nested block, in a child, after another use, with a reflected continuation", 8 * 3 * u[2].size() * 6, [](u64 i, Ctx& x){ Mixed m(i); unsigned k = m.take(8); int d = 1 + m.take(3); auto t = pick(m, u[d]); int how = m.take(6); Case c = caps(k, d); c.text = "#@" + std::string(how == 1 ? "0{" : how == 2 ? "t" : how == 3 ? "0\"q\"=$" : how == 4 ? "1y$" : how == 5 ? "11x" : "") + t + "1y.@"; if(how == 5){ if(d != 2) return; c.text = "#@z" + t + "1y.@"; c.stack = {1, 2, 3}; } run(c, x); }));
		static int n = T ? 3 : 2; u64 tot = 8; for(int k = 0; k < n; ++k) tot *= u[2].size();
		out.push_back(fam("sequences", "every sequence of bounded length of uses of capabilities, under all 8 combinations", tot, [](u64 i, Ctx& x){ Mixed m(i); Case c = caps(m.take(8)); for(int k = 0; k < n; ++k) c.text += pick(m, u[2]); c.text += "1y.@"; run(c, x); }, 1000));
	}
	{
		static const std::vector<std::vector<i64>> st = {{0, 'b', 'a'}, {0, 9, 0, 0, 0, 'f'}, {2, 1, 1, 0, 0, 0, 0, 0, 'g'}, {}, {0, 'n'}}; static int n = T ? 3 : 2; u64 tot = 8 * st.size() * 2; for(int k = 0; k < n; ++k) tot *= LIB.size();
		out.push_back(fam("libraries", "every sequence of bounded length of funge-lib instructions that use a capability, under all 8 combinations; also a library loaded by a library", tot, [](u64 i, Ctx& x){ Mixed m(i); Case c = caps(m.take(8)); c.useFing = true; c.stack = pick(m, st); bool load = m.take(2); if(load) c.text = id("CAPS") + "($$"; else c.cfg.fingerprints = {ref::fpid("CAPS")}; for(int k = 0; k < n; ++k) c.text += pick(m, LIB); c.text += "..1y.@"; run(c, x); }, 100));
	}
	{
		out.push_back(fam("standards", "the capability instructions do not exist in the 93 standards, fish and starfish, except file input and output of starfish", 8 * 6 * 6, [](u64 i, Ctx& x){ Mixed m(i); unsigned k = m.take(8); int s = m.take(6); static const char* t[] = {"0\"ma\"=.1.@", "t1.@", "0900\"f\"i1.@", "\"f\"1F11F;", "\"h\"1Fi;", "1\"h\"1F2F;"}; Case c = caps(k); c.text = t[m.take(6)]; bool e = c.cfg.execute, f = c.cfg.filesystem, n = c.cfg.concurrent; c.cfg = s == 0 ? cfg93(1) : s == 1 ? cfg93() : s == 2 ? cfgFish() : s == 3 ? cfgFish(true) : s == 4 ? cfg98() : cfg98(1); c.cfg.execute = e; c.cfg.filesystem = f; c.cfg.concurrent = n; run(c, x); }));
	}
	{   // a universe made by MVRS, entered by an IP that then uses a capability there: it must behave as in the first universe
		static const std::vector<std::string> u = {"0\"ma\"=.", "900\"f\"i....", "2000\"g\"o", "t", "1y.", "5y.", "\"LREP\"4($$0\"1\"I.", "\"FRID\"4($$0\"n\"M", "\"SRVM\"4($$0\"v\"000B", "2000\"f\"o"};
		static const std::vector<std::string> flag = {"-fno-concurrent", "-fno-execute", "-fno-filesystem"};
		static int n = T ? 2 : 1; u64 tot = 8 * 3; for(int k = 0; k < n; ++k) tot *= u.size();
		out.push_back(fam("created-universes", "uses of capabilities by an IP that has moved into a universe it created, into one created by that one, and into one started by a multiverse file, under all 8 combinations", tot, [](u64 i, Ctx& x){ Mixed m(i); unsigned k = m.take(8); int how = m.take(3); std::string use; for(int q = 0; q < n; ++q) use += pick(m, u); 
			std::string row = "#@" + use + "1y.5y.@"; cli::Run r; for(int q = 0; q < 3; ++q) if(!(k >> q & 1)) r.args.push_back(flag[q]); r.files["f"] = "xy\nz"; r.systemRet = 3 * 256; r.env = {"TZ=UTC"};
			// the program copies itself into the new universe and jumps there; the row is reached only there
			std::string make = how == 2 ? "" : "0\"u\"000B", name = "0\"u\"";
			std::string head = "\"SRVM\"4($$" + make; std::string copy = name + "000" "0" "ff*2*" "P", jump = name + "J"; int hops = how == 1 ? 2 : 1; std::string t = head + copy + jump; if(hops == 2) t += "0\"w\"000B0\"w\"0000ff*2*P0\"w\"J"; t += row; r.files["p.b98"] = t; r.args.push_back("p.b98");
			if(how == 2){ r.files["m.fmv"] = "p.b98\n"; r.args.back() = "m.fmv"; r.files["p.b98"] = row; }
			Case c; c.cfg = cfg98(1); c.cfg.dims = 0; c.cfg.concurrent = k & 1; c.cfg.execute = k & 2; c.cfg.filesystem = k & 4; c.text = row; c.systemRet = r.systemRet; c.files["f"] = r.files["f"]; c.maxTicks = 2000; c.now = 1234567890; c.useFiles = true;
			if(how != 2 || true){ std::string head2 = t.substr(0, t.size() - row.size()); if(how != 2) c.text = std::string(head2.size(), 'z') + row; }
			(void)0; auto e = cli::ref(c); if(e.unknown || !e.ended){ x.note("outside model: " + e.why); x.add(C_UNMOD); return; }
			x.log = cli::describe(r); auto o = cli::run(r, true); x.add(C_TRACES); x.add(C_TRANS); auto files = o.files; for(auto& q : r.files) if(q.first != "f") files.erase(q.first);
			// what is written depends on the program's own text, which differs between the two
			for(auto* w : {&files, &e.files}) for(auto& q : *w) if(q.first != "f" || q.second[0] != 'x') q.second = "written";
			x.state(ref::mix(ref::mix(k, how), std::hash<std::string>()(e.out)));
			if(o.timeout || o.signal || o.status != e.status || o.out != e.out || o.systems != e.systems || files != e.files){ std::string fs; for(auto& q : files) fs += " " + q.first + "=\"" + quote(q.second) + "\""; std::string fe; for(auto& q : e.files) fe += " " + q.first + "=\"" + quote(q.second) + "\""; x.fail("got " + o.str() + " files" + fs + "; expected status " + std::to_string(e.status) + " output \"" + quote(e.out) + "\" and " + std::to_string(e.systems.size()) + " commands, files" + fe + "\n  " + cli::describe(r)); } }, 400));
	}
}
