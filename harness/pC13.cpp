// Native threads: one OS thread per IP.
#include "schedcommon.h"
using namespace eng;
namespace {
// the first IP runs a, the one it splits off runs b and, if c is given, splits off one that runs c
std::string grid(const std::string& pre, const std::string& a, const std::string& b, const std::string* c){
	auto rev = [](std::string s){ return std::string(s.rbegin(), s.rend()); };
	std::string down = "\n\n\n\n\n\n\n\n\n\nz\n";
	if(!pre.empty()){
		// pre on the first row; then the split on the second one, with the way in jumped over by the second IP
		// (an IP that reflects ends there instead of splitting again)
		std::string row = "@" + rev(b) + "@#";
		size_t w = std::max(pre.size(), row.size());
		return pre + std::string(w - pre.size(), ' ') + "v\n" + std::string(w - row.size(), ' ') + row + ">#zt#@" + a + "@" + down;
	}
	if(!c) return "t" + a + "@" + rev(b) + down;
	std::string row0 = "t" + a + "@v"; size_t w = std::max({row0.size(), b.size() + 2, c->size() + 2});
	row0 = "t" + a + "@"; row0.resize(w - 1, ' '); row0 += "v";
	auto west = [&](const std::string& s){ std::string r = "@" + rev(s) + "<"; return std::string(w - r.size(), ' ') + r; };
	std::string col(w - 1, ' ');
	return row0 + "\n" + col + "#\n" + west(*c) + "\n" + col + "t\n" + west(b) + "\n\n\n\n\n\n";
}
struct Fam {
	const char* name; const char* what; std::vector<std::string> tok; int n;   // programs: every sequence of n tokens for each IP
	bool third; int dev; std::vector<std::string> opts; std::string pre, input; bool any;
};
}
void eng::families(std::vector<Family>& out){
	bool T = thorough();
	static std::vector<Fam> fams;
	// cell (7,0) and (9,0) are instructions of the program itself for short programs
	std::vector<std::string> data{"", "709p", "809p", "09g.", "09g1+09p", "84*09p", "a.", "3q"};
	fams.push_back({"pairs", "two IPs, each one action on a shared cell, output or quit", data, 1, false, T ? 4 : 2, {}, "", "", false});
	fams.push_back({"triples", "three IPs, each one action on a shared cell, output or quit", {"", "709p", "09g.", "2q"}, 1, true, T ? 2 : 1, {}, "", "", false});
	fams.push_back({"stacks", "two IPs that read and change each other's stack (IIPC)", {"", "5", "I.", "A.", "0G.", "1G.", "0L.", "1L.", "70P", "71P", "2q"}, 1, false, T ? 3 : 1, {}, "\"CPII\"4($$", "", false});
	fams.push_back({"stack-stacks", "an IP that creates and drops stacks while another uses its stack (IIPC)", {"0{0}", "2{", "u", "1G.", "0G.", "70P", "71P", "n", "0y"}, 1, false, T ? 2 : 1, {}, "\"CPII\"4($$", "", true});
	fams.push_back({"modes", "modes of the universe changed by one of two IPs (MODE)", {"", "H", "I", "Q", "S", "12.", "[", "'x,", "77w", "0{"}, 1, false, T ? 2 : 1, {}, "\"EDOM\"4($$", "", true});
	fams.push_back({"references", "references made and used by two IPs (REFC)", {"", "12R", "12RD..", "12R12R", "2q"}, 1, false, T ? 3 : 1, {}, "\"CFER\"4($$", "", true});
	fams.push_back({"shared-references", "a reference made by one IP and followed by another (REFC)", {"", "12R09p", "34R09p", "09gD..", "56RD..", "2q"}, 1, false, T ? 3 : 1, {}, "\"CFER\"4($$", "", false});
	fams.push_back({"dimensions", "dimensions added by one IP while another uses positions (NFUN)", {"A", "3Z", "", "00g.", "7y.", "1200p", "0{0}"}, 1, false, T ? 2 : 1, {}, "\"NUFN\"4($$", "", true});
	fams.push_back({"semantics", "fingerprints loaded, unloaded and used by two IPs", {"", "\"NULL\"4(", "\"PIH\"3(", "\"CPII\"4)", "I.", "A.", "3q"}, 1, false, T ? 2 : 1, {}, "\"CPII\"4($$", "", false});
	fams.push_back({"io", "two IPs that read input and write output", {"&.", "~,", "a.", "'x,", "09g,", "2q"}, 1, false, T ? 3 : 2, {}, "", "12 34\nxyz", false});
	{
		// the first IP tries an instruction again and again until it reflects, and then runs what is written downwards;
		// the other one runs b
		static const std::vector<std::string> polls{"1L$", "1G$", "71P"}, bodies{"", "5", "5.", "09p", "0{", "0{0}", "72u", "0L.", "60P", "2q", "tn"};
		static const std::vector<std::string> left{"12R09p", "709p", "34R12R$09p", "12R09p09gD..", "t709p", "\"HRTI\"4(709p", "709p2q", "09g1+09p"}, looks{"09gD..", "09g.", "09gD.", "2q"};
		auto scene = [](const std::string& pre, const std::string& poll, const std::string& b, std::string then, Ctx& ctx){
			sc::Scenario s; s.spec.native = true;
			s.lim.maxSeconds = thorough() ? 60 : 20; s.lim.deviations = thorough() ? 3 : 1;
			std::string row = "@" + std::string(b.rbegin(), b.rend()) + "@#"; size_t w = std::max(pre.size(), row.size());
			std::vector<std::string> r(10);
			r[0] = pre + std::string(w - pre.size(), ' ') + "v"; r[1] = std::string(w - row.size(), ' ') + row + ">#zt#@#v># " + poll + "v";
			size_t up = r[1].find("># " + poll);
			r[2] = std::string(up, ' ') + "^" + std::string(r[1].size() - up - 2, ' ') + "<";
			then += "@";
			for(size_t k = 0; k < then.size(); ++k){ r[2 + k].resize(std::max(r[2 + k].size(), up), ' '); r[2 + k][up - 1] = then[k]; }
			s.spec.universes.push_back({"p.b98", sc::cfg98(2), sc::rows(r) + "\nz\n"});
			sc::run(s, ctx);
		};
		out.push_back({"await-end", "an IP that waits until another one has ended (IIPC)", polls.size() * bodies.size(), [scene](u64 i, Ctx& ctx){
			scene("\"CPII\"4($$", polls[i % polls.size()], bodies[i / polls.size()], "", ctx);
		}, 1, 0});
		out.push_back({"left-behind", "what an IP leaves behind is there for one that has waited for its end (IIPC, REFC)", left.size() * looks.size(), [scene](u64 i, Ctx& ctx){
			std::string l = left[i % left.size()], look = looks[i / left.size()];
			if(l.find('R') != std::string::npos && look == "09g.") look = "09g!.";       // the value of a reference is not specified
			scene("\"CPII\"4(\"CFER\"4($$$$", "1L$", l, look, ctx);
		}, 1, 0});
	}
	for(auto& f : fams){
		u64 n = 1; for(int k = 0; k < f.n; ++k) n *= f.tok.size();
		u64 total = n * n * (f.third ? n : 1);
		out.push_back({f.name, f.what, total, [&f, n](u64 i, Ctx& ctx){
			auto seq = [&](u64 v){ std::string s; for(int k = 0; k < f.n; ++k){ s += f.tok[v % f.tok.size()]; v /= f.tok.size(); } return s; };
			std::string a = seq(i % n), b = seq(i / n % n), c; if(f.third) c = seq(i / n / n);
			// an IP that leaves along a new axis comes back to where it was until the other one quits
			if(f.name == std::string("dimensions")){ for(char m : {'A', 'Z'}) if(b.find(m) != std::string::npos) return; b += "2q"; }
			sc::Scenario s; s.spec.native = true; s.opts = f.opts; s.spec.input = f.input; s.anyOutcome = f.any;
			s.lim.maxSeconds = thorough() ? 60 : 20; s.lim.deviations = f.dev;
			ref::Config k = sc::cfg98(2);
			s.spec.universes.push_back({"p.b98", k, grid(f.pre, a, b, f.third ? &c : nullptr)});
			sc::run(s, ctx);
		}, 1, 0});
	}
}
