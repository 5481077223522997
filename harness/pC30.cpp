// C30: the multiverse instructions, one IP at a time: every operand, observed through the program's own output.
#include "schedcommon.h"
using namespace eng; using ref::i64;
namespace {
struct Mix { u64 v; explicit Mix(u64 i) : v(i) {} u64 take(u64 n){ u64 r = v % n; v /= n; return r; } };
template<class T> const T& pick(Mix& m, const std::vector<T>& l){ return l[m.take(l.size())]; }
std::string num(i64 n){
	if(n < 0) return "0" + num(-n) + "-";
	if(n < 16) return std::string(1, "0123456789abcdef"[n]);
	return num(n / 15) + "f*" + num(n % 15) + "+";
}
typedef std::vector<i64> V;
std::string vec(const V& v){ std::string s; for(i64 n : v) s += num(n); return s; }
std::string str(const std::string& n){ std::string r = "0"; if(!n.empty()) r += "\"" + std::string(n.rbegin(), n.rend()) + "\""; return r; }
std::string make(const std::string& n, const std::string& flags = "0", int lng = 0, int dim = 0){ return str(n) + flags + num(lng) + num(dim) + "B"; }
const char* const M = "\"SRVM\"4($$";
void go(const std::string& row, const std::vector<std::string>& below, Ctx& x, bool any = false, int dims = 2){
	sc::Scenario s; s.fmv = true; ref::Config k = sc::cfg98(dims); std::string t = row + "\n"; for(auto& b : below) t += b + "\n"; if(below.empty()) t += "@\n";
	s.spec.universes.push_back({"a", k, t}); s.spec.maxTicks = 1500; s.lim.deviations = thorough() ? 2 : 0; s.lim.spurious = 0; s.lim.maxSeconds = 20; s.anyOutcome = any; sc::run(s, x);
}
std::string show(i64 px, i64 py, int w, int h){ std::string s; for(int j = 0; j < h; ++j) for(int i = 0; i < w; ++i) s += num(px + i) + num(py + j) + "g."; return s; }
// copies the first row of this universe to another
std::string whole(const std::string& u){ return str(u) + "000" "00" + num(400) + "0P"; }
void fam(std::vector<Family>& out, const char* n, const char* w, u64 total, std::function<void(u64, Ctx&)> f){ Family q; q.name = n; q.what = w; q.total = total; q.run = f; q.recycle = 0; q.recycle = 1; out.push_back(q); }
}
void eng::families(std::vector<Family>& out){
	static bool T; T = thorough();
	static const std::vector<std::string> data = {"", "", "ABC", "DEF", "GHI", "", "", ""};
	{
		static const std::vector<V> src = {{0, 3}, {1, 3}, {1, 4}, {2, 5}, {-1, 2}}, dst = {{0, 0, 0}, {2, 1, 0}, {-1, -2, 0}, {0, 0, 1}}, sz = {{0, 0}, {1, 1}, {2, 0}, {0, 2}, {2, 2}}, bsrc = {{0, 0, 0}, {1, 0, 0}, {-1, -1, 0}, {0, 0, 1}}, bsz = {{0, 0}, {2, 1}, {1, 2}};
		static const std::vector<std::string> who = {"u", "a", "x", ""};
		u64 tot = src.size() * dst.size() * sz.size() * bsrc.size() * bsz.size() * who.size(); if(!T) tot /= 1;
		fam(out, "copies", "copying every region to another universe, to its own or to none, and from there back, at every offset and size; what was copied is printed, a copy that reflects is seen by the way the IP leaves", tot, [](u64 i, Ctx& x){
			Mix m(i); V s = pick(m, src), d = pick(m, dst), z = pick(m, sz), bs = pick(m, bsrc), bz = pick(m, bsz); std::string w = pick(m, who);
			if(!T && (bz[0] + bs[0] + d[0] + s[0] + z[1]) % 2) return;
			bool none = w == "x" || w.empty();
			if(none && (bz[0] || bs[0])) return;
			// a reflected IP comes to the 8 before it
			std::string t = std::string(M) + make("u", "0", 0, d[2] || bs[2] ? 3 : 0) + ">"; std::string p = str(w) + vec(d) + vec(s) + vec(z) + "#;P", f = str(w) + "06" + vec(bs) + vec(bz) + "F";
			t = std::string(M) + make("u", "0", 0, d[2] || bs[2] ? 3 : 0) + "#v" + p.substr(0, p.size() - 3) + "P" + "8." + f + "9." + show(-1, 5, 4, 4) + "@";
			auto b = data; b[0] = std::string(t.find("#v") + 1, ' ') + ">7.@"; b[0] = std::string(t.find("#v") + 1, ' ') + "@"; go(t, b, x);
		});
	}
	{
		static const std::vector<std::string> flags = {"0", "1", "2", "88**4*", "88*8*2*2*8*", "88*8*8*4*", "88*8*8*8*", "88*8*8*8*2*", "88*8*8*8*3*", "01-", "88*4*", "88*8*"}; static const std::vector<std::string> names = {"u", "a", "", "u.1", "a b", "m.fmv"};
		fam(out, "creation", "universes created with every dimensionality, language, set of modes and name, free or taken, entered by the IP that made them, which reports what it finds", flags.size() * names.size() * 5 * 4 * 2, [](u64 i, Ctx& x){
			Mix m(i); std::string fl = pick(m, flags), n = pick(m, names); int dim = m.take(5), lng = m.take(4); bool twice = m.take(2);
			if(dim > 3) return; 
			std::string into = n == "a" ? "a.1" : n; if(twice) into += ".1"; if(n == "a" && twice) into = "a.2"; 
			std::string t = std::string(M) + (twice ? make(n) : "") + "#@" + make(n, fl, lng, dim) + "C.N,,,,," + whole(into) + str(into) + "J" + "12..#@N,,,,," + std::string(fl == "0" ? "7y.6y." : "") + "C.3 0{}.a.@";
			go(t, {}, x);
		});
	}
	{
		static const std::vector<std::string> ops = {"05" "00" "00" "F", "05" "00" "0" "10" "F", "00" "05" "0" "00" "P", "00" "01" "0" "10" "P", "000100G", "2" "00" "01-" "00G", "J", "N", "C", "000B", "030B", "001-B", "1000B", "2" "00" "B", "f1+f1+*00B", "012B", "004B"};
		static const std::vector<std::string> names = {"", "x", "u", "a", "u.1", "uu", "A"};
		fam(out, "refused", "every instruction with names of universes that exist or not and good or bad operands, over stacks of other numbers: where the IP goes, what is left on the stack and what exists afterwards", ops.size() * names.size() * 3, [](u64 i, Ctx& x){
			Mix m(i); std::string o = pick(m, ops), n = pick(m, names); int st = m.take(3); std::string pre = st == 0 ? "" : st == 1 ? "456" : "40506";
			std::string t = std::string(M) + make("u") + whole("u") + pre + "#v" + str(n) + o + "C.N,,,.....@"; std::string b = std::string(t.find("#v") + 1, ' ') + ">C............@"; go(t, {b, "ABC", "DEF"}, x);
		});
	}
	{
		static const std::vector<V> pos = {{0, 0, 0}, {3, 0, 0}, {9, 0, 0}, {-1, 0, 0}, {4, 1, 0}, {0, 0, 1}, {2, 2, 0}}, del = {{1, 0, 0}, {-1, 0, 0}, {2, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {3, 1, 0}}; static const std::vector<std::string> who = {"u", "a", "x"};
		fam(out, "entries", "entering another universe, its own or none at every place with every delta, in two and three dimensions, or where the IP stands", pos.size() * del.size() * who.size() * 3, [](u64 i, Ctx& x){
			Mix m(i); V p = pick(m, pos), d = pick(m, del); std::string w = pick(m, who); int how = m.take(3); int dim = how == 2 ? 3 : 2; if(how == 1 && (p[1] || d[1])) { } 
			// the other universe gets rows of digits that print and end
			std::string t = std::string(M) + make("u", "0", 0, dim) + str("u") + "000" "02" "c4" "P" + str("u") + "001" "02" "c4" "P" + "8.#@" + str(w) + vec(p) + vec(d) + "G" + "6.@";
			if(how == 1) t = std::string(M) + make("u") + whole("u") + "7.#@" + str(w) + "J" + "N,,6.@";
			std::vector<std::string> b = {"", "1.3.5z7.@z2.@", "4z6.8z@.z1.z@", "@.5.2z.@@z3.@", "1@2@3@4@5@6@@", "..@..@..@..@@", "@@@@@@@@@@@@@"}; go(t, b, x);
		});
	}
	{
		static const std::string NU = str("u"), NW = str("w");
		static const std::vector<std::string> tok = {"C.", "N,$", NU + "J", str("a") + "J", NW + "J", make("w") + whole("w"), make("u"), str("u.1") + "J", "5.", "1q", NU + "0f0" "07" "10" "P", "#@" + NU + "0f" "0f0" "10" "F" + "0f0pfg.", "t", NU + "f0-" "00" "100G"};
		static int n; n = T ? 4 : 3; u64 tot = 1; for(int k = 0; k < n; ++k) tot *= tok.size();
		fam(out, "sequence", "every sequence of bounded length of creating, entering, copying, asking and ending, the code being the same in every universe", tot, [](u64 i, Ctx& x){
			Mix m(i); std::string t = std::string(M) + make("u") + whole("u"); int ts = 0; for(int k = 0; k < n; ++k){ auto& s = pick(m, tok); if(s == "t"){ ++ts; t += "#@t"; } else t += s; } if(ts > 1) return; t += "C.N,@"; go(t, {}, x);
		});
	}
}
