// Reference machine, see ref.h.
#include "ref.h"
#include <cerrno>
#include <cmath>
#include <complex>
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <sstream>
#include <iomanip>

namespace ref {
u64 mix(u64 h, u64 v){
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
	return h;
}
std::string Pos::str() const {
	int n = ND; while(n > 1 && v[n-1] == 0) --n;
	std::string s = "(";
	for(int i = 0; i < n; ++i){ if(i) s += ","; s += std::to_string(v[i]); }
	return s + ")";
}
static i64 add(i64 a, i64 b){ return (i64)((u64)a + (u64)b); }
static i64 sub(i64 a, i64 b){ return (i64)((u64)a - (u64)b); }
static i64 mul(i64 a, i64 b){ return (i64)((u64)a * (u64)b); }
static bool wsp(i64 c){ return c == ' ' || (c >= 9 && c <= 13); }
static const char* DYNLETTERS = "BDEFGKLMNOPQRSX";
static const u64 DYNID = 0x64796E616D696366ull;

// ---------------------------------------------------------------- field
void Field::put(const Pos& p, i64 v){
	if(charCells) v = (i64)(signed char)(v & 0xff);
	if(onWrite) onWrite(p, v);
	if(touched.size() > 4000000) throw Diverge();
	touched.push_back(p);
	if(log) log->push_back({p, v});
	if(v == ' '){
		cells.erase(p);
		for(int d = 0; d < ND; ++d){
			bool h = hi[d] == p[d], l = lo[d] == p[d];
			if(!(h || l)) continue;
			if(d >= usedDims || cells.empty()) continue;
			i64 mx = INT64_MIN, mn = INT64_MAX;
			for(auto& c : cells){ mx = std::max(mx, c.first[d]); mn = std::min(mn, c.first[d]); }
			if(h) hi[d] = mx;
			if(l) lo[d] = mn;
		}
	}else{
		int n = ND; while(n > 1 && p[n-1] == 0) --n;
		usedDims = std::max(usedDims, n);
		for(int d = 0; d < ND; ++d){ hi[d] = std::max(hi[d], p[d]); lo[d] = std::min(lo[d], p[d]); }
		cells[p] = v;
	}
}
Pos Field::parse(const Pos& start, const std::string& t, bool binary, int dims){
	Pos p = start, mx = start;
	auto up = [&]{ for(int d = 0; d < 4; ++d) mx[d] = std::max(mx[d], p[d]); };
	int last = 0;
	for(size_t i = 0; i < t.size(); ++i){
		unsigned char c = t[i];
		if(!binary && (c == '\n' || c == '\r')){
			if(c == '\r' && i + 1 < t.size() && t[i+1] == '\n') ++i;
			if(last != '\f' && last != '\v'){ p[1] = add(p[1], 1); up(); p[0] = start[0]; }
		}else if(!binary && (c == '\f' || c == '\v')){
			if(dims == 0 || dims >= 3){
				p[0] = start[0]; p[1] = start[1];
				if(c == '\f') p[2] = add(p[2], 1); else { p[2] = start[2]; p[3] = add(p[3], 1); }
				up(); last = c;
			}
		}else{
			if(c != ' ') put(p, c);
			p[0] = add(p[0], 1); up(); last = c;
		}
	}
	Pos r;
	for(int d = 0; d < ND; ++d) r[d] = sub(mx[d], start[d]);
	return r;
}
void Field::parseFL(const std::string& t){
	Pos p;
	size_t i = 0;
	usedDims = std::max(usedDims, 3);
	while(true){
		size_t e = t.find('\n', i);
		std::string line = t.substr(i, e == std::string::npos ? e : e - i);
		if(line.size() == 2 && line[0] == '=' && line[1] >= 'A' && line[1] <= 'Z'){
			p = Pos{0, 0, line[1] - 'A'};
		}else{
			for(char c : line){ if(c != ' ') put(p, (i64)(signed char)c); else if(cells.count(p)) throw Unmodelled("blank over text"); p[0]++; }
			p[1]++; p[0] = 0;
		}
		if(e == std::string::npos) break;
		i = e + 1;
	}
}
int Field::parseBeq(const std::string& t){
	std::vector<std::string> ls; { std::string l; for(char c : t){ if(c == '\n'){ ls.push_back(l); l.clear(); } else l += c; } if(!l.empty()) ls.push_back(l); }
	auto bad = []{ throw Unmodelled("malformed BeQunge file"); };
	auto num = [&](std::string s) -> i64 { while(!s.empty() && (s.back() == '\r' || s.back() == '\t')) s.pop_back(); size_t k = 0; if(k < s.size() && (s[k] == '-')) ++k; if(k == s.size() || s.size() - k > 18) bad(); for(size_t j = k; j < s.size(); ++j) if(s[j] < '0' || s[j] > '9') bad(); return strtoll(s.c_str(), nullptr, 10); };
	int dims = 0;
	for(size_t i = 0; i < ls.size(); ){
		std::string h = ls[i++]; i64 lines = 0; Pos at; int dim = 0;
		for(size_t k = 0; k <= h.size(); ){
			size_t e = std::min(h.find(',', k), h.size()); std::string d = h.substr(k, e - k); k = e + 1;
			size_t sp = d.find(' '); std::string key = d.substr(0, sp), val = sp == std::string::npos ? "" : d.substr(sp + 1);
			if(val.find(' ') != std::string::npos) bad();
			if(key == "Dimensions"){ i64 n = num(val); if(n < 0 || n > ND || dims) bad(); dims = (int)n; }
			else if(key == "Lines"){ lines = num(val); if(lines < 0) bad(); }
			else if(key == "Origin" || key == "Coord"){
				if(key == "Origin" && dim) bad();
				for(size_t a = 0; a <= val.size(); ){ size_t z = std::min(val.find(':', a), val.size()); std::string w = val.substr(a, z - a); a = z + 1; if(!w.empty()){ if(dim >= ND){ if(num(w)) bad(); } else at[dim] = num(w); } ++dim; }
			}
		}
		for(i64 y = 0; y < lines && i < ls.size(); ++y, ++i){
			Pos p = at; p[1] = add(p[1], y);
			for(char c : ls[i]){
				int n = ND; while(n > 1 && p[n-1] == 0) --n;
				blankDims = std::max(blankDims, n);
				if(c == ' '){ if(cells.count(p)) throw Unmodelled("blank over text"); } else put(p, (i64)(signed char)c);
				p[0] = add(p[0], 1);
			}
		}
	}
	return dims;
}
std::string Field::dump(const Pos& s, const Pos& z, bool binary) const {
	std::string out;
	for(i64 y = 0; y < std::max<i64>(z[1], 1); ++y){
		std::string row;
		for(i64 x = 0; x < z[0]; ++x){ Pos p = s; p[0] = add(p[0], x); p[1] = add(p[1], y); i64 c = get(p); row += (c == ' ' && !binary) ? std::string("\x01_") : std::string("\x02") + (char)c; }
		std::string r; size_t keep = 0;
		for(size_t i = 0; i < row.size(); i += 2){ r += row[i] == 1 ? ' ' : row[i+1]; if(row[i] == 2) keep = r.size(); }
		if(!binary) r.resize(keep);
		out += r + "\n";
	}
	return out;
}
u64 Field::hash() const {
	u64 h = 1;
	for(auto& c : cells){ for(int d = 0; d < ND; ++d) if(c.first[d]) h = mix(h, mix(d + 1, (u64)c.first[d])); h = mix(h, (u64)c.second); }
	for(int d = 0; d < ND; ++d) h = mix(h, mix((u64)lo[d], (u64)hi[d]));
	return h;
}

// ---------------------------------------------------------------- stacks
Stack& Machine::top(IP& ip, size_t n){ size_t i = ip.select + n; if(i >= ip.st->size()) throw Unmodelled("stack index"); return (*ip.st)[ip.st->size() - 1 - i]; }
u64& Machine::topAge(IP& ip, size_t n){ return (*ip.ages)[ip.st->size() - 1 - ip.select - n]; }
i64 Machine::popS(Stack& s, u64* age){
	if(age) ++*age;
	if(s.empty()) return 0;
	i64 v;
	if(isMode(M_QUEUE)){ v = s.front(); s.pop_front(); } else { v = s.back(); s.pop_back(); }
	return v;
}
i64 Machine::peekS(const Stack& s) const { return s.empty() ? 0 : isMode(M_QUEUE) ? s.front() : s.back(); }
void Machine::pushS(Stack& s, i64 v, u64* age){
	if(s.size() > 5000000) throw Diverge();
	if(age) ++*age;
	if(isMode(M_INVERT)) s.push_front(v); else s.push_back(v);
}
i64 Machine::getS(const Stack& s, u64 n) const {
	if(n == 0 || n > s.size()) return 0;
	return isMode(M_QUEUE) ? s[n-1] : s[s.size() - n];
}
Pos Machine::popVec(IP& ip, int d, size_t n){
	if(d < 0) d = cfg.dims;
	if(d > ND) throw Unmodelled("dims");
	Pos p;
	for(int i = d; i-- > 0; ) p[i] = popS(top(ip, n), &topAge(ip, n));
	return p;
}
int Machine::pushVec(IP& ip, const Pos& p, size_t n){
	for(int i = 0; i < cfg.dims; ++i) pushS(top(ip, n), i < ND ? p[i] : 0, &topAge(ip, n));
	return cfg.dims;
}
std::string Machine::popStr(IP& ip){
	std::string s;
	for(i64 c = pop(ip); c != 0; c = pop(ip)) s += (char)c;
	return s;
}
int Machine::pushStr(IP& ip, const std::string& s){
	push(ip, 0);
	for(size_t i = s.size(); i-- > 0; ) push(ip, (i64)(signed char)s[i]);
	return (int)s.size() + 1;
}
static double asD(i64 v){ double d; memcpy(&d, &v, 8); return d; }
static i64 asI(double d){ i64 v; memcpy(&v, &d, 8); return v; }
double Machine::popD(IP& ip, size_t n){ return asD(popS(top(ip, n), &topAge(ip, n))); }
void Machine::pushD(IP& ip, double d, size_t n){ pushS(top(ip, n), asI(d), &topAge(ip, n)); }
static i64 toInt(double d){ if(!(d > -9.3e18 && d < 9.2e18)) throw Unmodelled("float range"); return (i64)d; }
Pos Machine::popVecD(IP& ip, size_t n){
	Pos p;
	for(int i = cfg.dims; i-- > 0; ) p[i] = toInt(popD(ip, n));
	return p;
}

// ---------------------------------------------------------------- movement
typedef __int128 big;
static big fdiv(big a, big b){ big q = a / b; if((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }
static big cdiv(big a, big b){ return -fdiv(-a, b); }
void Machine::next(IP& ip){
	if(ip.stopped) return;
	Machine& m = *this;
	if(cfg.dims > ND) throw Unmodelled("dims");
	for(int d = 0; d < ND; ++d){ i64 r; if(__builtin_add_overflow(ip.pos[d], ip.delta[d], &r)) throw Unmodelled("movement overflow"); }
	if(cfg.topo == TORUS){
		Pos p = ip.pos + ip.delta;
		if(p[0] >= 80) p[0] = 0; else if(p[0] < 0) p[0] = 79;
		if(p[1] >= 25) p[1] = 0; else if(p[1] < 0) p[1] = 24;
		ip.pos = p;
		return;
	}
	// line pos + t*delta: the interval of integers t for which it is inside the region
	big lo = -((big)1 << 100), hi = (big)1 << 100;
	for(int d = 0; d < cfg.dims; ++d){
		big a = (big)m.field.lo[d] - ip.pos[d], b = (big)m.field.hi[d] - ip.pos[d], k = ip.delta[d];
		if(k == 0){ if(a > 0 || b < 0){ lo = 1; hi = 0; } continue; }
		big l = k > 0 ? cdiv(a, k) : cdiv(b, k), h = k > 0 ? fdiv(b, k) : fdiv(a, k);
		lo = std::max(lo, l); hi = std::min(hi, h);
	}
	bool zero = true;
	for(int d = 0; d < cfg.dims; ++d) if(ip.delta[d]) zero = false;
	if(zero || lo > hi || hi >= 1){ ip.pos = ip.pos + ip.delta; if(!zero && hi - 1 > 100000 && lo <= hi) throw Diverge(); return; }
	// ahead nothing; behind (t <= 0) the line crosses the region: re-enter at its far end
	if(-lo > 100000) throw Diverge();
	for(int d = 0; d < ND; ++d) ip.pos[d] = (i64)((big)ip.pos[d] + (big)ip.delta[d] * lo);
}
void Machine::setDelta(IP& ip, const Pos& d){
	if(isMode(M_HOVER)) ip.delta = ip.delta + d; else ip.delta = d;
	if(ip.delta[0] != 0 && ip.delta[1] == 0){
		ip.fisherCache = ip.delta;
		for(auto& f : ip.fps) f.second.fisherCache = ip.delta;
	}
}

// ---------------------------------------------------------------- instruction sets
static const char* I93_1 = " \t0123456789<>@#_?!%*+-/`$:\\&~\".,gp";
static const char* I93_2 = "^v|";
static const char* I98_1 = "abcdefyz;jrxkqtnu{}io='s()";
static const char* I98_2 = "[]w";
static const char* I98_3 = "hlm";
static const char* IFISH = " 0123456789abcdef><v^\\/|_#x!?.+-*,%=)('\":~$@l{}r[]oni&gp;";
static const char* ISTAR = "`CRuOIDFShms";
void Machine::setBase(IP& ip){
	auto all = [&](const char* s, const char* mov){
		for(; *s; ++s) ip.sems[*s].push_back(Sem{Sem::BASE, 0, *s, strchr(mov, *s) != nullptr});
	};
	if(cfg.std == FISH || cfg.std == STARFISH){
		all(IFISH, "><v^\\/|_#");
		if(cfg.std == STARFISH) all(ISTAR, "`uO");
		ip.regs.push_back({});
	}else{
		if(cfg.dims >= 1){ all(I93_1, "<>"); if(cfg.std == S98) all(I98_1, "r"); }
		if(cfg.dims >= 2){ all(I93_2, "^v"); if(cfg.std == S98) all(I98_2, ""); }
		if(cfg.dims >= 3 && cfg.std == S98) all(I98_3, "hl");
	}
}
std::string Machine::fpName(u64 fp){ std::string s; while(fp){ s = (char)(fp & 0xff) + s; fp >>= 8; } return s; }
const char* Machine::fpLetters(u64 fp){
	switch(fp){
		case fpid("BASE"): return "BHINO"; case fpid("BITW"): return "ALNORX"; case fpid("BOOL"): return "ANOX";
		case fpid("CPLI"): return "ADMOSV"; case fpid("DBUG"): return "ABDEW"; case fpid("DIRF"): return "CMR";
		case fpid("FING"): return "XYZ"; case fpid("FISH"): return "CDFHILMNORSTUV"; case fpid("FIXP"): return "ABCDIJNOPQRSTUVX";
		case fpid("FPDP"): case fpid("FPSP"): return "ABCDEFGHIKLMNPQRSTVXY"; case fpid("FPRT"): return "DFILS";
		case fpid("FRTH"): return "DLOPR"; case fpid("HRTI"): return "EGMST"; case fpid("IIPC"): return "ADGILP";
		case fpid("JSTR"): return "GP"; case fpid("MODE"): return "HIQS"; case fpid("MVRS"): return "BCFGJNP";
		case fpid("NFUN"): return "ACDHILMRVXYZ"; case fpid("ORTH"): return "AEGOPSVWXYZ"; case fpid("PERL"): return "EIS";
		case fpid("REFC"): return "RD"; case fpid("STRN"): return "ACDFGILMNPRSV"; case fpid("SUBR"): return "ACJOR";
		case fpid("TOYS"): return "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
	}
	return nullptr;
}
bool Machine::loadFp(IP& ip, u64 fp){
	auto f = ip.fps.find(fp);
	if(f == ip.fps.end()){
		FpState s;
		std::string name = fpName(fp);
		const std::string* text = env->fungelib ? env->fungelib(name) : nullptr;
		if(text){
			s.isFL = true;
			Config c; c.std = S98; c.dims = 3; c.concurrent = cfg.concurrent; c.execute = cfg.execute; c.filesystem = cfg.filesystem; c.fingerprint = cfg.fingerprint;
			c.fingerprints.push_back(DYNID); c.dynamic = true;
			s.dyn = std::make_shared<Machine>(c, env);
			s.dyn->field.parseFL(*text);
			s.dyn->caller = &ip; ip.home = this;
			std::istringstream is(*text); std::string line;
			while(std::getline(is, line)) if(line.size() == 2 && line[0] == '=' && line[1] >= 'A' && line[1] <= 'Z') s.letters += line[1];
		}else if(fp == DYNID){
			if(!caller) return false;
			s.letters = DYNLETTERS;
		}else{
			const char* l = fpLetters(fp);
			if(!l) return false;
			s.letters = l;
		}
		f = ip.fps.emplace(fp, s).first;
	}
	ip.loaded.push_back(fp);
	for(char c : f->second.letters){
		bool mov = fp == fpid("FISH") && !f->second.isFL && (c == 'U' || c == 'O');
		ip.sems[c].push_back(Sem{Sem::FP, fp, c, mov});
	}
	return true;
}
bool Machine::unloadFp(IP& ip, u64 fp){
	auto f = ip.fps.find(fp);
	if(f == ip.fps.end()) return false;
	for(char c : f->second.letters) if(!ip.sems[c].empty()) ip.sems[c].pop_back();
	for(size_t i = ip.loaded.size(); i-- > 0; ) if(ip.loaded[i] == fp){ ip.loaded.erase(ip.loaded.begin() + i); break; }
	return true;
}
void Machine::load(const std::string& text, char fmt){
	int d = 0;
	if(fmt == 'f') field.parseFL(text), d = 3; else if(fmt == 'q') d = field.parseBeq(text); else field.parse(Pos(), text, false, cfg.dims);
	if(cfg.dims == 0) cfg.dims = d ? d : std::max(1, field.used());
}
IP* Machine::addIP(const Pos& pos, const Pos& delta){
	auto p = std::make_unique<IP>();
	IP& ip = *p;
	ip.id = nextId++;
	ip.st = std::make_shared<std::vector<Stack>>(1);
	ip.ages = std::make_shared<std::vector<u64>>(1, 0);
	ip.home = this;
	setBase(ip);
	if(cfg.std == S98) for(u64 f : cfg.fingerprints) loadFp(ip, f);
	ip.pos = pos;
	setDelta(ip, delta);
	ips.push_back(std::move(p));
	return ips.back().get();
}
IP* Machine::clone(IP& o){
	auto p = std::make_unique<IP>();
	IP& ip = *p;
	ip.id = nextId++;
	ip.hasParent = true; ip.parent = o.id;
	ip.pos = o.pos; ip.delta = o.delta; ip.storage = o.storage; ip.stopped = o.stopped;
	ip.st = std::make_shared<std::vector<Stack>>(*o.st);
	ip.ages = std::make_shared<std::vector<u64>>(o.st->size(), 0);
	ip.select = o.select;
	ip.home = this;
	setBase(ip);
	for(u64 f : o.loaded) loadFp(ip, f);
	reflect(ip);
	next(ip);
	ips.push_back(std::move(p));
	return ips.back().get();
}
IP* Machine::find(u64 id){ for(auto& p : ips) if(p->id == id) return p.get(); return nullptr; }

// ---------------------------------------------------------------- execution
void Machine::tick(IP& ip){
	steps = 0;
	Err e;
	bool fish = cfg.std == FISH || cfg.std == STARFISH;
	do {
		count();
		if(onStep){ onStep(ip); if(ip.stopped) break; }
		e = exec(ip, field.get(ip.pos));
		if(pendingRandom) return;
		if(e == NONE || e == SKIP){ next(ip); }
		else if(e != BLOCK){
			if(onTrap) onTrap(ip);
			if(fish){
				if(e == UNIMP && isMode(M_DIVE)){ e = NONE; next(ip); }
				else { exitcode = 1; quit = true; for(auto& p : ips) p->stopped = true; }
			}else{ reflect(ip); next(ip); }
		}
		if(e == SKIP && ip.stopped) break;
	} while(e == SKIP);
}
void Machine::finishRandom(IP& ip, const Pos& delta){
	pendingRandom = false;
	if(pendingPut){
		pendingPut = false;
		for(int d = 0; d < 3; ++d) if(delta[d]) field.put(ip.pos, delta[d] > 0 ? ">vh"[d] : "<^l"[d]);
	}
	setDelta(ip, delta); next(ip); }
Err Machine::exec(IP& ip, i64 c){
	if(ip.strMode){
		bool fish = cfg.std == FISH || cfg.std == STARFISH;
		auto out = [&](i64 v){ if(fish) pushD(ip, (double)v); else push(ip, v); };
		if(c == ip.strEnd){ ip.strPrev = 0; ip.strMode = false; return NONE; }
		switch(cfg.strs){
			case MULTI: out(c); break;
			case SGML: if(wsp(c) && wsp(ip.strPrev)) return SKIP; out(c); ip.strPrev = c; break;
			case CSTR:
				if(c == '\\'){
					next(ip);
					i64 x = field.get(ip.pos);
					switch(x){ case '0': x = 0; break; case 'a': x = 7; break; case 'b': x = 8; break; case 't': x = 9; break; case 'n': x = 10; break;
						case 'v': x = 11; break; case 'f': x = 12; break; case 'r': x = 13; break; case 'e': x = 27; break; default: break; }
					out(x);
				}else out(c);
				break;
		}
		return NONE;
	}
	auto f = ip.sems.find(c);
	if(f == ip.sems.end() || f->second.empty()) return UNIMP;
	Sem s = f->second.back();
	if(isMode(M_DIVE) && !s.movement) return SKIP;
	return execSem(ip, s);
}
Err Machine::execSem(IP& ip, const Sem& s){
	switch(s.k){
		case Sem::BASE: return (cfg.std == FISH || cfg.std == STARFISH) ? execFish(ip, s.ch) : execBase(ip, s.ch);
		case Sem::REFL: reflect(ip); return NONE;
		case Sem::FP: {
			auto f = ip.fps.find(s.fp);
			if(f->second.isFL || s.fp == DYNID) return execFL(ip, s.fp, s.ch);
			return execFp(ip, s.fp, s.ch);
		}
	}
	return UNIMP;
}
static Pos unit(int d, i64 s){ Pos p; p[d] = s; return p; }
Err Machine::execBase(IP& ip, int c){
	if(c >= '0' && c <= '9'){ push(ip, c - '0'); return NONE; }
	if(c >= 'a' && c <= 'f'){ push(ip, c - 'a' + 10); return NONE; }
	switch(c){
		case ' ': case '\t': return SKIP;
		case '<': setDelta(ip, unit(0, -1)); return NONE;
		case '>': setDelta(ip, unit(0, 1)); return NONE;
		case '^': setDelta(ip, unit(1, -1)); return NONE;
		case 'v': setDelta(ip, unit(1, 1)); return NONE;
		case 'h': setDelta(ip, unit(2, cfg.inverthl ? -1 : 1)); return NONE;
		case 'l': setDelta(ip, unit(2, cfg.inverthl ? 1 : -1)); return NONE;
		case '_': setDelta(ip, unit(0, pop(ip) == 0 ? 1 : -1)); return NONE;
		case '|': setDelta(ip, unit(1, pop(ip) == 0 ? 1 : -1)); return NONE;
		case 'm': setDelta(ip, unit(2, pop(ip) == 0 ? 1 : -1)); return NONE;
		case '?': pendingRandom = true; return NONE;
		case '@': ip.stopped = true; return NONE;
		case '#': next(ip); return NONE;
		case '!': push(ip, pop(ip) == 0); return NONE;
		case '+': case '-': case '*': case '/': case '%': case '`': {
			i64 b = pop(ip), a = pop(ip), r = 0;
			switch(c){
				case '+': r = add(a, b); break;
				case '-': r = sub(a, b); break;
				case '*': r = mul(a, b); break;
				case '/': r = b == 0 ? 0 : b == -1 ? sub(0, a) : a / b; break;
				case '%': r = b == 0 || b == -1 ? 0 : a % b; break;
				case '`': r = a > b; break;
			}
			push(ip, r); return NONE;
		}
		case '$': pop(ip); return NONE;
		case ':': { i64 a = pop(ip); push(ip, a); push(ip, a); return NONE; }
		case '\\': { i64 a = pop(ip), b = pop(ip); push(ip, a); push(ip, b); return NONE; }
		case '&': {
			int ch = inCh();
			while(ch != -1 && !(ch >= '0' && ch <= '9')) ch = inCh();
			if(ch == -1) return UNSPEC;
			i64 n = 0;
			while(ch >= '0' && ch <= '9'){ n = add(mul(n, 10), ch - '0'); ch = inCh(); }
			if(ch != -1) --env->inPos;
			push(ip, n); return NONE;
		}
		case '~': {
			int ch = inCh();
			if(ch == 13) ch = inCh();
			if(ch == -1) return UNSPEC;
			push(ip, ch); return NONE;
		}
		case '"': ip.strMode = true; ip.strEnd = '"'; return NONE;
		case '.': env->out += std::to_string(pop(ip)) + " "; return NONE;
		case ',': env->out += (char)pop(ip); return NONE;
		case 'g': { Pos p = popVec(ip); push(ip, field.get(p + ip.storage)); return NONE; }
		case 'p': { Pos p = popVec(ip); i64 v = pop(ip); field.put(p + ip.storage, v); return NONE; }
		// ---- 98
		case 'z': return NONE;
		case 'r': reflect(ip); return NONE;
		case ';': do { count(); next(ip); } while(field.get(ip.pos) != ';'); return SKIP;
		case 'j': {
			i64 n = pop(ip);
			if(n > 20000 || n < -20000) throw Diverge();
			if(n < 0) reflect(ip);
			for(i64 i = 0; i < (n < 0 ? -n : n); ++i){ count(); next(ip); }
			if(n < 0) reflect(ip);
			return NONE;
		}
		case 'x': setDelta(ip, popVec(ip)); return NONE;
		case 'k': {
			Pos here = ip.pos;
			i64 i;
			for(;;){
				count(); next(ip); i = field.get(ip.pos);
				if(i == ' ') continue;
				if(i == ';'){ do { count(); next(ip); } while(field.get(ip.pos) != ';'); continue; }
				break;
			}
			Pos there = ip.pos;
			ip.pos = here;
			i64 n = pop(ip);
			if(n == 0){ ip.pos = there; return NONE; }
			if(n > INT32_MAX || n < INT32_MIN) throw Diverge();
			// depth first, without recursion
			bool nested = !iterated.empty();
			iterated.push_back({i, n});
			if(nested) return NONE;
			try {
				while(!iterated.empty()){
					if(iterated.back().second-- <= 0){ iterated.pop_back(); continue; }
					count();
					Err e = exec(ip, iterated.back().first);
					if(pendingRandom) throw Unmodelled("k?");
					if(e != NONE && e != SKIP && e != BLOCK) reflect(ip);
				}
			} catch(...){ iterated.clear(); throw; }
			return NONE;
		}
		case 'q': { i64 v = pop(ip); exitcode = (int)v; quit = true; for(auto& p : ips) p->stopped = true; return NONE; }
		case 't': if(!cfg.concurrent) return NOTAVAIL; if(ips.size() > 200) throw Diverge(); clone(ip); return NONE;
		case 'n': top(ip).clear(); ++topAge(ip); return NONE;
		case 'u': {
			if(ip.select + 1 >= ip.st->size()) return UNSPEC;
			i64 n = pop(ip);
			if(n > 3000000 || n < -3000000) throw Diverge();
			for(i64 i = 0; i < n; ++i) push(ip, popS(top(ip, 1), &topAge(ip, 1)));
			for(i64 i = 0; i < -n; ++i) pushS(top(ip, 1), pop(ip), &topAge(ip, 1));
			return NONE;
		}
		case '{': {
			i64 n = pop(ip);
			if(n > (i64)1 << 60) return UNSPEC;
			if(n > 3000000 || n < -3000000) throw Diverge();
			size_t at = ip.st->size() - ip.select;
			ip.st->insert(ip.st->begin() + at, Stack());
			ip.ages->insert(ip.ages->begin() + at, 0);
			std::vector<i64> t;
			for(i64 i = 0; i < n; ++i) t.push_back(popS(top(ip, 1), &topAge(ip, 1)));
			for(size_t i = t.size(); i-- > 0; ) push(ip, t[i]);
			for(i64 i = 0; i < -n; ++i) pushS(top(ip, 1), 0, &topAge(ip, 1));
			pushVec(ip, ip.storage, 1);
			ip.storage = ip.pos + ip.delta;
			if(isMode(M_SWITCH)) field.put(ip.pos, '}');
			return NONE;
		}
		case '}': {
			Err e = NONE;
			if(ip.select + 1 >= ip.st->size()) e = UNSPEC;
			else{
				i64 n = pop(ip);
				if(n > (i64)1 << 60) return UNSPEC;
				if(n > 3000000 || n < -3000000) throw Diverge();
				ip.storage = popVec(ip, -1, 1);
				std::vector<i64> t;
				for(i64 i = 0; i < n; ++i) t.push_back(pop(ip));
				for(size_t i = t.size(); i-- > 0; ) pushS(top(ip, 1), t[i], &topAge(ip, 1));
				for(i64 i = 0; i < -n; ++i) popS(top(ip, 1), &topAge(ip, 1));
				size_t at = ip.st->size() - 1 - ip.select;
				ip.st->erase(ip.st->begin() + at);
				ip.ages->erase(ip.ages->begin() + at);
			}
			if(isMode(M_SWITCH)) field.put(ip.pos, '{');
			return e;
		}
		case '[': ip.delta = leftOf(ip.delta); if(isMode(M_SWITCH)) field.put(ip.pos, ']'); return NONE;
		case ']': ip.delta = rightOf(ip.delta); if(isMode(M_SWITCH)) field.put(ip.pos, '['); return NONE;
		case 'w': { i64 b = pop(ip), a = pop(ip); if(a < b) ip.delta = leftOf(ip.delta); else if(a > b) ip.delta = rightOf(ip.delta); return NONE; }
		case '\'': next(ip); push(ip, field.get(ip.pos)); return NONE;
		case 's': next(ip); field.put(ip.pos, pop(ip)); return NONE;
		case '(': case ')': {
			Err e = NONE;
			if(!cfg.fingerprint) e = NOTAVAIL;
			else{
				i64 n = pop(ip); u64 f = 0;
				if(n > 3000000) throw Diverge();
				for(i64 i = 0; i < n; ++i) f = (f << 8) + (u64)pop(ip);
				if(c == '('){
					if(loadFp(ip, f)){ push(ip, (i64)f); push(ip, 1); } else e = UNSPEC;
				}else if(!unloadFp(ip, f)) e = UNSPEC;
			}
			if(isMode(M_SWITCH)) field.put(ip.pos, c == '(' ? ')' : '(');
			return e;
		}
		case 'i': {
			if(!cfg.filesystem) return NOTAVAIL;
			std::string f = popStr(ip).c_str(); i64 flags = pop(ip);
			Pos va = popVec(ip);
			auto it = env->files.find(env->cwd + f);
			if(it == env->files.end()) return UNSPEC;
			if(field.usedDims > cfg.dims && cfg.dims >= 3) {}
			Pos z = field.parse(va + ip.storage, it->second, flags & 1, cfg.dims);
			pushVec(ip, z); pushVec(ip, va);
			return NONE;
		}
		case 'o': {
			if(!cfg.filesystem) return NOTAVAIL;
			std::string f = popStr(ip).c_str(); i64 flags = pop(ip);
			Pos va = popVec(ip), vb = popVec(ip);
			for(int d = 0; d < cfg.dims; ++d){ i64 e; if(vb[d] > 100000 || vb[d] < -100000 || __builtin_add_overflow(va[d] + ip.storage[d], vb[d], &e) || e > INT64_MAX - 2) throw Diverge(); }
			for(int d = 0; d < cfg.dims; ++d) if(vb[d] < 0 || vb[d] > 1000 || (d < 2 && vb[d] == 0) || (d >= 2 && vb[d] > 1)) throw Unmodelled("o size");
			if(f.empty() || f.size() > 255 || f == "." || f == ".." || env->dirs.count(env->cwd + f) || f.back() == '/') return UNSPEC;
			if(f.find('/') != std::string::npos){ if(!env->dirs.count(env->cwd + f.substr(0, f.rfind('/')))) return UNSPEC; }
			env->files[env->cwd + f] = field.dump(va + ip.storage, vb, !(flags & 1));
			return NONE;
		}
		case '=': {
			if(!cfg.execute) return NOTAVAIL;
			env->systems.push_back(shellWords(popStr(ip).c_str()));     // a command ends at its first 0
			push(ip, env->systemRet);
			return NONE;
		}
		case 'y': sysinfo(ip, pop(ip)); return NONE;
	}
	throw Unmodelled(std::string("instruction ") + (char)c);
}
void Machine::sysinfo(IP& ip, i64 n){
	if(ip.select) throw Unmodelled("y with selected stack");
	int pushes = 0;
	i64 tsize = (i64)top(ip).size();
	auto P = [&](i64 v){ push(ip, v); ++pushes; };
	P(0); P(0);
	for(size_t i = cfg.env.size(); i-- > 0; ) pushes += pushStr(ip, cfg.env[i]);
	P(0); P(0);
	for(size_t i = cfg.args.size(); i-- > 0; ) pushes += pushStr(ip, cfg.args[i]);
	for(size_t i = 0; i + 1 < ip.st->size(); ++i) P((i64)(*ip.st)[i].size());
	P(tsize);
	P((i64)ip.st->size());
	P(((i64)env->tm_hour << 16) + (env->tm_min << 8) + env->tm_sec);
	P(((i64)env->tm_year << 16) + ((env->tm_mon + 1) << 8) + env->tm_mday);
	for(int i = 0; i < cfg.dims; ++i) P(i < ND ? sub(field.hi[i], field.lo[i]) : 0);
	for(int i = 0; i < cfg.dims; ++i) P(i < ND ? field.lo[i] : 0);
	pushes += pushVec(ip, ip.storage);
	pushes += pushVec(ip, ip.delta);
	pushes += pushVec(ip, ip.pos);
	P(0); P((i64)ip.id); P(cfg.dims); P('/'); P(cfg.execute ? 1 : 0); P((i64)env->version); P((i64)env->handprint); P(8);
	P(16 | (cfg.concurrent ? 1 : 0) | (cfg.execute ? 8 : 0) | (cfg.filesystem ? 6 : 0));
	if(n > 0){
		i64 v = getS(top(ip), (u64)n);
		for(int i = 0; i < pushes; ++i) pop(ip);
		push(ip, v);
	}
}

// ---------------------------------------------------------------- fingerprints
bool Machine::copySpace(const Pos& src, const Pos& sz, const Pos& dest, bool low, bool move){
	(void)src; (void)sz; (void)dest; (void)low; (void)move;
	return false;
}
// visits every offset of a region in order: first dimension fastest, from f to l inclusive in each dimension
static bool region(int dims, const Pos& sz, bool fwd, const std::function<void(const Pos&)>& f){
	// a zero size means an empty region
	for(int d = 0; d < dims; ++d) if(sz[d] == 0) return true;
	u64 n = 1;
	for(int d = 0; d < dims; ++d){ u64 a = sz[d] < 0 ? 0 - (u64)sz[d] : (u64)sz[d]; if(a > 100000 || n * a > 100000) throw Diverge(); n *= a; }
	for(u64 i = 0; i < n; ++i){
		u64 k = i; Pos p;
		for(int d = 0; d < dims; ++d){
			i64 a = sz[d] < 0 ? -sz[d] : sz[d];
			i64 q = (i64)(k % a); k /= a;
			if(!fwd) q = a - 1 - q;
			p[d] = sz[d] < 0 ? -q : q;
		}
		f(p);
	}
	return true;
}
// what a shell would run for a Perl command, whatever the style of quoting; other commands are left as they are
std::string shellWords(const std::string& c){
	if(c.compare(0, 5, "perl ") != 0) return c;
	std::string r = "<"; char q = 0; bool in = false;
	for(size_t i = 0; i < c.size(); ++i){
		char k = c[i];
		if(q == '\''){ if(k == q) q = 0; else r += k; }
		else if(q == '"'){ if(k == q) q = 0; else if(k == '\\' && i + 1 < c.size() && strchr("$`\"\\\n", c[i+1])){ if(c[++i] != '\n') r += c[i]; } else { if(k == '$' || k == '`') r += "(expanded)"; r += k; } }
		else if(k == '\'' || k == '"'){ q = k; in = true; }
		else if(k == '\\' && i + 1 < c.size()){ r += c[++i]; in = true; }
		else if(k == ' '){ if(in) r += "><"; in = false; }
		else { if(strchr("$`;&|<>()*?[#~\n\t", k)) r += "(special)"; r += k; in = true; }
	}
	return r + (q ? "(open)" : ">");
}
// formatted print: the format may hold literal text, %% and exactly one conversion of the right kind
static bool fmtOK(const std::string& f, char kind){
	int n = 0;
	for(size_t i = 0; i < f.size(); ++i){
		if(f[i] != '%') continue;
		++i;
		if(i < f.size() && f[i] == '%') continue;
		while(i < f.size() && strchr("-+ #0", f[i])) ++i;
		size_t d = i; while(i < f.size() && isdigit((unsigned char)f[i])) ++i;
		if(i - d > 3) return false;
		if(i < f.size() && f[i] == '.'){ ++i; d = i; while(i < f.size() && isdigit((unsigned char)f[i])) ++i; if(i - d > 3) return false; }
		if(i >= f.size()) return false;
		const char* ok = kind == 'f' ? "aAeEfFgG" : kind == 's' ? "s" : "diouxX";
		if(!strchr(ok, f[i])) return false;
		if(++n > 1) return false;
	}
	return n == 1;
}
template<class T> static i64 fbits(T v){ u64 r = 0; memcpy(&r, &v, sizeof v); return (i64)r; }
template<class T> static T fval(i64 v){ T r; memcpy(&r, &v, sizeof r); return r; }
template<class T> static Err execFloat(Machine& m, IP& ip, int c, Env* env){
	// which NaN an operation gives is not specified
	if(m.pendingAny) throw Unmodelled("NaN operand");
	auto P = [&](T v){ if(std::isnan(v) && m.chooser){ m.pendingAny = true; m.anyLo = INT64_MIN; m.anyHi = INT64_MAX; m.anyNan = sizeof(T); m.push(ip, m.chooser("nan")); } else m.push(ip, fbits<T>(v)); };
	auto G = [&]{ return fval<T>(m.pop(ip)); };
	switch(c){
		case 'A': { T b = G(), a = G(); P(a + b); return NONE; }
		case 'S': { T b = G(), a = G(); P(a - b); return NONE; }
		case 'M': { T b = G(), a = G(); P(a * b); return NONE; }
		case 'D': { T b = G(), a = G(); P(a / b); return NONE; }
		case 'B': P(std::sin(G())); return NONE;
		case 'C': P(std::cos(G())); return NONE;
		case 'E': P(std::asin(G())); return NONE;
		case 'G': P(std::atan(G())); return NONE;
		case 'H': P(std::acos(G())); return NONE;
		case 'K': P(std::log(G())); return NONE;
		case 'L': P(std::log10(G())); return NONE;
		case 'N': P(-G()); return NONE;
		case 'Q': P(std::sqrt(G())); return NONE;
		case 'T': P(std::tan(G())); return NONE;
		case 'V': P(std::fabs(G())); return NONE;
		case 'X': P(std::exp(G())); return NONE;
		case 'Y': { T y = G(), x = G(); P(std::pow(x, y)); return NONE; }
		case 'F': P((T)m.pop(ip)); return NONE;
		case 'I': { T v = G(); m.push(ip, toInt((double)v)); return NONE; }
		case 'P': { char b[400]; snprintf(b, sizeof b, "%.6f ", (double)G()); env->out += b; return NONE; }
		case 'R': { std::string s = m.popStr(ip); char* e; const char* b = s.c_str(); errno = 0; double d = strtod(b, &e); if(e == b) return UNSPEC; if(errno) throw Unmodelled("range"); P((T)d); return NONE; }
	}
	throw Unmodelled("float");
}
Err Machine::execFp(IP& ip, u64 fp, int c){
	FpState& S = ip.fps[fp];
	auto A = [&]{ return pop(ip); };
	auto P = [&](i64 v){ push(ip, v); };
	auto at = [&](char ch){ return c == ch; };
	switch(fp){
	case fpid("MVRS"): if(env->mvrs) return env->mvrs(*this, ip, c); throw Unmodelled("MVRS");
	case fpid("BOOL"): case fpid("BITW"): {
		if(at('N')){ P(~A()); return NONE; }
		i64 b = A(), a = A();
		switch(c){
			case 'A': P(a & b); return NONE; case 'O': P(a | b); return NONE; case 'X': P(a ^ b); return NONE;
			case 'L': if(b < 0 || b > 63) throw Unmodelled("shift"); P((i64)((u64)a << b)); return NONE;
			case 'R': if(b < 0 || b > 63) throw Unmodelled("shift"); P(a >> b); return NONE;
		}
		break;
	}
	case fpid("FRTH"):
		switch(c){
			case 'D': P((i64)top(ip).size()); return NONE;
			case 'O': { i64 b = A(), a = A(); P(a); P(b); P(a); return NONE; }
			case 'P': { i64 u = A(); if(u < 0) return UNSPEC; P(getS(top(ip), (u64)u + 1)); return NONE; }
			case 'R': { i64 z = A(), y = A(), x = A(); P(y); P(z); P(x); return NONE; }
			case 'L': {
				i64 u = A();
				if(u > 1000000 || u < -1000000) throw Diverge();
				i64 n = u < 0 ? -u : u;
				std::vector<i64> t;
				for(i64 i = 0; i <= n; ++i) t.push_back(A());
				if(u < 0){ P(t[0]); for(i64 i = n; i > 0; --i) P(t[i]); }
				else { for(i64 i = n - 1; i >= 0; --i) P(t[i]); P(t[n]); }
				return NONE;
			}
		}
		break;
	case fpid("CPLI"): {
		auto lim = [](i64 v){ if(v > (1ll << 50) || v < -(1ll << 50)) throw Unmodelled("cpli range"); return v; };
		if(at('V')){ double i = (double)A(), r = (double)A(); P((i64)std::round(std::abs(std::complex<double>(r, i)))); return NONE; }
		if(at('O')){
			i64 i = A(), r = A(); std::string s;
			if(i == 0) s = std::to_string(r);
			else if(r == 0) s = std::to_string(i) + "i";
			else s = std::to_string(r) + (i < 0 ? "" : "+") + std::to_string(i) + "i";
			env->out += s + " "; return NONE;
		}
		i64 bi = A(), br = A(), ai = A(), ar = A();
		switch(c){
			case 'A': P(add(ar, br)); P(add(ai, bi)); return NONE;
			case 'S': P(sub(ar, br)); P(sub(ai, bi)); return NONE;
			case 'M': P(sub(mul(ar, br), mul(ai, bi))); P(add(mul(ar, bi), mul(ai, br))); return NONE;
			case 'D': {
				if(br == 0 && bi == 0) throw Unmodelled("cpli /0");
				lim(ar); lim(ai); lim(br); lim(bi);
				std::complex<double> q = std::complex<double>((double)ar, (double)ai) / std::complex<double>((double)br, (double)bi);
				P((i64)std::round(q.real())); P((i64)std::round(q.imag())); return NONE;
			}
		}
		break;
	}
	case fpid("BASE"): {
		auto digits = [&](i64 n, i64 b){
			// magnitude in base b, leading minus when negative
			static const char* D32 = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
			static const char* D36 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
			static const char* D58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
			static const char* D64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
			static const char* D85 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~";
			std::string s;
			u64 m = n < 0 ? 0 - (u64)n : (u64)n;
			bool first = true;
			do {
				u64 d = m % (u64)b; m /= (u64)b;
				if(b <= 32) s = D32[d] + s;
				else if(b == 36) s = D36[d] + s;
				else if(b == 58) s = D58[d] + s;
				else if(b == 64) s = D64[d] + s;
				else if(b == 85) s = D85[d] + s;
				else s = std::to_string(d) + (first ? "" : ",") + s;
				first = false;
			} while(m);
			return (n < 0 ? "-" : "") + s;
		};
		auto pr = [&](i64 n, i64 b){
			if((unsigned)b <= 1 && n > 100000) throw Diverge();
			if(b > 4294967295ll || b < 0) throw Unmodelled("base");
			if(b > 1) env->out += digits(n, b);
			else { if(n > 100000) throw Diverge(); for(i64 i = 0; i < n; ++i) env->out += '0'; }
			env->out += ' ';
			return NONE;
		};
		switch(c){
			case 'B': return pr(A(), 2);
			case 'O': return pr(A(), 8);
			case 'H': return pr(A(), 16);
			case 'N': { i64 b = A(), a = A(); return pr(a, b); }
			case 'I': {
				i64 b = A();
				if(b > 4294967295ll || b < 0) throw Unmodelled("base");
				std::string w;
				int ch = inCh();
				while(ch != -1 && wsp(ch)) ch = inCh();
				while(ch != -1 && !wsp(ch)){ w += (char)ch; ch = inCh(); }
				if(ch != -1) --env->inPos;
				i64 n = 0;
				if(b <= 1) n = (i64)w.size();
				else if(b <= 32) for(char x : w){
					static const std::string D32 = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
					size_t d = D32.find((char)toupper((unsigned char)x));
					if(d == std::string::npos || (i64)d >= b) break;
					n = add(mul(n, b), (i64)d);
				}
				P(n);
				return NONE;
			}
		}
		break;
	}
	case fpid("FIXP"): {
		auto F = [&]{ return (double)A() / 10000.0; };
		auto T = [&](double d){ P(toInt(std::round(d * 10000.0))); return NONE; };
		auto rad = [](double d){ return d * M_PI / 180.0; };
		auto deg = [](double d){ return d * 180.0 / M_PI; };
		switch(c){
			case 'A': { i64 b = A(), a = A(); P(a & b); return NONE; }
			case 'O': { i64 b = A(), a = A(); P(a | b); return NONE; }
			case 'X': { i64 b = A(), a = A(); P(a ^ b); return NONE; }
			case 'N': P(sub(0, A())); return NONE;
			case 'S': { i64 a = A(); P(a > 0 ? 1 : a < 0 ? -1 : 0); return NONE; }
			case 'V': { i64 a = A(); P(a < 0 ? sub(0, a) : a); return NONE; }
			case 'B': return T(deg(std::acos(F())));
			case 'J': return T(deg(std::asin(F())));
			case 'U': return T(deg(std::atan(F())));
			case 'C': return T(std::cos(rad(F())));
			case 'I': return T(std::sin(rad(F())));
			case 'T': return T(std::tan(rad(F())));
			case 'P': P(toInt((double)A() * M_PI)); return NONE;
			case 'Q': P(toInt(std::sqrt((double)A()))); return NONE;
			case 'R': { i64 b = A(), a = A(); P(toInt(std::pow((double)a, (double)b))); return NONE; }
			case 'D': { i64 n = A(); pendingAny = true; anyLo = std::min<i64>(0, n); anyHi = std::max<i64>(0, n); P(chooser ? chooser("fixp") : 0); return NONE; }
		}
		break;
	}
	case fpid("FPDP"): return execFloat<double>(*this, ip, c, env);
	case fpid("FPSP"): return execFloat<float>(*this, ip, c, env);
	case fpid("FPRT"): {
		i64 v = 0; std::string s;
		if(at('S')) s = popStr(ip);
		else v = A();
		if(at('L')){ i64 h = A(); v = (i64)(((u64)h << 32) | ((u64)v & 0xffffffffu)); }
		std::string f = popStr(ip);
		if(f.find('\0') != std::string::npos || s.find('\0') != std::string::npos) throw Unmodelled("format");
		if(f.size() > 1000) throw Unmodelled("long format");
		char kind = at('D') || at('F') ? 'f' : at('S') ? 's' : 'i';
		if(!fmtOK(f, kind)){
			if(f.find('%') == std::string::npos){ pushStr(ip, f); return NONE; }
			for(char x : f) if(strchr("hlLqjztc", x)) throw Unmodelled("format");
			int convs = 0; bool spec = true;
			for(size_t i = 0; i < f.size(); ++i) if(f[i] == '%'){ if(i + 1 < f.size() && f[i+1] == '%'){ ++i; continue; } ++convs; size_t e = f.find_first_not_of("-+ #0123456789.", i + 1); const char* ok = kind == 'f' ? "aAeEfFgG" : kind == 's' ? "s" : "diouxX"; if(e == std::string::npos || !strchr(ok, f[e])) spec = false; else i = e; }
			if(convs == 0){ std::string s2; for(size_t i = 0; i < f.size(); ++i){ s2 += f[i]; if(f[i] == '%') ++i; } pushStr(ip, s2); return NONE; }
			if(convs == 1 && spec){
				// a width that printf itself refuses
				size_t run = 0, most = 0; for(char x : f){ run = isdigit((unsigned char)x) ? run + 1 : 0; most = std::max(most, run); }
				if(most >= 12 && f.find('.') == std::string::npos) return UNSPEC;
				throw Unmodelled("format width");
			}
			return UNSPEC;
		}
		char b[4096]; 
		if(kind == 'i'){ size_t p = f.find_first_of("diouxX", f.find('%')); while(true){ size_t q = f.find('%'); (void)q; break; }
			// locate the conversion letter exactly
			for(size_t i = 0; i < f.size(); ++i) if(f[i] == '%'){ if(f[i+1] == '%'){ ++i; continue; } p = f.find_first_of("diouxX", i); break; }
			f.insert(p, "ll"); snprintf(b, sizeof b, f.c_str(), (long long)v);
		}else if(kind == 's') snprintf(b, sizeof b, f.c_str(), s.c_str());
		else snprintf(b, sizeof b, f.c_str(), at('D') ? asD(v) : (double)fval<float>(v));
		if(strlen(b) > 1000) throw Unmodelled("long format");
		pushStr(ip, b);
		return NONE;
	}
	case fpid("HRTI"): {
		i64 us = env->now * 1000000 + env->nowNs / 1000;
		switch(c){
			case 'E': S.mark = -1; return NONE;
			case 'G': P(1); return NONE;
			case 'M': S.mark = us; return NONE;
			case 'S': P(us % 1000000); return NONE;
			case 'T': if(S.mark < 0) return UNSPEC; P(us - S.mark); return NONE;
		}
		break;
	}
	case fpid("IIPC"):
		switch(c){
			case 'A': if(!ip.hasParent) return UNSPEC; P((i64)ip.parent); return NONE;
			case 'I': P((i64)ip.id); return NONE;
			case 'D':
				if(!S.dormant){ S.dormant = true; S.sage = topAge(ip); return BLOCK; }
				if(topAge(ip) != S.sage){ S.dormant = false; return NONE; }
				return BLOCK;
			case 'G': { IP* o = find((u64)A()); if(!o) return UNSPEC; i64 v = popS(top(*o), &topAge(*o)); P(v); return NONE; }
			case 'L': { IP* o = find((u64)A()); if(!o) return UNSPEC; P(peekS(top(*o))); return NONE; }
			case 'P': { i64 id = A(), v = A(); IP* o = find((u64)id); if(!o) return UNSPEC; pushS(top(*o), v, &topAge(*o)); return NONE; }
		}
		break;
	case fpid("JSTR"): {
		i64 n = A(); Pos va = popVec(ip), vd = popVec(ip), p = va + ip.storage;
		if(n > 20000) throw Diverge();
		if(at('G')) P(0);
		for(; n > 0; --n){ if(at('G')) P(field.get(p)); else field.put(p, A()); p = p + vd; }
		return NONE;
	}
	case fpid("MODE"):
		mode ^= at('H') ? M_HOVER : at('I') ? M_INVERT : at('Q') ? M_QUEUE : M_SWITCH;
		return NONE;
	case fpid("NFUN"): {
		int d = 0; i64 s = 0;
		switch(c){
			case 'A': d = 3; s = -1; break; case 'V': d = 3; s = 1; break; case 'I': d = 3; s = A() == 0 ? 1 : -1; break;
			case 'H': d = 4; s = cfg.inverthl ? -1 : 1; break; case 'L': d = 4; s = cfg.inverthl ? 1 : -1; break; case 'M': d = 4; s = A() == 0 ? 1 : -1; break;
			case 'C': d = 5; s = -1; break; case 'D': d = 5; s = 1; break; case 'R': d = 5; s = A() == 0 ? 1 : -1; break;
			case 'X': case 'Y': case 'Z': {
				i64 n = A();
				if(n < 0) return UNSPEC;
				if(n >= ND) throw Unmodelled("nfun dims");
				d = (int)n; s = at('Y') ? -1 : at('Z') ? 1 : A() == 0 ? 1 : -1;
			}
		}
		setDelta(ip, unit(d, s));
		cfg.dims = std::max(cfg.dims, d + 1);
		return NONE;
	}
	case fpid("ORTH"):
		switch(c){
			case 'A': { i64 b = A(), a = A(); P(a & b); return NONE; }
			case 'O': { i64 b = A(), a = A(); P(a | b); return NONE; }
			case 'E': { i64 b = A(), a = A(); P(a ^ b); return NONE; }
			case 'G': { i64 x = A(), y = A(); P(field.get(Pos{x, y})); return NONE; }
			case 'P': { i64 x = A(), y = A(), v = A(); field.put(Pos{x, y}, v); return NONE; }
			case 'S': env->out += popStr(ip) + "\n"; return NONE;
			case 'V': { Pos d = ip.delta; d[0] = A(); if(isMode(M_HOVER)) throw Unmodelled("hover"); setDelta(ip, d); return NONE; }
			case 'W': { Pos d = ip.delta; d[1] = A(); if(isMode(M_HOVER)) throw Unmodelled("hover"); setDelta(ip, d); return NONE; }
			case 'X': ip.pos[0] = A(); return NONE;
			case 'Y': ip.pos[1] = A(); return NONE;
			case 'Z': if(A() == 0) next(ip); return NONE;
		}
		break;
	case fpid("PERL"):
		if(at('S')){ P(1); return NONE; }
		else {
			if(!cfg.execute) return UNSPEC;
			std::string code = popStr(ip); if(code.find('\0') != std::string::npos) throw Unmodelled("inner zero in Perl text");
			env->systems.push_back("<perl><-e><exit(eval{" + code + "})>");
			i64 r = env->systemRet >> 8;
			if(at('E')) pushStr(ip, std::to_string(r)); else P(r);
			return NONE;
		}
	case fpid("REFC"):
		if(at('R')){ Pos v = popVec(ip); pendingAny = true; anyLo = INT64_MIN; anyHi = INT64_MAX; i64 r = chooser ? chooser("refc") : (i64)env->refs.size() + 1; if(env->refs.count(r)) throw std::runtime_error("REFC: reference value reused"); env->refs[r] = v; P(r); return NONE; }
		else { i64 r = A(); auto f = env->refs.find(r); if(f != env->refs.end()) pushVec(ip, f->second); return NONE; }
	case fpid("STRN"):
		switch(c){
			case 'A': { std::string a = popStr(ip), b = popStr(ip); pushStr(ip, a + b); return NONE; }
			case 'C': { std::string a = popStr(ip), b = popStr(ip); int r = a.compare(b); P(r); return NONE; }
			case 'D': env->out += popStr(ip); return NONE;
			case 'F': { std::string a = popStr(ip), b = popStr(ip); size_t n = a.find(b); if(n == std::string::npos) P(0); else pushStr(ip, a.substr(n)); return NONE; }
			case 'G': {
				Pos p = popVec(ip) + ip.storage; std::string s;
				if(p[0] < field.hi[0] && (u64)field.hi[0] - (u64)p[0] > 1000000) throw Diverge();
				bool any = false;
				for(auto& x : field.cells){ bool same = x.second == 0; for(int d = 1; d < ND; ++d) same = same && x.first[d] == p[d]; if(same && x.first[0] >= p[0]) any = true; }
				if(!any) return UNSPEC;
				for(; field.get(p) != 0; p[0] = add(p[0], 1)){ count(); s += (char)field.get(p); }
				pushStr(ip, s); return NONE;
			}
			case 'I': {
				std::string s; int ch;
				while((ch = inCh()) != -1 && ch != '\n') s += (char)ch;
				pushStr(ip, s); return NONE;
			}
			case 'L': { i64 n = A(); if(n < 0) return UNSPEC; std::string s = popStr(ip); pushStr(ip, s.substr(0, (size_t)n)); return NONE; }
			case 'R': { i64 n = A(); if(n < 0) return UNSPEC; std::string s = popStr(ip); size_t k = std::min<u64>((u64)n, s.size()); pushStr(ip, s.substr(s.size() - k)); return NONE; }
			case 'M': { i64 n = A(), s = A(); if(n < 0 || s < 0) return UNSPEC; std::string t = popStr(ip); if((u64)s > t.size()) return UNSPEC; pushStr(ip, t.substr((size_t)s, (size_t)n)); return NONE; }
			case 'N': { std::string s = popStr(ip); pushStr(ip, s); P((i64)s.size()); return NONE; }
			case 'P': { Pos p = popVec(ip) + ip.storage; std::string s = popStr(ip); for(char x : s){ field.put(p, (i64)(signed char)x); p[0] = add(p[0], 1); } field.put(p, 0); return NONE; }
			case 'S': pushStr(ip, std::to_string(A())); return NONE;
			case 'V': {
				std::string s = popStr(ip); const char* b = s.c_str(); char* e; errno = 0; i64 v = strtoll(b, &e, 10);
				if(e == b) return UNSPEC;
				if(errno) throw Unmodelled("range");
				P(v); return NONE;
			}
		}
		break;
	case fpid("SUBR"): {
		if(at('A')){ S.subrRel = false; return NONE; }
		if(at('O')){ S.subrRel = true; return NONE; }
		if(isMode(M_HOVER)) throw Unmodelled("hover");
		if(at('J')){ Pos v = popVec(ip); if(S.subrRel) v = v + ip.pos; v[0] = sub(v[0], 1); ip.pos = v; setDelta(ip, unit(0, 1)); return NONE; }
		i64 n = A();
		if(n < 0) return UNSPEC;
		if(n > 1000000) throw Diverge();
		Pos va, vd; std::vector<i64> t;
		if(at('C')) va = popVec(ip);
		for(i64 i = 0; i < n; ++i) t.push_back(A());
		if(at('C')){ pushVec(ip, ip.pos); pushVec(ip, ip.delta); }
		else { vd = popVec(ip); va = popVec(ip); }
		for(size_t i = t.size(); i-- > 0; ) P(t[i]);
		if(at('C')){ if(S.subrRel) va = va + ip.pos; va[0] = sub(va[0], 1); ip.pos = va; setDelta(ip, unit(0, 1)); }
		else { ip.pos = va; setDelta(ip, vd); }
		return NONE;
	}
	case fpid("TOYS"): {
		auto copy = [&](const Pos& src, const Pos& sz, const Pos& dst, bool low, bool mv){
			region(cfg.dims, sz, low, [&](const Pos& o){ i64 v = field.get(src + o); field.put(dst + o, v); if(mv) field.put(src + o, ' '); });
		};
		switch(c){
			case 'A': { i64 n = A(), a = A(); if(n > 100000) throw Diverge(); for(i64 i = 0; i < n; ++i) P(a); return NONE; }
			case 'B': { i64 b = A(), a = A(); P(add(a, b)); P(sub(a, b)); return NONE; }
			case 'C': case 'K': case 'M': case 'V': { Pos d = popVec(ip), z = popVec(ip), s = popVec(ip); copy(s, z, d, at('C') || at('M'), at('M') || at('V')); return NONE; }
			case 'D': P(sub(A(), 1)); return NONE;
			case 'I': P(add(A(), 1)); return NONE;
			case 'E': { i64 s = 0; while(!top(ip).empty()) s = add(s, A()); P(s); return NONE; }
			case 'P': { i64 s = 1; while(!top(ip).empty()) s = mul(s, A()); P(s); return NONE; }
			case 'F': { Pos d = popVec(ip), z = popVec(ip); region(cfg.dims, z, true, [&](const Pos& o){ field.put(d + o, A()); }); return NONE; }
			case 'G': { Pos s = popVec(ip), z = popVec(ip); region(cfg.dims, z, false, [&](const Pos& o){ P(field.get(s + o)); }); return NONE; }
			case 'H': { i64 b = A(), a = A(); if(b > 63 || b < -63) throw Unmodelled("shift"); P(b > 0 ? (i64)((u64)a << b) : a >> -b); return NONE; }
			case 'J': case 'O': {
				i64 n = A();
				if(cfg.dims > 2 || (at('J') && cfg.dims < 2)) throw Unmodelled("J/O dims");
				if(n == 0) return NONE;
				int d = at('J') ? 1 : 0;
				i64 l = field.lo[d], h = field.hi[d];
				if(h - l > 10000) throw Diverge();
				Pos s = ip.pos; s[d] = l;
				Pos t = s; t[d] = add(l, n);
				Pos z; z[0] = z[1] = 1; z[d] = h - l + 1;
				region(2, z, n < 0, [&](const Pos& o){ i64 v = field.get(s + o); field.put(t + o, v); field.put(s + o, ' '); });
				return NONE;
			}
			case 'L': P(field.get(ip.pos + leftOf(ip.delta))); return NONE;
			case 'R': P(field.get(ip.pos + rightOf(ip.delta))); return NONE;
			case 'Q': { i64 v = A(); field.put(ip.pos + -ip.delta, v); return NONE; }
			case 'N': P(A() == 0); return NONE;
			case 'S': { Pos d = popVec(ip), z = popVec(ip); i64 v = A(); region(cfg.dims, z, true, [&](const Pos& o){ field.put(d + o, v); }); return NONE; }
			case 'T': { i64 n = A(), b = A(); if(n < 0 || n >= cfg.dims) return UNSPEC; setDelta(ip, unit((int)n, b == 0 ? 1 : -1)); return NONE; }
			case 'U': if(cfg.dims > 3 || cfg.inverthl) throw Unmodelled("TOYS U"); pendingRandom = pendingPut = true; return NONE;
			case 'W': {
				Pos v = popVec(ip); i64 x = A(), cell = field.get(v);
				if(cell < x){ P(x); pushVec(ip, v); return BLOCK; }
				if(cell > x) reflect(ip);
				return NONE;
			}
			case 'X': ip.pos[0] = add(ip.pos[0], 1); return NONE;
			case 'Y': if(cfg.dims < 2) return UNSPEC; ip.pos[1] = add(ip.pos[1], 1); return NONE;
			case 'Z': if(cfg.dims < 3) return UNSPEC; ip.pos[2] = add(ip.pos[2], 1); return NONE;
		}
		break;
	}
	case fpid("FING"): {
		auto letter = [](i64 a){ if(a >= 0 && a <= 25) a += 'A'; return a >= 'A' && a <= 'Z' ? a : -1; };
		auto take = [&](i64 a){ auto& v = ip.sems[a]; if(v.empty()) return Sem{Sem::REFL, 0, (int)a, false}; Sem s = v.back(); v.pop_back(); return s; };
		switch(c){
			case 'X': { i64 a = letter(A()); if(a < 0) return UNSPEC; i64 b = letter(A()); if(b < 0) return UNSPEC; Sem x = take(a), y = take(b); ip.sems[a].push_back(y); ip.sems[b].push_back(x); return NONE; }
			case 'Y': { i64 a = letter(A()); if(a < 0) return UNSPEC; auto& v = ip.sems[a]; if(!v.empty()) v.pop_back(); return NONE; }
			case 'Z': { i64 d = letter(A()); if(d < 0) return UNSPEC; i64 s = letter(A()); if(s < 0) return UNSPEC; auto& v = ip.sems[s]; Sem x = v.empty() ? Sem{Sem::REFL, 0, (int)s, false} : v.back(); ip.sems[d].push_back(x); return NONE; }
		}
		break;
	}
	case fpid("FISH"):
		switch(c){
			case 'C': if(!A()) next(ip); return NONE;
			case 'D': if(ip.select + 1 < ip.st->size()){ ++ip.select; return NONE; } return UNSPEC;
			case 'I': if(ip.select > 0){ --ip.select; return NONE; } return UNSPEC;
			case 'F':
				if(ip.delta[1] == 0){ setDelta(ip, unit(1, S.fisherUp ? 1 : -1)); S.fisherUp = !S.fisherUp; }
				else setDelta(ip, S.fisherCache);
				return NONE;
			case 'H': { Pos d = ip.delta; d[1] = sub(0, d[1]); if(isMode(M_HOVER)) throw Unmodelled("hover"); setDelta(ip, d); return NONE; }
			case 'V': { Pos d = ip.delta; d[0] = sub(0, d[0]); if(isMode(M_HOVER)) throw Unmodelled("hover"); setDelta(ip, d); return NONE; }
			case 'M': { Pos d = ip.delta; d[0] = sub(0, ip.delta[1]); d[1] = sub(0, ip.delta[0]); if(isMode(M_HOVER)) throw Unmodelled("hover"); setDelta(ip, d); return NONE; }
			case 'N': { Pos d = ip.delta; d[0] = ip.delta[1]; d[1] = ip.delta[0]; if(isMode(M_HOVER)) throw Unmodelled("hover"); setDelta(ip, d); return NONE; }
			case 'L': case 'R': case 'S': {
				if(isMode(M_QUEUE) || isMode(M_INVERT)) throw Unmodelled("rotate in queue mode");
				Stack& s = top(ip); size_t n = s.size();
				if(n){ if(at('S')) std::reverse(s.begin(), s.end()); else if(at('L')){ i64 v = s.front(); s.pop_front(); s.push_back(v); } else { i64 v = s.back(); s.pop_back(); s.push_front(v); } }
				topAge(ip) += 2 * n; return NONE;
			}
			case 'T': { i64 x = A(), y = A(), z = A(); P(x); P(z); P(y); return NONE; }
			case 'U': mode |= M_DIVE; return NONE;
			case 'O': mode &= ~M_DIVE; return NONE;
		}
		break;
	case fpid("DIRF"): {
		if(!cfg.filesystem) return NOTAVAIL;
		std::string d = popStr(ip).c_str();     // a path ends at its first 0
		bool exists = env->dirs.count(env->cwd + d) != 0;
		if(d.empty()) return UNSPEC;
		if(d.size() > 200 || d.find('/') != std::string::npos || d[0] == '.') throw Unmodelled("DIRF path");
		switch(c){
			case 'C': if(!exists) return UNSPEC; env->cwd += d + "/"; return NONE;
			case 'M': if(env->files.count(env->cwd + d)) return UNSPEC; if(exists) throw Unmodelled("mkdir exists"); env->dirs.insert(env->cwd + d); return NONE;
			case 'R': {
				if(!exists) return UNSPEC;
				std::string pre = env->cwd + d + "/";
				for(auto& x : env->dirs) if(x.compare(0, pre.size(), pre) == 0) return UNSPEC;
				for(auto& x : env->files) if(x.first.compare(0, pre.size(), pre) == 0) return UNSPEC;
				env->dirs.erase(env->cwd + d); return NONE;
			}
		}
		break;
	}
	case fpid("DBUG"):
		if(debug) return debug(ip, c);
		switch(c){
			case 'A': case 'W': popVec(ip); return NONE;
			case 'B': case 'D': return NONE;
		}
		throw Unmodelled("DBUG E");
	}
	throw Unmodelled("fingerprint " + fpName(fp));
}

// funge-lib: the instruction runs to completion on the caller's stack in its own space
Err Machine::execFL(IP& ip, u64 fp, int c){
	FpState& S = ip.fps[fp];
	if(S.isFL){
		Machine& d = *S.dyn;
		d.caller = &ip; ip.home = this;
		if(d.quit) throw Unmodelled("dead library");
		auto p = std::make_unique<IP>();
		p->id = 1000000 + nextId++; --nextId;
		p->hasParent = true; p->parent = ip.id;
		p->st = ip.st; p->ages = ip.ages; p->select = 0;
		if(ip.select) throw Unmodelled("selected stack in library");
		p->home = &d;
		d.setBase(*p);
		for(u64 f : d.cfg.fingerprints) d.loadFp(*p, f);
		p->pos = Pos{0, 0, c - 'A'};
		d.setDelta(*p, unit(0, 1));
		d.ips.push_back(std::move(p));
		for(u64 n = 0; !d.ips.empty(); ++n){
			if(n > 20000) throw Diverge();
			IP& q = *d.ips.front();
			if(!q.stopped) d.tick(q);
			if(d.pendingRandom) throw Unmodelled("? in library");
			auto x = std::move(d.ips.front());
			d.ips.pop_front();
			if(!x->stopped) d.ips.push_back(std::move(x));
		}
		return NONE;
	}
	IP& k = *caller;
	Machine& m = *k.home;
	auto vec = [&]{ Pos v = popVec(ip); for(int d = m.cfg.dims; d < ND; ++d) if(v[d]) throw Unmodelled("library vector outside the caller's dimensions"); return v; };
	switch(c){
		case 'B': m.reflect(k); m.next(k); m.reflect(k); return NONE;
		case 'D': m.setDelta(k, vec()); return NONE;
		case 'E': push(ip, (i64)top(ip).size()); return NONE;
		case 'F': m.next(k); return NONE;
		case 'G': push(ip, m.field.get(vec())); return NONE;
		case 'K': { i64 u = pop(ip); if(u < 0) return UNSPEC; push(ip, getS(top(ip), (u64)u + 1)); return NONE; }
		case 'L': k.pos = vec(); return NONE;
		case 'M': push(ip, m.mode >> 12); return NONE;
		case 'N': push(ip, m.field.get(k.pos + k.delta)); return NONE;
		case 'O': {
			i64 u = pop(ip);
			if(u > 1000000 || u < -1000000) throw Diverge();
			i64 n = u < 0 ? -u : u;
			std::vector<i64> t;
			for(i64 i = 0; i <= n; ++i) t.push_back(pop(ip));
			if(u < 0){ push(ip, t[0]); for(i64 i = n; i > 0; --i) push(ip, t[i]); }
			else { for(i64 i = n - 1; i >= 0; --i) push(ip, t[i]); push(ip, t[n]); }
			return NONE;
		}
		case 'P': { Pos v = vec(); i64 n = pop(ip); m.field.put(v, n); return NONE; }
		case 'Q': for(const Pos* v : {&k.pos, &k.delta, &k.storage}) for(int d = 0; d < m.cfg.dims; ++d) push(ip, (*v)[d]); return NONE;
		case 'R': m.reflect(k); return NONE;
		case 'S': k.storage = vec(); return NONE;
		case 'X': k.stopped = true; ip.stopped = true; return NONE;
	}
	return UNIMP;
}

// ---------------------------------------------------------------- ><> and *><>
Err Machine::execFish(IP& ip, int c){
	auto need = [&](size_t n){ return top(ip).size() >= n; };
	auto D = [&]{ return popD(ip); };
	auto P = [&](double d){ pushD(ip, d); };
	if(isMode(M_QUEUE) || isMode(M_INVERT)) throw Unmodelled("fish mode");
	if(c >= '0' && c <= '9'){ P(c - '0'); return NONE; }
	if(c >= 'a' && c <= 'f'){ P(c - 'a' + 10); return NONE; }
	const int dims = cfg.dims;
	switch(c){
		case ' ': return SKIP;
		case '>': setDelta(ip, unit(0, 1)); return NONE;
		case '<': setDelta(ip, unit(0, -1)); return NONE;
		case 'v': setDelta(ip, unit(1, 1)); return NONE;
		case '^': setDelta(ip, unit(1, -1)); return NONE;
		case '\\': { Pos d = ip.delta; std::swap(d[0], d[1]); setDelta(ip, d); return NONE; }
		case '/': { Pos d = ip.delta; d[0] = -ip.delta[1]; d[1] = -ip.delta[0]; setDelta(ip, d); return NONE; }
		case '|': { Pos d = ip.delta; d[0] = -d[0]; setDelta(ip, d); return NONE; }
		case '_': { Pos d = ip.delta; d[1] = -d[1]; setDelta(ip, d); return NONE; }
		case '#': { Pos d = ip.delta; d[0] = -d[0]; d[1] = -d[1]; setDelta(ip, d); return NONE; }
		case 'x': pendingRandom = true; return NONE;
		case '!': next(ip); return NONE;
		case '?': if(!need(1)) return UNSPEC; if(D() == 0) next(ip); return NONE;
		case '.': if(!need(dims)) return UNSPEC; ip.pos = popVecD(ip); return NONE;
		case '+': { if(!need(2)) return UNSPEC; double x = D(), y = D(); P(y + x); return NONE; }
		case '-': { if(!need(2)) return UNSPEC; double x = D(), y = D(); P(y - x); return NONE; }
		case '*': { if(!need(2)) return UNSPEC; double x = D(), y = D(); P(y * x); return NONE; }
		case ',': { if(!need(2)) return UNSPEC; double x = D(), y = D(); if(x == 0) return UNSPEC; P(y / x); return NONE; }
		case '%': { if(!need(2)) return UNSPEC; i64 x = toInt(D()), y = toInt(D()); if(x == 0) return UNSPEC; P(x == -1 ? 0 : (double)(y % x)); return NONE; }
		case '=': { if(!need(2)) return UNSPEC; double x = D(), y = D(); P(y == x); return NONE; }
		case ')': { if(!need(2)) return UNSPEC; double x = D(), y = D(); P(y > x); return NONE; }
		case '(': { if(!need(2)) return UNSPEC; double x = D(), y = D(); P(y < x); return NONE; }
		case '\'': case '"': ip.strMode = true; ip.strEnd = c; return NONE;
		case ':': { if(!need(1)) return UNSPEC; double x = D(); P(x); P(x); return NONE; }
		case '~': if(!need(1)) return UNSPEC; D(); return NONE;
		case '$': { if(!need(2)) return UNSPEC; double x = D(), y = D(); P(x); P(y); return NONE; }
		case '@': { if(!need(3)) return UNSPEC; double x = D(), y = D(), z = D(); P(x); P(z); P(y); return NONE; }
		case 'l': P((double)top(ip).size()); return NONE;
		case '{': case '}': case 'r': {
			Stack& s = top(ip); size_t n = s.size();
			if(n){ if(c == 'r') std::reverse(s.begin(), s.end()); else if(c == '{'){ i64 v = s.front(); s.pop_front(); s.push_back(v); } else { i64 v = s.back(); s.pop_back(); s.push_front(v); } }
			return NONE;
		}
		case '[': {
			if(!need(1)) return UNSPEC;
			double xd = D();
			if(!(xd >= 0 && xd <= 1e6)){ if(xd != xd || xd > -1) throw Unmodelled("[ operand"); return UNSPEC; }
			size_t x = (size_t)xd;
			if(top(ip).size() < x) return UNSPEC;
			Stack n(top(ip).end() - x, top(ip).end());
			top(ip).resize(top(ip).size() - x);
			size_t at = ip.st->size() - ip.select;
			ip.st->insert(ip.st->begin() + at, n);
			ip.ages->insert(ip.ages->begin() + at, 0);
			if(ip.select) throw Unmodelled("[ below selected");
			ip.regs.push_back({});
			return NONE;
		}
		case ']': {
			if(ip.select + 1 >= ip.st->size()) return UNSPEC;
			if(ip.select) throw Unmodelled("] below selected");
			Stack s = top(ip);
			ip.st->pop_back(); ip.ages->pop_back();
			ip.regs.pop_back();
			for(i64 v : s) top(ip).push_back(v);
			return NONE;
		}
		case 'o': if(!need(1)) return UNSPEC; env->out += (char)toInt(D()); return NONE;
		case 'n': {
			if(!need(1)) return UNSPEC;
			double x = D();
			if(x >= -9.2e18 && x <= 9.2e18 && x == std::floor(x)){ env->out += std::to_string((i64)x); }
			else { std::ostringstream os; os << x; env->out += os.str(); }
			return NONE;
		}
		case 'i': {
			int q;
			if(ip.fileOpen) q = !ip.fileBad && ip.filePos < ip.fileData.size() ? (unsigned char)ip.fileData[ip.filePos++] : -1;
			else q = inCh();
			P(q); return NONE;
		}
		case '&': {
			if(ip.select) throw Unmodelled("register of selected stack");
			IP::Reg& r = ip.regs.back();
			if(r.set){ r.set = false; P(r.v); }
			else { if(!need(1)) return UNSPEC; r.v = D(); r.set = true; }
			return NONE;
		}
		case 'g': { if(!need(dims)) return UNSPEC; Pos p = popVecD(ip); P((double)field.get(p + ip.storage)); return NONE; }
		case 'p': { if(!need(dims + 1)) return UNSPEC; Pos p = popVecD(ip); i64 v = toInt(D()); field.put(p + ip.storage, v); return NONE; }
		case ';': ip.stopped = true; return NONE;
		// ---- *><>
		case '`':
			if(ip.delta[1] == 0){ setDelta(ip, unit(1, ip.fisherUp ? 1 : -1)); ip.fisherUp = !ip.fisherUp; }
			else setDelta(ip, ip.fisherCache);
			return NONE;
		case 'C': {
			if(!need(dims)) return UNSPEC;
			if(ip.select) throw Unmodelled("C below selected");
			Pos here = ip.pos, to = popVecD(ip);
			Stack s;
			for(int d = 0; d < dims; ++d) s.push_back(asI((double)here[d]));
			ip.st->insert(ip.st->end() - 1, s); ip.ages->insert(ip.ages->end() - 1, 0);
			ip.regs.insert(ip.regs.end() - 1, IP::Reg());
			ip.pos = to;
			return NONE;
		}
		case 'R': {
			if(ip.select + 1 >= ip.st->size()) return UNSPEC;
			if(top(ip, 1).size() < (size_t)dims) return UNSPEC;
			if(ip.select) throw Unmodelled("R below selected");
			ip.pos = popVecD(ip, 1);
			ip.regs.erase(ip.regs.end() - 2);
			ip.st->erase(ip.st->end() - 2); ip.ages->erase(ip.ages->end() - 2);
			return NONE;
		}
		case 'u': mode |= M_DIVE; return NONE;
		case 'O': mode &= ~M_DIVE; return NONE;
		case 'I': if(ip.select > 0){ --ip.select; return NONE; } return UNSPEC;
		case 'D': if(ip.select + 1 < ip.st->size()){ ++ip.select; return NONE; } return UNSPEC;
		case 'F': {
			if(!cfg.filesystem) return NOTAVAIL;
			if(!need(1)) return UNSPEC;
			double xd = D();
			if(!(xd >= 0)){ if(xd != xd || xd > -1) throw Unmodelled("F operand"); return UNSPEC; }
			if(std::trunc(xd) > (double)top(ip).size()) return UNSPEC;
			std::string s;
			for(size_t i = 0; i < (size_t)xd; ++i) s += (char)toInt(D());
			if(!ip.fileOpen){
				std::reverse(s.begin(), s.end());
				ip.filePath = s; ip.fileOpen = true; ip.filePos = 0;
				auto it = env->files.find(env->cwd + s);
				ip.fileBad = it == env->files.end();
				ip.fileData = ip.fileBad ? "" : it->second;
			}else{
				ip.fileOpen = false;
				if(ip.filePath.empty() || ip.filePath.find('/') != std::string::npos || ip.filePath[0] == '.') throw Unmodelled("F path");
				env->files[env->cwd + ip.filePath] = s;
			}
			return NONE;
		}
		case 'S': if(!need(1)) return UNSPEC; { double x = D(); if(!(x >= 0 && x < 1e6)) throw Unmodelled("S"); } return NONE;
		case 'h': P(env->tm_hour); return NONE;
		case 'm': P(env->tm_min); return NONE;
		case 's': P(env->tm_sec); return NONE;
	}
	throw Unmodelled("fish");
}
u64 Machine::hashIP(const IP& ip) const {
	u64 h = 7;
	for(int d = 0; d < ND; ++d) h = mix(h, mix((u64)ip.pos[d], mix((u64)ip.delta[d], (u64)ip.storage[d])));
	for(auto& s : *ip.st){ h = mix(h, s.size()); for(i64 v : s) h = mix(h, (u64)v); }
	h = mix(h, ip.select); h = mix(h, ip.strMode); h = mix(h, (u64)ip.strEnd); h = mix(h, ip.strMode ? (u64)ip.strPrev : 0); h = mix(h, ip.stopped);
	for(auto& s : ip.sems) for(auto& x : s.second) if(x.k != Sem::BASE) h = mix(h, mix((u64)s.first, mix(x.fp, x.ch)));
	for(u64 f : ip.loaded) h = mix(h, f);
	for(auto& r : ip.regs) h = mix(h, mix(r.set, (u64)asI(r.v)));
	h = mix(h, ip.fisherUp); h = mix(h, ip.fileOpen); h = mix(h, ip.filePos);
	return h;
}
}
