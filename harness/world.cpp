#include "world.h"
#include <unordered_set>
namespace world {
using namespace ref;
struct World {
	Env env;
	struct U { std::string name; std::unique_ptr<Machine> m; };
	std::vector<U> us;
	const Spec& spec;
	u64 nextId = 0; size_t started = 0;
	IP* moving = nullptr; Machine* from = nullptr; Machine* to = nullptr;
	Machine* byName(const std::string& n){ for(auto& u : us) if(u.name == n) return u.m.get(); return nullptr; }
	Machine* make(std::string name, const Config& c){
		std::string base = name; for(int k = 1; byName(name); ++k) name = base + "." + std::to_string(k);
		us.push_back({name, std::make_unique<Machine>(c, &env)});
		us.back().m->cfg.name = name;
		us.back().m->chooser = [this](const char* what) -> i64 { if(what == std::string("refc")) return (i64)env.refs.size() + 1; throw Unmodelled("arbitrary value"); };
		return us.back().m.get();
	}
	explicit World(const Spec& s) : spec(s) {
		env.in = s.input;
		env.mvrs = [this](Machine& m, IP& ip, int c){ return mvrs(m, ip, c); };
		us.reserve(64);
		for(auto& u : s.universes){
			Machine* m = make(u.name, u.cfg);
			m->field.parse(Pos(), u.text, false, u.cfg.dims);
		}
	}
	Err mvrs(Machine& m, IP& ip, int c){
		switch(c){
			case 'C': m.push(ip, us.size()); return NONE;
			case 'N': m.pushStr(ip, m.cfg.name); return NONE;
			case 'B': {
				i64 dim = m.pop(ip), lng = m.pop(ip), fl = m.pop(ip); std::string n = m.popStr(ip);
				if(dim < 0 || dim > 7) throw Unmodelled("dimensions");
				if(fl == 0) fl = m.mode; else if(fl & 0x1ff) return UNSPEC;
				if(lng < 0 || lng > 2) return UNSPEC;
				Config k; k.dims = dim ? dim : m.cfg.dims; k.std = lng == 0 ? m.cfg.std : lng == 1 ? S93 : S98;
				k.concurrent = m.cfg.concurrent; k.execute = m.cfg.execute; k.filesystem = m.cfg.filesystem; k.fingerprint = m.cfg.fingerprint;
				make(n, k)->mode = fl;
				return NONE;
			}
			case 'G': case 'J': {
				Pos delta, pos;
				if(c == 'G'){ delta = m.popVec(ip, 3); pos = m.popVec(ip, 3); }
				Machine* o = byName(m.popStr(ip));
				if(!o) return UNSPEC;
				if(o != &m){ if(m.quit) throw Unmodelled("out of a killed universe"); if(o->quit) throw Unmodelled("into a killed universe"); moving = &ip; from = &m; to = o; ip.home = o; }
				if(c == 'G'){ ip.pos = pos; ip.delta = delta; }
				o->next(ip);
				return BLOCK;
			}
			case 'F': case 'P': {
				Pos size = m.popVec(ip), src, dst;
				if(c == 'F'){ src = m.popVec(ip, 3); dst = m.popVec(ip); }else{ src = m.popVec(ip); dst = m.popVec(ip, 3); }
				Machine* o = byName(m.popStr(ip));
				if(!o) return UNSPEC;
				Machine& a = c == 'F' ? *o : m; Machine& b = c == 'F' ? m : *o;
				for(int d = 0; d < ND; ++d) if(size[d] < 0 || size[d] > 500) throw Unmodelled("size");
				if(m.cfg.dims > 2) throw Unmodelled("size");
				for(i64 y = 0; y <= size[1]; ++y) for(i64 x = 0; x <= size[0]; ++x) b.field.put(dst + Pos{x, y}, a.field.get(src + Pos{x, y}));
				return NONE;
			}
		}
		return UNIMP;
	}
	void reap(){ for(auto& u : us) for(auto i = u.m->ips.begin(); i != u.m->ips.end(); ) if((*i)->stopped) i = u.m->ips.erase(i); else ++i; }
	// the ticks that can come next
	std::vector<std::pair<int, u64>> choices(){
		std::vector<std::pair<int, u64>> r;
		if(started < spec.universes.size()) r.push_back({-1, 0});      // the universes' first IPs start one after the other
		for(int k = 0; k < (int)us.size(); ++k){
			Machine& m = *us[k].m;
			if(m.quit || m.ips.empty()) continue;
			if(spec.native) for(auto& p : m.ips) r.push_back({k, p->id});
			else r.push_back({k, m.ips.front()->id});
		}
		return r;
	}
	void step(std::pair<int, u64> c){
		if(c.first < 0){ Machine& m = *us[started++].m; m.nextId = nextId; m.addIP(Pos(), Pos{1}); nextId = m.nextId; return; }
		Machine& m = *us[c.first].m;
		IP* ip = m.find(c.second);
		if(!ip) throw Unmodelled("replay");
		moving = nullptr;
		m.nextId = nextId;
		m.tick(*ip);
		nextId = m.nextId;
		if(m.pendingRandom) throw Unmodelled("random");
		for(auto i = m.ips.begin(); i != m.ips.end(); ++i) if(i->get() == ip){
			auto p = std::move(*i); m.ips.erase(i);
			if(moving == ip) to->ips.push_back(std::move(p));
			else if(!p->stopped) m.ips.push_back(std::move(p));
			break;
		}
		reap();
	}
	u64 hash(){
		u64 h = mix(3, started);
		for(auto& u : us){
			h = mix(h, 1000003); h = mix(h, u.m->quit); h = mix(h, u.m->exitcode); h = mix(h, u.m->mode); h = mix(h, u.m->field.hash());
			for(auto& p : u.m->ips){
				u64 g = mix(u.m->hashIP(*p), p->id);
				for(auto& f : p->fps) if(f.second.dormant){       // only then the ages matter, and only whether they are those it fell asleep at
					g = mix(g, 77); if(p->ages) for(u64 a : *p->ages) g = mix(g, a - f.second.sage);
				}
				if(spec.native) h += g * 0x9E3779B97F4A7C15ull; else h = mix(h, g);
			}
		}
		for(unsigned char c : env.out) h = mix(h, c);
		for(auto& r : env.refs){ h = mix(h, r.first); for(i64 x : r.second.v) h = mix(h, x); }
		return mix(h, env.inPos);
	}
};
std::string Outcomes::str() const {
	std::string s; int n = 0;
	for(auto& o : set){ if(++n > 12){ s += " ..."; break; } s += " \""; for(char c : o.first) if(c == '\n') s += "\\n"; else s += c; s += "\"/" + std::to_string(o.second); }
	return s;
}
Outcomes enumerate(const Spec& s){
	Outcomes r; std::unordered_set<u64> seen;
	std::vector<std::vector<std::pair<int, u64>>> work{{}};
	try {
		while(!work.empty()){
			auto path = std::move(work.back()); work.pop_back();
			World w(s);
			for(auto& c : path) w.step(c);
			while(true){
				if((int)path.size() > s.maxTicks) throw Unmodelled("too long");
				if(!seen.insert(w.hash()).second) break;
				if(seen.size() > s.maxStates) throw Unmodelled("too many states");
				auto c = w.choices();
				if(c.empty()){ r.set.insert({w.env.out, w.us[0].m->exitcode & 255}); break; }
				for(size_t k = 1; k < c.size(); ++k){ auto n = path; n.push_back(c[k]); work.push_back(std::move(n)); }
				path.push_back(c[0]); w.step(c[0]); ++r.transitions;
			}
		}
	}catch(Diverge&){ r.unknown = true; r.why = "diverges"; }
	catch(Unmodelled& u){ r.unknown = true; r.why = u.what(); }
	r.states = seen.size();
	return r;
}
}
