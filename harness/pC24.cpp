// C24: the debugger.  A model of a debugging session is run with the reference machine; the whole terminal output of the
// real program under the same commands has to be the same.
#include "cli.h"
#include <sstream>
#include <list>
#include <cstring>
using namespace drv; using namespace eng; using ref::Pos; using ref::IP; using ref::Machine;
namespace {
bool T;
struct Order { bool operator()(const Pos& a, const Pos& b) const { for(int d = ref::ND - 1; d >= 0; --d) if(a[d] != b[d]) return a[d] < b[d]; return false; } };
std::string show(const Pos& p){ int n = ref::ND; while(n > 1 && p[n - 1] == 0) --n; std::string s = "("; for(int d = 0; d < n; ++d) s += (d ? ", " : "") + std::to_string(p[d]); return s + ")"; }
struct Vec { bool given = false; Pos p; };
struct Args {                                    // the rest of a command
	std::string s; size_t i = 0; bool dead = false;
	void blanks(){ while(i < s.size() && isspace((unsigned char)s[i])) ++i; }
	std::string word(){ blanks(); size_t b = i; while(i < s.size() && !isspace((unsigned char)s[i])) ++i; if(b == i) dead = true; return s.substr(b, i - b); }
	// an unsigned number; deflt if there is nothing, 0 if it is something else
	u64 number(u64 deflt){
		if(dead) return deflt;
		blanks(); if(i >= s.size()){ dead = true; return deflt; }
		bool neg = false; size_t b = i; if(s[i] == '-' || s[i] == '+') neg = s[i++] == '-';
		u64 v = 0; size_t d = i; for(; i < s.size() && isdigit((unsigned char)s[i]); ++i) v = v * 10 + (s[i] - '0');
		if(d == i){ i = b; dead = true; return 0; }
		return neg ? 0 - v : v;
	}
	Vec vec(){
		Vec r; if(dead) return r;
		blanks(); if(i >= s.size()){ dead = true; return r; }
		if(s[i] != '(') return r;
		++i; r.given = true; int d = 0; i64 v = 0; bool neg = false, any = false;
		auto put = [&]{ if(d >= ref::ND) throw ref::Unmodelled("dimensions"); r.p[d] = neg ? -v : v; };
		for(; ; ++i){
			if(i >= s.size()){ dead = true; break; }
			char c = s[i];
			if(c == ')'){ ++i; break; }
			if(isdigit((unsigned char)c)){ v = v * 10 + (c - '0'); any = true; }
			else if(c == ','){ put(); ++d; v = 0; neg = any = false; }
			else if(v == 0 && c == '-') neg = true;
			else if(!isspace((unsigned char)c)) break;
		}
		put(); (void)any;
		return r;
	}
};
struct Th { IP* ip = nullptr; std::deque<Pos> bt; char state = 0; };   // 0 start, r run, s step, b break, e end
struct Uni { Machine* m = nullptr; std::map<u64, Th> th; u64 last = 0; std::set<Pos, Order> bp, wp; };
struct Session {
	std::deque<Uni> us; ref::Env& env; std::vector<std::string> script; size_t at = 0;
	bool first = true, ended = false; u64 prompts = 0, stops = 0, maxPrompts = 400;
	std::list<std::unique_ptr<IP>> dead;
	Uni* u = nullptr; IP* cur = nullptr;                 // what commands refer to
	explicit Session(ref::Env& e) : env(e) {}
	Uni& of(Machine& m){ for(auto& x : us) if(x.m == &m) return x; throw ref::Unmodelled("universe"); }
	void add(Machine& m){
		us.emplace_back().m = &m;
		m.chooser = [](const char*) -> i64 { throw ref::Unmodelled("arbitrary value"); };
		m.onStep = [this, &m](IP& ip){ step(of(m), ip); }; m.onTrap = [this, &m](IP& ip){ stop(of(m), ip, "Exception Trapped "); };
		m.field.onWrite = [this, &m](const Pos& q, i64 v){ write(of(m), q, v); };
		m.debug = [this, &m](IP& ip, int c){ Uni& o = of(m); switch(c){
			case 'A': o.bp.insert(m.popVec(ip)); break; case 'W': o.wp.insert(m.popVec(ip)); break;
			case 'B': stop(o, ip, "Software Breakpoint "); break;
			case 'D': m.mode &= ~ref::M_DEBUG; break; case 'E': m.mode |= ref::M_DEBUG; break; }
			return ref::NONE; };
	}
	void say(const std::string& s){ env.out += s + "\n"; }
	char ch(const Pos& p){ return (char)u->m->field.get(p); }
	std::string where(const IP& ip){ return std::to_string(ip.id) + ": " + show(ip.pos) + " \"" + ch(ip.pos) + "\""; }
	void intro(Uni& o){ if(!first) return; first = false; say("Funge++ Debugger"); std::string s; for(auto& a : o.m->cfg.args) s += a + " "; say(s); }
	bool on(Uni& o){ return o.m->isMode(ref::M_DEBUG); }
	void step(Uni& o, IP& ip){
		if(!on(o)) return;
		intro(o);
		Th& t = o.th[ip.id];
		if(!t.ip || t.state == 'e'){ t = Th(); t.ip = &ip; say("New IP " + std::to_string(ip.id)); }
		o.last = ip.id;
		if(o.bp.count(ip.pos)){ say("Breakpoint " + show(ip.pos)); t.state = 'b'; }
		if(t.bt.size() >= 10) t.bt.pop_back();
		t.bt.push_front(ip.pos);
		prompt(o, ip);
	}
	void stop(Uni& o, IP& ip, const char* what){ if(!on(o)) return; intro(o); say(what + show(ip.pos)); o.th[o.last].state = 'b'; prompt(o, ip); }
	void write(Uni& o, const Pos& p, i64 v){
		if(!on(o) || !o.wp.count(p)) return;
		intro(o); say("Watchpoint " + show(p));
		i64 was = o.m->field.get(p);
		say("Old value = (" + std::to_string(was) + ") \"" + (char)was + "\""); say("New value = (" + std::to_string(v) + ") \"" + (char)v + "\"");
		auto t = o.th.find(o.last);
		if(t == o.th.end() || t->second.state == 'e') return;      // written from another universe
		t->second.state = 'b';
		prompt(o, *t->second.ip);
	}
	void gone(Uni& o, u64 id){ o.th[id].state = 'e'; }
	void grid(const Pos& c, const Pos& s, const Pos& d){
		Pos a = c + -s, b = c + s, p = a; Order less;
		for(int n = 0; !less(b, p); ){
			if(++n > 4000) throw ref::Unmodelled("large listing");
			std::string o; bool col = false;
			for(auto& t : u->th) if(t.second.state != 'e' && t.second.ip && t.second.ip->pos == p){ o += "\033[43;1m"; col = true; break; }
			if(u->bp.count(p)){ o += "\033[41;1m"; col = true; }
			if(u->wp.count(p)){ o += "\033[34;1m"; col = true; }
			if(p == c){ o += "\033[4m"; col = true; }
			if(cur && p == cur->pos){ o += "\033[42;1m"; col = true; }
			o += ch(p); if(col) o += "\033[0m";
			p[d[0]]++;
			if(p[d[0]] > b[d[0]]){ p[d[1]]++; p[d[0]] = a[d[0]]; o += "\n"; }
			env.out += o;
		}
	}
	bool plane(Args& a, Pos& s, Pos& d){
		Vec vs = a.vec(); s = vs.given ? vs.p : Pos{3, 3};
		Vec vd = a.vec(); d = vd.given ? vd.p : Pos{0, 1};
		i64 n = std::max(2, u->m->cfg.dims);
		if(d[0] == d[1] || d[0] < 0 || d[1] < 0 || d[0] >= n || d[1] >= n){ say("Error"); return false; }
		return true;
	}
	void prompt(Uni& o, IP& ip){
		u = &o; cur = &ip; bool fromEnd = false;
		if(o.th[o.last].state == 'r') return;
		say(where(ip)); ++stops;
		while(true){
			if(++prompts > maxPrompts) throw ref::Unmodelled("long session");
			env.out += "\033[33m(defunge)\033[0m ";
			Args a; if(at < script.size()) a.s = script[at++]; else { a.s = "quit"; fromEnd = true; }
			std::string c = a.word();
			auto is = [&](std::initializer_list<const char*> l){ for(auto x : l) if(c == x) return true; return false; };
			if(!cur && is({"run", "r", "continue", "con", "c", "step", "stp", "s", "peek", "p", "delta", "dir", "d", "storage", "position", "pos", "backtrace", "bt", "setdelta", "setpos", "list", "l"})){ say("No thread."); continue; }
			if(is({"run", "r", "continue", "con", "c"})){ u->th[cur->id].state = 'r'; return; }
			if(is({"step", "stp", "s"})){ u->th[cur->id].state = 's'; return; }
			if(is({"quit", "q"})){ for(auto& x : us){ x.m->quit = true; x.m->exitcode = 1; for(auto& i : x.m->ips) i->stopped = true; } ip.stopped = true; ended = fromEnd; return; }
			if(is({"peek", "p"})){
				u64 n = a.number(0);
				if(n == 0) for(size_t j = 0; j < cur->st->size(); ++j){
					auto& s = (*cur->st)[cur->st->size() - 1 - j]; std::string l = "[" + std::to_string(j) + "] ";
					for(i64 v : s) l += std::to_string(v) + " ";
					say(l);
				}else{
					u64 k = a.number(0);
					if(k >= cur->st->size()) say("Error");
					else { auto& s = (*cur->st)[cur->st->size() - 1 - k]; say(std::to_string(n > s.size() ? 0 : s[s.size() - n])); }
				}
			}
			else if(is({"delta", "dir", "d"})) say("Delta " + show(cur->delta));
			else if(is({"storage"})) say("Storage " + show(cur->storage));
			else if(is({"position", "pos"})) say(where(*cur));
			else if(is({"thread", "t"})){
				u64 k = a.number(cur ? cur->id : 0); auto f = u->th.find(k);
				if(f != u->th.end() && f->second.state != 'e') cur = f->second.ip;
				for(auto& t : u->th) if(t.second.state != 'e') say((cur && t.first == cur->id ? "* " : "  ") + where(*t.second.ip)); else say("  " + std::to_string(t.first) + ": end");
			}
			else if(is({"backtrace", "bt"})){ say("Backtrace"); int n = 0; for(auto& p : u->th[cur->id].bt) say("#" + std::to_string(n++) + "  " + show(p) + " \"" + ch(p) + "\""); }
			else if(is({"setdelta"})){ Vec v = a.vec(); if(!v.given) say("Error"); else { u->m->setDelta(*cur, v.p); say("Delta " + show(cur->delta)); } }
			else if(is({"setpos"})){ Vec v = a.vec(); if(!v.given) say("Error"); else { cur->pos = v.p; say(where(*cur)); } }
			else if(is({"get", "g"})){ Vec v = a.vec(); Pos s, d; if(plane(a, s, d)) grid(v.given ? v.p : cur ? cur->pos : Pos(), s, d); }
			else if(is({"list", "l"})){ Pos s, d; if(plane(a, s, d)) grid(cur->pos, s, d); }
			else if(is({"break", "bp"})){ Vec v = a.vec(); if(v.given) u->bp.insert(v.p); for(auto& p : u->bp) say("Breakpoint " + show(p)); }
			else if(is({"watch", "wp"})){ Vec v = a.vec(); if(v.given) u->wp.insert(v.p); for(auto& p : u->wp) say("Watchpoint " + show(p)); }
			else if(is({"read"})){ Vec v = a.vec(); i64 x = u->m->field.get(v.p); say("Value = (" + std::to_string(x) + ") \"" + (char)x + "\""); }
			else if(is({"universe", "u"})){
				std::string n = a.word();
				for(auto& x : us) if(n != "" && x.m->cfg.name == n){ u = &x; auto t = x.th.find(x.last); cur = t == x.th.end() || t->second.state == 'e' ? nullptr : t->second.ip; }
				for(auto& x : us) say((&x == u ? "* " : "  ") + x.m->cfg.name);
			}
		}
	}
};
struct Prog { const char* name; const char* text; int dims; bool std93 = false; std::vector<std::string> opts = {}; };
std::vector<Prog> progs;
// one session: options, program, commands
void session(const Prog& p, const std::vector<std::string>& script, Ctx& x, bool g = true){
	cli::Run r; r.args = p.opts; if(g) r.args.push_back("-g"); std::string file = p.name; r.args.push_back(file);
	r.files[file] = p.text; for(auto& l : script) r.input += l + "\n"; r.env = {"TZ=UTC"};
	x.log = cli::describe(r);
	ref::Env env; ref::Config cfg = p.std93 ? cfg93(2) : cfg98(p.dims); cfg.args = {file}; cfg.name = file;
	Machine m(cfg, &env); Session s(env); s.script = script;
	m.field.parse(Pos(), p.text, false, p.dims); if(g) m.mode |= ref::M_DEBUG;
	s.add(m);
	m.addIP(Pos(), Pos{1}); int ticks = 0;
	try {
		while(!m.ips.empty()){
			if(++ticks > 4000) throw ref::Unmodelled("cut");
			IP& ip = *m.ips.front();
			if(!ip.stopped) m.tick(ip);
			if(m.pendingRandom) throw ref::Unmodelled("random");
			auto q = std::move(m.ips.front()); m.ips.pop_front();
			if(!q->stopped) m.ips.push_back(std::move(q)); else s.gone(s.us[0], q->id);
			x.state(ref::mix(m.field.hash(), ref::mix(m.ips.empty() ? 0 : m.hashIP(*m.ips.front()), ref::mix(s.at, s.us[0].bp.size() * 100 + s.us[0].wp.size())))); x.add(C_TRANS);
		}
	}catch(ref::Diverge&){ x.add(C_DIVERGE); return; }
	catch(ref::Unmodelled& u){ x.note(std::string("outside model: ") + u.what()); x.add(C_UNMOD); return; }
	auto o = cli::run(r); x.add(C_TRACES);
	if(o.timeout || o.signal || o.status != (m.exitcode & 255) || o.out != env.out)
		x.fail("got " + o.str() + "\n  expected status " + std::to_string(m.exitcode & 255) + ", output \"" + quote(env.out.substr(0, 4000)) + "\"\n  got output \"" + quote(o.out.substr(0, 4000)) + "\"");
}
// The listing of the universes has no order: sort each one.
std::string ordered(const std::string& out, const std::set<std::string>& names){
	std::string r, rest = out; const std::string pr = "\033[33m(defunge)\033[0m ";
	while(true){
		size_t e = rest.find(pr); std::string seg = rest.substr(0, e); 
		std::vector<std::string> ls; std::istringstream is(seg); std::string l; bool all = true;
		while(std::getline(is, l)){ if(l.size() < 2 || (l[0] != '*' && l[0] != ' ') || l[1] != ' ' || !names.count(l.substr(2))) all = false; ls.push_back(l); }
		// what follows the listing is the next prompt, or the next stop
		if(all && ls.size() > 1){ std::sort(ls.begin(), ls.end()); seg.clear(); for(auto& q : ls) seg += q + "\n"; }
		r += seg; if(e == std::string::npos) break;
		r += pr; rest = rest.substr(e + pr.size());
	}
	return r;
}
// IPs that travel between universes while the first is being debugged
void travels(const std::string& text, const std::vector<std::string>& script, Ctx& x){
	cli::Run r; r.args = {"-g", "a"}; r.files["a"] = text; for(auto& l : script) r.input += l + "\n"; r.env = {"TZ=UTC"};
	x.log = cli::describe(r);
	ref::Env env; std::deque<Machine> ms; Session s(env); s.script = script;
	ref::Config cfg = cfg98(2); cfg.args = {"a"}; cfg.name = "a";
	auto make = [&](const ref::Config& c, const std::string& base) -> Machine& {
		std::string name = base; auto used = [&]{ for(auto& m : ms) if(m.cfg.name == name) return true; return false; };
		for(int k = 1; used(); ++k) name = base + "." + std::to_string(k);
		ms.emplace_back(c, &env); ms.back().cfg.name = name; s.add(ms.back()); return ms.back();
	};
	Machine& a = make(cfg, "a"); a.field.parse(Pos(), text, false, 2); a.mode |= ref::M_DEBUG;
	IP* moving = nullptr; Machine* to = nullptr;
	env.mvrs = [&](Machine& m, IP& ip, int c) -> ref::Err {
		switch(c){
			case 'C': m.push(ip, ms.size()); return ref::NONE;
			case 'N': m.pushStr(ip, m.cfg.name); return ref::NONE;
			case 'B': {
				i64 dim = m.pop(ip), lng = m.pop(ip), fl = m.pop(ip); std::string n = m.popStr(ip);
				if(dim || lng) throw ref::Unmodelled("universe");
				if(fl == 0) fl = m.mode; else if(fl & 0x1ff) return ref::UNSPEC;
				make(m.cfg, n).mode = fl; return ref::NONE;
			}
			case 'J': {
				std::string n = m.popStr(ip); Machine* o = nullptr; for(auto& q : ms) if(q.cfg.name == n) o = &q;
				if(!o) return ref::UNSPEC;
				if(o != &m){ moving = &ip; to = o; ip.home = o; }
				o->next(ip); return ref::BLOCK;
			}
			case 'F': case 'P': {
				Pos size = m.popVec(ip), src, dst;
				if(c == 'F'){ src = m.popVec(ip, 3); dst = m.popVec(ip); }else{ src = m.popVec(ip); dst = m.popVec(ip, 3); }
				std::string n = m.popStr(ip); Machine* o = nullptr; for(auto& q : ms) if(q.cfg.name == n) o = &q;
				if(!o) return ref::UNSPEC;
				Machine& f = c == 'F' ? *o : m; Machine& t = c == 'F' ? m : *o;
				for(int d = 0; d < ref::ND; ++d) if(size[d] < 0 || size[d] > 200) throw ref::Unmodelled("size");
				for(i64 y = 0; y <= size[1]; ++y) for(i64 q = 0; q <= size[0]; ++q) t.field.put(dst + Pos{q, y}, f.field.get(src + Pos{q, y}));
				return ref::NONE;
			}
		}
		throw ref::Unmodelled("universe");
	};
	a.addIP(Pos(), Pos{1}); u64 nextId = 1; int ticks = 0;
	try {
		for(bool any = true; any; ){
			any = false;
			for(size_t k = 0; k < ms.size(); ++k){
				Machine& m = ms[k]; if(m.ips.empty()) continue;
				any = true; if(++ticks > 2000) throw ref::Unmodelled("cut");
				IP& ip = *m.ips.front(); moving = nullptr; m.nextId = nextId;
				if(!ip.stopped) m.tick(ip);
				nextId = m.nextId;
				for(auto i = m.ips.begin(); i != m.ips.end(); ++i) if(i->get() == &ip){
					auto q = std::move(*i); m.ips.erase(i); Uni& o = s.of(m);
					if(moving == q.get()){ s.gone(o, q->id); to->ips.push_back(std::move(q)); }
					else if(!q->stopped) m.ips.push_back(std::move(q));
					else { s.gone(o, q->id); if(s.cur == q.get()) s.cur = nullptr; s.dead.push_back(std::move(q)); }
					break;
				}
				x.state(ref::mix(m.field.hash(), ref::mix(k, ref::mix(m.ips.empty() ? 0 : m.hashIP(*m.ips.front()), s.at)))); x.add(C_TRANS);
			}
		}
	}catch(ref::Diverge&){ x.add(C_DIVERGE); return; }
	catch(ref::Unmodelled& u){ x.note(std::string("outside model: ") + u.what()); x.add(C_UNMOD); return; }
	auto o = cli::run(r); x.add(C_TRACES);
	std::set<std::string> names; for(auto& m : ms) names.insert(m.cfg.name);
	std::string got = ordered(o.out, names), want = ordered(env.out, names);
	if(o.timeout || o.signal || o.status != (a.exitcode & 255) || got != want)
		x.fail("got " + o.str() + "\n  expected status " + std::to_string(a.exitcode & 255) + ", output \"" + quote(want.substr(0, 4000)) + "\"\n  got output \"" + quote(got.substr(0, 4000)) + "\"");
}
Family fam(const char* n, const char* w, u64 total, std::function<void(u64, Ctx&)> f){ Family q; q.name = n; q.what = w; q.total = total; q.run = f; q.recycle = 1000; return q; }
}
void eng::families(std::vector<Family>& out){
	T = thorough();
	progs = {
		{"a.b98", "12+.@\nz\n", 2}, {"b.b98", "v z\n>1 2;x;\"a b\"@\n", 2}, {"c.b98", "#vt30p1.@\n z\n @\n", 2}, {"d.b98", "5Zk@$q\nz\n", 2},
		{"e.b98", "1{03p}'x10p@\nz\n", 2}, {"f.b98", "0v\n.>:3`#@_1+v\n ^       <\n", 2}, {"g.b98", "tt@\nz\n", 2},
		{"h.b98", "\"GUBD\"4(D1.E2.B03AzWz@\nz\n", 2}, {"i.b98", "\"GUBD\"4(02W1702p12p@\n\nz\n", 2}, {"j.b98", "12 3 .@", 1}, {"k.b98", "1h.@\n\fz\n", 3}, {"l.b98", "  (1.@\nz\n", 2},
		{"m.bf", "12+.v\n    @\n", 2, true, {"-std=be93"}}, {"n.b98", "2k.\\3k:3jzzz3q\nz\n", 2}, {"o.b98", "#@12{3u2}n.@\nz\n", 2},
	};
	static std::vector<std::string> cmds = {"s", "c", "q", "p", "p 1", "p 2 1", "d", "storage", "pos", "t", "t 1", "t 0", "bt", "bp (3)", "bp (1,1)", "wp (3)", "wp (0,2)", "l", "g (0,0) (2,1)", "read (1)", "setpos (2)", "setpos (1,1)", "setdelta (0,1)", "setdelta (-1)", "u", ""};
	static std::vector<std::string> odd = {"nonsense", "p x", "p -1", "p 99", "p 1 99", "t 99", "t x", "bp", "bp 1", "wp (", "g", "g (1", "g (0,0)", "g (0,0) (1,1) (1,0)", "g (0,0) (1,1) (0,0)", "g (0,0) (1,1) (-1,0)", "g (0,0) (1,1) (9,0)", "g (0,0) (-1,-1)", "l (1,0)", "l (0,1)", "l (1,1) (1,0)", "l (2,2) (1,1)", "read", "read (1,1,1)", "setpos", "setdelta", "setpos (-3,-3)", "setdelta (0,0)", "u x", "run", "continue", "con", "r", "step", "stp", "peek", "peek 2", "dir", "delta", "position", "thread", "thread 1", "backtrace", "break (2)", "watch (1)", "get (1,0) (1,0)", "list", "universe", "quit", " s", "s s", "s\tx"};
	{
		static int n = T ? 3 : 2; u64 tot = progs.size(); for(int k = 0; k < n; ++k) tot *= cmds.size();
		out.push_back(fam("sessions", "every sequence of bounded length of commands on every program, then run to the end with step or continue", tot * 2, [](u64 i, Ctx& x){ Mixed m(i); const Prog& p = pick(m, progs); std::vector<std::string> s; for(int k = 0; k < n; ++k) s.push_back(pick(m, cmds)); bool st = m.take(2); for(int k = 0; k < 30; ++k) s.push_back(st ? "s" : "c"); session(p, s, x); }));
	}
	out.push_back(fam("inspection", "every inspecting, setting or malformed command at every step of every program, followed by steps", progs.size() * 24 * (cmds.size() + odd.size()), [](u64 i, Ctx& x){ Mixed m(i); const Prog& p = pick(m, progs); int at = m.take(24); size_t c = m.take(cmds.size() + odd.size()); std::vector<std::string> s(at, "s"); s.push_back(c < cmds.size() ? cmds[c] : odd[c - cmds.size()]); for(int k = 0; k < 3; ++k) s.push_back("s"); s.push_back("p"); for(int k = 0; k < 10; ++k) s.push_back("c"); session(p, s, x); }));
	out.push_back(fam("breakpoints", "a breakpoint, a watchpoint or both on every cell near every program, set at the start or after some steps, then continue, or step, at each stop", progs.size() * 14 * 5 * 3 * 3 * 2, [](u64 i, Ctx& x){ Mixed m(i); const Prog& p = pick(m, progs); int cx = (int)m.take(14) - 1, cy = (int)m.take(5) - 1, kind = m.take(3), at = m.take(3) * 2; bool st = m.take(2); std::string v = "(" + std::to_string(cx) + ", " + std::to_string(cy) + ")"; std::vector<std::string> s(at, "s"); if(kind != 1) s.push_back("bp " + v); if(kind != 0) s.push_back("wp " + v); for(int k = 0; k < 24; ++k){ s.push_back(st ? "s" : "c"); if(k < 3){ s.push_back("bt"); s.push_back("p"); s.push_back("l (1,1)"); } } session(p, s, x); }));
	{
		static const std::string al = "(,)1-x "; static int n = T ? 6 : 4; u64 tot = 1; for(int k = 0; k < n; ++k) tot *= al.size();
		out.push_back(fam("vectors", "every short text as the argument of a command", tot, [](u64 i, Ctx& x){ std::string t; for(int k = 0; k < n; ++k){ t += al[i % al.size()]; i /= al.size(); } session(progs[0], {"bp " + t, "wp " + t, "read " + t, "g " + t, "p " + t, "s", "setpos " + t, "pos", "setdelta " + t, "d", "s", "q"}, x); }));
	}
	{   // an IP that has ended, one that has been split off
		static const std::vector<std::string> c = {"s", "c", "t", "t 0", "t 1", "t 2", "l", "p", "bt", "pos"}; static int n = T ? 5 : 4; u64 tot = 3; for(int k = 0; k < n; ++k) tot *= c.size();
		out.push_back(fam("threads", "every sequence of bounded length of commands that look at, switch to or run IPs, after they were split off or ended", tot, [](u64 i, Ctx& x){ Mixed m(i); const Prog& p = progs[m.take(3) == 0 ? 2 : i % 2 ? 6 : 2]; static const int skip[] = {3, 6, 9}; std::vector<std::string> s(skip[i % 3], "s"); for(int k = 0; k < n; ++k) s.push_back(pick(m, c)); for(int k = 0; k < 12; ++k) s.push_back("s"); session(p, s, x); }));
	}
	{
		static const std::string head = "\"SRVM\"4($$0\"u\"", copy = "000B0\"u\"00000\"d\"1P";
		static std::vector<std::pair<std::string, int>> ps;      // text, where the travelling begins
		for(const char* fl : {"0", "88*88**28**", "88*88**28**88*28**+"}) for(const char* body : {
			"0\"u\"J12z0\"a\"J3.@", "0\"u\"J1z.@", "0\"u\"J0\"a\"J0\"u\"J5.@", "\"GUBD\"4($$0\"u\"J04AB5z12W0\"a\"J703p2.@", "\"GUBD\"4($$E0\"u\"JE70\"a\"JD2.@",
			"0\"u\"J0\"a\"00001010F$1z0\"a\"J2.@", "0\"u\"000100010P5z0\"u\"00071001P.@", "#vtzzzzzzzzzz5.@", "0\"u\"J#vtz0\"a\"Jz.@", "0\"q\"000B0\"q\"J", "0\"u\"Jq", "0\"u\"J3z@" })
			{ if(strstr(body, "#v") && strlen(fl) != 12) continue;      // two IPs at the prompt in two universes come in any order
			std::string f = fl, h = head + f + "00B0\"u\"00000\"d\"2P"; ps.push_back({h + body + "\n" + std::string(h.size(), ' ') + (body[0] == '#' ? " >0\"u\"Jzz@" : body[4] == '#' || body[5] == '#' ? "       >zz@" : "z") + "\n", (int)h.size()}); }
		static const std::vector<std::string> c = {"u", "u u", "u a", "u x", "t", "t 0", "t 1", "bp (%3)", "wp (0,3)", "wp (7)", "read (3)", "g (1,1) (2,1)", "l", "p", "s", "c", "bt", "setpos (%1)"}, few = {"u a", "u u", "t", "s", "wp (7)", "c"};
		u64 tot = ps.size() * 16 * c.size() * few.size() * (T ? c.size() * 2 : 1);
		out.push_back(fam("universes", "IPs that travel to another universe, debugged or not, and back, or write to its cells: every sequence of bounded length of commands at each stop of the journey", tot, [](u64 i, Ctx& x){
			Mixed m(i); auto& p = pick(m, ps); int at = m.take(16); std::vector<std::string> s{"bp (" + std::to_string(p.second) + ")", "c"};
			for(int k = 0; k < at; ++k) s.push_back("s");
			std::vector<std::string> mid{pick(m, c), pick(m, few)}; int rest = 0; if(T){ mid.insert(mid.begin() + 1, pick(m, c)); rest = m.take(2); }
			for(auto q : mid){ size_t e = q.find('%'); if(e != std::string::npos) q = q.substr(0, e) + std::to_string(p.second + at + (q[e + 1] - '0')) + ")"; s.push_back(q); }
			for(int k = 0; k < 30; ++k) s.push_back(k % 2 || rest ? "s" : "t");
			s.push_back("u a"); for(int k = 0; k < 20; ++k) s.push_back("c");
			travels(p.first, s, x); }));
	}
	out.push_back(fam("without", "the same programs without the debugger, with DBUG switching it on", progs.size(), [](u64 i, Ctx& x){ session(progs[i], {"s", "l", "bt", "t", "c", "c", "c"}, x, false); }));
}
