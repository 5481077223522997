#include "drive.h"
#include "FungeUniverse.h"
#include "FungeRunner.h"
#include "FungeMultiverse.h"
#include "FungeConfig.h"
#include <cassert>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <pthread.h>
#include <sstream>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <filesystem>
#include <unistd.h>

using namespace ref;
namespace drv {
const std::vector<i64> EDGE = {0, 1, -1, 2, -2, 3, 7, -7, 10, 31, 32, 33, 63, 64, 127, 128, 255, 256, -128, -129, 65535, 65536, INT32_MAX, (i64)INT32_MAX + 1, INT32_MIN, (i64)INT32_MIN - 1, (i64)UINT32_MAX, (i64)UINT32_MAX + 1, 3037000500ll, -3037000500ll, 1000000000000000003ll, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1};

// ------------------------------------------------------------------ process environment
static bool fakeThreads = false; static int realThreads = 0; static bool fakeTime = true;
static Env* gEnv = nullptr;
static std::vector<std::string> gSystems; static int gSystemRet = 0;
static bool inCase = false;
static pthread_t mainThread;
static int inFd = -1, outFd = -1, rootFd = -1; static std::string scratch;
}
using namespace drv;
static bool cliMode(){ static int k = -1; if(k < 0) k = getenv("VERIF_CLI") != nullptr; return k; }
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x){
	static auto real = (int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
	if(fakeThreads){ *t = (pthread_t)0x5151; return 0; }
	++realThreads;
	return real(t, a, f, x);
}
int pthread_join(pthread_t t, void** r){
	static auto real = (int(*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
	if(t == (pthread_t)0x5151){ if(r) *r = nullptr; return 0; }
	return real(t, r);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m){
	static auto real = (int(*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
	if(inCase && realThreads == 0 && pthread_equal(pthread_self(), mainThread)) _exit(9);       // nobody can ever wake it
	return real(c, m);
}
int system(const char* cmd){
	if(const char* e = getenv("VERIF_CLI")){ if(cmd && write(77, cmd, strlen(cmd) + 1) < 0){} return atoi(e); }
	gSystems.push_back(cmd ? ref::shellWords(cmd) : "(null)");
	return gSystemRet;
}
time_t time(time_t* t){
	time_t r;
	if(inCase && fakeTime && gEnv) r = gEnv->now; else if(cliMode()) r = 1234567890; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
	if(t) *t = r;
	return r;
}
int clock_gettime(clockid_t c, struct timespec* ts){
	if(c == CLOCK_REALTIME && cliMode()){ ts->tv_sec = 1234567890; ts->tv_nsec = 0; return 0; }
	if(inCase && fakeTime && gEnv){ ts->tv_sec = gEnv->now; ts->tv_nsec = gEnv->nowNs; return 0; }
	return syscall(SYS_clock_gettime, c, ts);
}
int nanosleep(const struct timespec* a, struct timespec* b){
	if(inCase && pthread_equal(pthread_self(), mainThread)) return 0;
	return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b){
	if(inCase && pthread_equal(pthread_self(), mainThread)) return 0;
	return syscall(SYS_clock_nanosleep, c, f, a, b);
}
}

namespace eng {
void workerInit(int slot){
	mainThread = pthread_self();
	setenv("TZ", "UTC", 1); tzset();
	int n = memfd_create("in", 0); inFd = fcntl(n, F_DUPFD_CLOEXEC, 120); dup2(n, 0); close(n);
	n = memfd_create("out", 0); outFd = fcntl(n, F_DUPFD_CLOEXEC, 120); dup2(n, 1); close(n);
	if(!getenv("VERIF_STDERR")){ n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
	scratch = "/tmp/vscr." + std::to_string(getpid()) + "." + std::to_string(slot);
	mkdir(scratch.c_str(), 0700);
	if(chdir(scratch.c_str())){}
	n = open(".", O_RDONLY); rootFd = fcntl(n, F_DUPFD_CLOEXEC, 120); close(n);
}
void workerExit(){
	if(chdir("/")){}
	if(scratch.compare(0, 10, "/tmp/vscr.") == 0){ std::error_code ec; std::filesystem::remove_all(scratch, ec); }
}
}

namespace drv {
ref::Config cfg98(int dims){ ref::Config c; c.dims = dims; c.args = {"prog"}; c.name = "prog"; return c; }
ref::Config cfg93(int dims){ ref::Config c; c.std = S93; c.dims = dims; c.topo = TORUS; c.strs = MULTI; c.charCells = true; c.args = {"prog"}; c.name = "prog"; return c; }
ref::Config cfgFish(bool star){ ref::Config c; c.std = star ? STARFISH : FISH; c.dims = 2; c.strs = MULTI; c.args = {"prog"}; c.name = "prog"; return c; }
std::string fingDir(){
	static std::string d = std::filesystem::canonical("/proc/self/exe").parent_path().parent_path().string() + "/fing";
	return d;
}
const std::string* fungelibText(const std::string& name){
	static std::map<std::string, std::unique_ptr<std::string>> cache;
	auto f = cache.find(name);
	if(f == cache.end()){
		std::unique_ptr<std::string> t;
		if(!name.empty() && name.find('/') == std::string::npos && name.find('\0') == std::string::npos){
			std::string p = fingDir() + "/" + name + ".fl";
			struct stat st;
			if(stat(p.c_str(), &st) == 0){ std::ifstream is(p); std::stringstream ss; ss << is.rdbuf(); t.reset(new std::string(ss.str())); }
		}
		f = cache.emplace(name, std::move(t)).first;
	}
	return f->second.get();
}
std::vector<std::string> letters(const std::string& s){ std::vector<std::string> r; for(char c : s) r.push_back(std::string(1, c)); return r; }
void sequences(std::vector<eng::Family>& out, const char* name, const char* what, const std::vector<std::string>& tokens, int n, const Case& base, const std::vector<std::vector<i64>>& stacks, const char* pre, const char* post, unsigned recycle){
	eng::Family f; f.name = name; f.what = what; f.recycle = recycle;
	f.total = stacks.size(); for(int k = 0; k < n; ++k) f.total *= tokens.size();
	std::string a = pre, b = post;
	f.run = [=](u64 i, eng::Ctx& x){ Mixed m(i); Case c = base; c.stack = pick(m, stacks); c.text = a; for(int k = 0; k < n; ++k) c.text += pick(m, tokens); c.text += b; run(c, x); };
	out.push_back(f);
}
void products(std::vector<eng::Family>& out, const char* name, const char* what, const std::vector<std::string>& ops, int nArgs, const std::vector<i64>& values, const Case& base, const char* post, unsigned recycle){
	eng::Family f; f.name = name; f.what = what; f.recycle = recycle;
	f.total = ops.size(); for(int k = 0; k < nArgs; ++k) f.total *= values.size();
	std::string b = post;
	f.run = [=](u64 i, eng::Ctx& x){ Mixed m(i); Case c = base; c.text = pick(m, ops) + b; for(int k = 0; k < nArgs; ++k) c.stack.push_back(pick(m, values)); run(c, x); };
	out.push_back(f);
}
static Funge::Vector V(const Pos& p){ Funge::Vector v{p[0]}; for(int i = 1; i < ND; ++i) if(p[i]) v.set(i, p[i]); return v; }
static bool P(const Funge::Vector& v, Pos& p){ for(int i = 0; i < ND; ++i) p[i] = v.get(i); for(size_t i = ND; i < v.size(); ++i) if(v.get(i)) return false; return true; }
static std::string vs(const Funge::Vector& v){ Pos p; return P(v, p) ? p.str() : "(too many dimensions)"; }

void poke(Machine& m, Funge::FungeUniverse& u, const Pos& p, i64 v){ m.field.put(p, v); u.getField().put(V(p), v); }
std::string describe(const Case& c){
	std::ostringstream o;
	const char* st = c.cfg.std == S93 ? "93" : c.cfg.std == S98 ? "98" : c.cfg.std == FISH ? "fish" : "starfish";
	o << (c.label.empty() ? "" : c.label + ": ") << "std=" << st << " dims=" << c.cfg.dims << (c.cfg.topo == TORUS ? " torus" : "") << (c.cfg.strs == MULTI ? " multispace" : c.cfg.strs == CSTR ? " cstrings" : "") << (c.cfg.charCells ? " charcells" : "");
	if(!c.cfg.concurrent) o << " -fno-concurrent";
	if(!c.cfg.execute) o << " -fno-execute";
	if(!c.cfg.filesystem) o << " -fno-filesystem";
	for(u64 f : c.cfg.fingerprints) o << " -l" << eng::quote(Machine::fpName(f));
	if(c.cfg.inverthl) o << " -finvert-hl";
	o << " text=\"" << eng::quote(c.text) << "\"";
	if(!c.cells.empty()){ o << " cells={"; for(size_t i = 0; i < c.cells.size() && i < 40; ++i) o << c.cells[i].first.str() << "=" << c.cells[i].second << " "; o << "}"; }
	o << " pos=" << c.pos.str() << " delta=" << c.delta.str();
	if(c.storage != Pos()) o << " storage=" << c.storage.str();
	if(c.mode) o << " mode=" << std::hex << c.mode << std::dec;
	if(!c.stack.empty()){ o << " stack=["; for(size_t i = 0; i < c.stack.size(); ++i) o << (i ? " " : "") << c.stack[i]; o << "]"; }
	for(auto& b : c.below){ o << " below=["; for(i64 v : b) o << v << " "; o << "]"; }
	if(!c.input.empty()) o << " input=\"" << eng::quote(c.input) << "\"";
	if(c.now != 1234567890) o << " time=" << c.now;
	for(auto& f : c.files) o << " file " << f.first << "=\"" << eng::quote(f.second.substr(0, 200)) << "\"";
	for(auto& d : c.dirs) o << " dir " << d;
	return o.str();
}

struct Stop {};
struct Lock {
	const Case* c; eng::Ctx* ctx; Funge::FungeUniverse* uni = nullptr; Machine m; Env env; Result r;
	bool active = false; size_t lastId = 0; bool done = false;
	std::vector<Pos> realTouched; bool bigTouch = false;
	std::vector<std::string> trace;
	Lock(const Case& cc, eng::Ctx& x) : c(&cc), ctx(&x), m(cc.cfg, nullptr) { m.env = &env; }
	void bad(const std::string& s){
		std::string t = s + "\n  case: " + describe(*c);
		if(!trace.empty()){ t += "\n  last steps (reference):"; for(size_t i = trace.size() > 12 ? trace.size() - 12 : 0; i < trace.size(); ++i) t += "\n    " + trace[i]; }
		ctx->fail(t); throw Stop();
	}
	std::string ipStr(const IP& ip){
		std::ostringstream o; o << "ip" << ip.id << " pos" << ip.pos.str() << " delta" << ip.delta.str() << " [";
		auto& s = ip.st->back(); for(size_t i = s.size() > 10 ? s.size() - 10 : 0; i < s.size(); ++i) o << (i ? " " : "") << s[i];
		o << "]"; if(ip.st->size() > 1) o << " stacks=" << ip.st->size(); if(ip.stopped) o << " stopped"; return o.str();
	}
	void compareIP(const IP& ip);
	void compareWorld();
	int chosen = 0;
	void onTick(Funge::FungeRunner* self);
	void finish();
	void compareAll();
	void adoptLoaded();
	void freeTick(Funge::FungeRunner* self);
	int free = -1; size_t freeId = 0;
};
static Lock* L = nullptr;
static const i64 PLACEHOLDER = 0x7ABCDEF012345678ll;

void Lock::compareIP(const IP& ip){
	Funge::FungeRunner* r = uni->getRunner(ip.id);
	if(!r && ip.stopped) return;                      // nothing of a stopped IP can be observed
	if(!r) bad("IP " + std::to_string(ip.id) + " no longer belongs to the universe");
	auto& real = r->getIP();
	Pos p;
	if(real.isStopped() != ip.stopped) bad(std::string("IP is ") + (real.isStopped() ? "stopped" : "running") + ", expected " + (ip.stopped ? "stopped" : "running"));
	if(ip.stopped) return;
	{
		if(!P(real.getPos(), p) || p != ip.pos) bad("position " + vs(real.getPos()) + ", expected " + ip.pos.str());
		if(!P(real.getDelta(), p) || p != ip.delta) bad("delta " + vs(real.getDelta()) + ", expected " + ip.delta.str());
		if(!P(real.getStorage(), p) || p != ip.storage) bad("storage offset " + vs(real.getStorage()) + ", expected " + ip.storage.str());
	}
	auto& ss = r->getStack();
	if(ss.size() != ip.st->size()) bad("stack-stack has " + std::to_string(ss.size()) + " stacks, expected " + std::to_string(ip.st->size()));
	if(&ss.top() != &ss.at(ip.select)) bad("a different stack is selected");
	for(size_t n = 0; n < ss.size(); ++n){
		auto& s = ss.at(n); auto& e = (*ip.st)[ip.st->size() - 1 - n];
		if(s.size() != e.size()) bad("stack " + std::to_string(n) + " holds " + std::to_string(s.size()) + " cells, expected " + std::to_string(e.size()));
		size_t z = e.size();
		for(size_t i = 1; i <= z; ++i){
			if(z > 400 && i > 60 && i + 4 < z) continue;
			i64 a = s.get(i), b = m.getS(e, i);
			if(a != b) bad("stack " + std::to_string(n) + " element " + std::to_string(i) + " from the top is " + std::to_string(a) + ", expected " + std::to_string(b));
		}
	}
}
void Lock::compareWorld(){
	auto& f = uni->getField();
	auto cmp = [&](const Pos& p){ i64 a = f.get(V(p)), b = m.field.get(p); if(a != b) bad("cell " + p.str() + " holds " + std::to_string(a) + ", expected " + std::to_string(b)); };
	for(auto& p : m.field.touched) cmp(p);
	for(auto& p : realTouched) cmp(p);
	bool any = !m.field.touched.empty() || !realTouched.empty();
	if(bigTouch) bad("a cell was written outside the dimensions of the funge");
	m.field.touched.clear(); realTouched.clear();
	if(any) for(int d = 0; d < ND; ++d) if(f.min(d) != m.field.lo[d] || f.max(d) != m.field.hi[d])
		bad("bounds of dimension " + std::to_string(d) + " are " + std::to_string(f.min(d)) + ".." + std::to_string(f.max(d)) + ", expected " + std::to_string(m.field.lo[d]) + ".." + std::to_string(m.field.hi[d]));
	if((unsigned)uni->getMode() != m.mode) bad("mode flags " + std::to_string((unsigned)uni->getMode()) + ", expected " + std::to_string(m.mode));
	if(gSystems != env.systems) bad("commands run: " + std::to_string(gSystems.size()) + (gSystems.empty() ? "" : " last \"" + eng::quote(gSystems.back()) + "\"") + ", expected " + std::to_string(env.systems.size()) + (env.systems.empty() ? "" : " last \"" + eng::quote(env.systems.back()) + "\""));
}
// whether blanks in these files count for the bounds and dimensions is not specified
void Lock::adoptLoaded(){
	auto& f = uni->getField(); int dims = uni->dimensions();
	if(c->cfg.dims == 0 && c->fmt == BEQ && dims > m.cfg.dims && dims <= m.field.blankDims && m.cfg.dims == m.field.used()) m.cfg.dims = dims;
	for(int d = 0; d < ND; ++d){
		i64 mn = INT64_MAX, mx = INT64_MIN; for(auto& x : m.field.cells){ mn = std::min(mn, x.first[d]); mx = std::max(mx, x.first[d]); }
		if(m.field.cells.empty()) mn = mx = 0;
		if(f.min(d) == mn || f.min(d) == std::min<i64>(mn, 0)) m.field.lo[d] = f.min(d);
		if(f.max(d) == mx || f.max(d) == std::max<i64>(mx, 0)) m.field.hi[d] = f.max(d);
	}
}
void Lock::compareAll(){
	auto& f = uni->getField();
	if((int)uni->dimensions() != m.cfg.dims && !m.field.cells.empty()) bad("the funge has " + std::to_string(uni->dimensions()) + " dimensions, expected " + std::to_string(m.cfg.dims));
	for(int d = 0; d < ND; ++d) if(f.min(d) != m.field.lo[d] || f.max(d) != m.field.hi[d]) bad("bounds of dimension " + std::to_string(d) + " are " + std::to_string(f.min(d)) + ".." + std::to_string(f.max(d)) + ", expected " + std::to_string(m.field.lo[d]) + ".." + std::to_string(m.field.hi[d]));
	auto cmp = [&](const Pos& p){ i64 a = f.get(V(p)), b = m.field.get(p); if(a != b) bad("cell " + p.str() + " holds " + std::to_string(a) + ", expected " + std::to_string(b)); };
	for(auto& x : m.field.cells) cmp(x.first);
	u64 vol = 1; for(int d = 0; d < ND; ++d){ u64 n = (u64)m.field.hi[d] - m.field.lo[d] + 1; if(n > 30000 || vol * n > 30000){ vol = 0; break; } vol *= n; }
	for(u64 k = 0; k < vol; ++k){ u64 v = k; Pos p; for(int d = 0; d < ND; ++d){ u64 n = m.field.hi[d] - m.field.lo[d] + 1; p[d] = m.field.lo[d] + (i64)(v % n); v /= n; } cmp(p); }
	ctx->state(m.field.hash());
}
// outside the model: only that the interpreter survives
void Lock::freeTick(Funge::FungeRunner* self){
	extern void realTick(Funge::FungeRunner*);
	if(free == 0){ r.cut = true; throw Stop(); }
	--free;
	// an IP whose coordinates overflow never comes back to its line and may fly over blanks forever
	for(int d = 0; d < ND; ++d){ i64 v = self->getIP().getDelta().get(d), p = self->getIP().getPos().get(d); const i64 far = (i64)1 << 40; if(v > far || v < -far || p > far || p < -far){ r.cut = true; throw Stop(); } }
	try { realTick(self); } catch(Stop&){ throw; } catch(std::exception& e){ bad(std::string("uncaught exception ") + e.what()); }
	ctx->add(eng::C_TRANS);
	bool live = false; for(size_t i = freeId; i < lastId + 400; ++i){ auto* q = uni->getRunner(i); if(q){ lastId = std::max(lastId, i); if(!q->getIP().isStopped()) live = true; } }
	if(!live){ r.cut = true; throw Stop(); }
}
void Lock::onTick(Funge::FungeRunner* self){
	if(free >= 0){ freeTick(self); return; }
	while(!m.ips.empty() && m.ips.front()->stopped) m.ips.pop_front();
	if(m.ips.empty()) bad("an IP executed after all had stopped");
	if(self->getID() != m.ips.front()->id) bad("IP " + std::to_string(self->getID()) + " executed, it was the turn of IP " + std::to_string(m.ips.front()->id));
	IP& ip = *m.ips.front();
	if(r.ticks >= c->maxTicks){ r.cut = true; throw Stop(); }
	if(c->beforeTick) c->beforeTick(m, *uni);
	if(c->stopBefore && c->stopBefore(m, ip)){ r.cut = true; throw Stop(); }
	i64 ins = m.field.get(ip.pos);
	if(trace.size() < 4000) trace.push_back(ipStr(ip) + " executes " + (ins > 32 && ins < 127 ? std::string(1, (char)ins) : "#" + std::to_string(ins)));
	u64 oldNext = m.nextId;
	size_t before = m.ips.size();
	m.pendingAny = false; m.anyNan = 0; chosen = 0;
	std::string why;
	try { m.tick(ip); }
	catch(Diverge&){ r.diverged = true; ctx->add(eng::C_DIVERGE); throw Stop(); }
	catch(Unmodelled& u){
		r.unmodelled = true; ctx->add(eng::C_UNMOD); ctx->note(std::string("outside model: ") + u.what());
		if(c->freeTicks <= 0 || !strcmp(u.what(), "movement overflow") || strstr(u.what(), "below selected") || !strcmp(u.what(), "NaN operand") || !strcmp(u.what(), "two arbitrary values")) throw Stop();
		free = c->freeTicks; freeTick(self); return;
	}
	try { fakeThreads = false; extern void realTick(Funge::FungeRunner*); realTick(self); }
	catch(Stop&){ throw; }
	catch(std::exception& e){ bad(std::string("uncaught exception ") + e.what()); }
	++r.ticks; ctx->add(eng::C_TRANS);
	auto& real = self->getIP();
	if(m.pendingRandom){
		Pos d; bool ok = P(real.getDelta(), d); int nz = 0; bool unit = true;
		Pos base; if(m.isMode(M_HOVER)){ for(int i = 0; i < ND; ++i) base[i] = d[i] - ip.delta[i]; } else base = d;
		for(int i = 0; i < ND; ++i) if(base[i]){ ++nz; if(i >= m.cfg.dims || (base[i] != 1 && base[i] != -1)) unit = false; }
		if(!ok || nz != 1 || !unit) bad("random direction gave delta " + vs(real.getDelta()));
		ctx->add(eng::C_ADOPT);
		try { m.finishRandom(ip, base); } catch(Diverge&){ r.diverged = true; ctx->add(eng::C_DIVERGE); throw Stop(); } catch(Unmodelled&){ r.unmodelled = true; ctx->add(eng::C_UNMOD); throw Stop(); }
	}
	if(m.pendingAny && self->getStack().top().size() == m.top(ip).size()){
		Stack& es = m.top(ip); size_t at = 1;
		while(at <= es.size() && m.getS(es, at) != PLACEHOLDER) ++at;
		if(at > es.size()) at = 1;
		i64 v = self->getStack().top().get(at);
		if(v < m.anyLo || v > m.anyHi) bad("an arbitrary number is " + std::to_string(v) + ", outside " + std::to_string(m.anyLo) + ".." + std::to_string(m.anyHi));
		Stack& s = m.top(ip);
		if(m.anyNan){ bool nan; if(m.anyNan == 8){ double q; memcpy(&q, &v, 8); nan = q != q; } else { float q; memcpy(&q, &v, 4); nan = q != q && (v >> 32) == 0; } if(!nan) bad("the result is " + std::to_string(v) + ", expected a NaN of " + std::to_string(m.anyNan) + " bytes"); }
		bool isRef = env.refs.count(PLACEHOLDER);
		for(auto* e : {&s.back(), &s.front()}) if(*e == PLACEHOLDER) { *e = v; break; }
		if(isRef){ Pos p = env.refs[PLACEHOLDER]; env.refs.erase(PLACEHOLDER); if(env.refs.count(v)) bad("reference " + std::to_string(v) + " was handed out twice"); env.refs[v] = p; }
		else if(c->stopBefore){}
		ctx->add(eng::C_ADOPT);
	}
	if(m.ips.size() > before){
		for(auto& q : m.ips) if(q->id >= oldNext){
			size_t i; for(i = lastId + 1; i < lastId + 400; ++i) if(uni->getRunner(i)) break;
			if(!uni->getRunner(i)) bad("a new IP was expected but does not exist");
			q->id = i; lastId = i;
		}
		m.nextId = lastId + 1;
	}
	for(size_t i = lastId + 1; i < lastId + 4; ++i) if(uni->getRunner(i)) bad("an IP was created that should not exist");
	int n = 0;
	for(auto& q : m.ips) if(n++ < 6 || q.get() == &ip) compareIP(*q);
	compareWorld();
	u64 h = m.field.hash(); for(auto& q : m.ips) h = mix(h, m.hashIP(*q)); h = mix(h, mix(m.mode, env.inPos));
	ctx->state(h);
	env.nowNs += c->stepNs; while(env.nowNs >= 1000000000){ env.nowNs -= 1000000000; ++env.now; }
	// round robin
	auto p = std::move(m.ips.front()); m.ips.pop_front();
	if(!p->stopped) m.ips.push_back(std::move(p));
	bool live = false; for(auto& q : m.ips) if(!q->stopped) live = true;
	if(!live){
		done = true; r.ended = true;
		if(uni->get() != m.exitcode) bad("exit status " + std::to_string(uni->get()) + ", expected " + std::to_string(m.exitcode));
		if(!m.quit) uni->killAll(uni->get());
	}
}
void Lock::finish(){
	fflush(stdout); std::cout.flush();
	off_t z = lseek(outFd, 0, SEEK_END);
	std::string out(z, 0);
	if(z) { ssize_t k = pread(outFd, &out[0], z, 0); if(k != z) out.resize(k < 0 ? 0 : k); }
	r.out = out;
	if(!r.diverged && !r.unmodelled && out != env.out){
		size_t i = 0; while(i < out.size() && i < env.out.size() && out[i] == env.out[i]) ++i;
		bad("output differs at byte " + std::to_string(i) + ": got \"" + eng::quote(out.substr(0, 300)) + "\" expected \"" + eng::quote(env.out.substr(0, 300)) + "\"");
	}
	if(c->finalField && !r.diverged && !r.unmodelled){
		auto& f = uni->getField();
		for(auto& x : m.field.cells) if(f.get(V(x.first)) != x.second) bad("finally cell " + x.first.str() + " holds " + std::to_string(f.get(V(x.first))) + ", expected " + std::to_string(x.second));
		Pos p; i64 lo1 = -2, hi1 = 26;
		if(m.cfg.dims == 1){ lo1 = 0; hi1 = 0; }
		for(p[1] = lo1; p[1] <= std::min<i64>(hi1, std::max<i64>(m.field.hi[1] + 2, 4)); ++p[1]) for(p[0] = -2; p[0] <= std::min<i64>(82, std::max<i64>(m.field.hi[0] + 2, 8)); ++p[0])
			if(f.get(V(p)) != m.field.get(p)) bad("finally cell " + p.str() + " holds " + std::to_string(f.get(V(p))) + ", expected " + std::to_string(m.field.get(p)));
	}
	if(c->useFiles && !r.diverged && !r.unmodelled){
		std::map<std::string, std::string> files; std::set<std::string> dirs;
		std::error_code ec;
		for(auto it = std::filesystem::recursive_directory_iterator(scratch, ec); it != std::filesystem::recursive_directory_iterator(); it.increment(ec)){
			std::string n = it->path().string().substr(scratch.size() + 1);
			if(it->is_directory(ec)) dirs.insert(n); else { std::ifstream is(it->path()); std::stringstream ss; ss << is.rdbuf(); files[n] = ss.str(); }
		}
		if(dirs != env.dirs){ std::string s; for(auto& d : dirs) s += d + " "; bad("directories are " + s); }
		for(auto& x : env.files){ if(!files.count(x.first)) bad("file " + x.first + " does not exist"); if(files[x.first] != x.second) bad("file " + x.first + " contains \"" + eng::quote(files[x.first].substr(0, 300)) + "\", expected \"" + eng::quote(x.second.substr(0, 300)) + "\""); }
		for(auto& x : files) if(!env.files.count(x.first)) bad("file " + eng::quote(x.first) + " was created");
	}
	if(c->atEnd) c->atEnd(m, *uni, *ctx);
}
static void resetIO(const Case& c){
	if(ftruncate(inFd, 0)){} 
	if(!c.input.empty() && pwrite(inFd, c.input.data(), c.input.size(), 0) < 0){}
	lseek(0, 0, SEEK_SET);
	__fpurge(stdin); rewind(stdin); __fpurge(stdin); lseek(0, 0, SEEK_SET); clearerr(stdin); std::cin.clear();
	fflush(stdout); if(ftruncate(outFd, 0)){} lseek(1, 0, SEEK_SET); clearerr(stdout); std::cout.clear();
	std::cout.flags(std::ios_base::dec | std::ios_base::skipws); std::cout.precision(6); std::cout.width(0); std::cout.fill(' ');
	std::cin.flags(std::ios_base::dec | std::ios_base::skipws);
	gSystems.clear(); gSystemRet = c.systemRet;
}
Result run(const Case& c, eng::Ctx& ctx){
	if(ctx.replay || ctx.log.empty()) ctx.log = describe(c);
	eng::crashNote(ctx.log);
	Lock lk(c, ctx); L = &lk;
	Env& env = lk.env;
	env.in = c.input; env.files = c.files; env.dirs = c.dirs; env.systemRet = c.systemRet;
	env.now = c.now; env.nowNs = c.nowNs;
	{ time_t t = c.now; struct tm tb; gmtime_r(&t, &tb); env.tm_hour = tb.tm_hour; env.tm_min = tb.tm_min; env.tm_sec = tb.tm_sec; env.tm_year = tb.tm_year; env.tm_mon = tb.tm_mon; env.tm_mday = tb.tm_mday; }
	env.fungelib = fungelibText;
	lk.m.chooser = [&lk](const char*){ if(lk.chosen++) throw Unmodelled("two arbitrary values"); return PLACEHOLDER; };
	gEnv = &env;
	resetIO(c);
	if(c.useFiles){
		if(fchdir(rootFd)){}
		std::error_code ec;
		for(auto& e : std::filesystem::directory_iterator(scratch, ec)) std::filesystem::remove_all(e.path(), ec);
		for(auto& d : c.dirs) std::filesystem::create_directories(scratch + "/" + d, ec);
		for(auto& f : c.files){ std::ofstream o(scratch + "/" + f.first, std::ios::binary); o.write(f.second.data(), f.second.size()); }
	}
	Funge::FungeConfig g;
	g.name = c.cfg.name; g.args = c.cfg.args; g.env = c.cfg.env; g.fingerprints = c.cfg.fingerprints; g.dimensions = c.cfg.dims;
	g.standard = (Funge::FungeStandard)c.cfg.std; g.topo = c.cfg.topo == TORUS ? Funge::TOPO_TORUS : Funge::TOPO_LAHEY;
	g.strings = c.cfg.strs == MULTI ? Funge::STRING_MULTISPACE : c.cfg.strs == SGML ? Funge::STRING_SGML : Funge::STRING_C;
	g.cells = c.cfg.charCells ? Funge::CELL_CHAR : Funge::CELL_INT; g.mode = (Funge::FungeMode)c.mode;
	g.concurrent = c.cfg.concurrent; g.execute = c.cfg.execute; g.filesystem = c.cfg.filesystem; g.fingerprint = c.cfg.fingerprint; g.inverthl = c.cfg.inverthl;
	inCase = true; realThreads = 0;
	fakeThreads = true;
	try {
		std::istringstream is(c.text);
		Funge::FungeUniverse uni(is, c.fmt == BF ? Funge::Field::FORMAT_BF : c.fmt == FL ? Funge::Field::FORMAT_FL : Funge::Field::FORMAT_BEQ, g);
		fakeThreads = false;
		lk.uni = &uni;
		auto& f = uni.getField();
		Machine& m = lk.m;
		m.mode = c.mode;
		try { m.load(c.text, "bfq"[c.fmt]); }
		catch(Unmodelled& u){ lk.r.unmodelled = true; ctx.add(eng::C_UNMOD); ctx.note(std::string("outside model: ") + u.what()); }
		for(auto& x : c.cells){ f.put(V(x.first), x.second); m.field.put(x.first, x.second); }
		f.addObserver([&](const Funge::Vector& v, Funge::inst_t){ Pos p; if(!P(v, p)) lk.bigTouch = true; else lk.realTouched.push_back(p); });
		static size_t searchFrom = 0;
		uni.createRunner(V(c.pos), V(c.delta));
		size_t id; for(id = searchFrom; id < searchFrom + 100000; ++id) if(uni.getRunner(id)) break;
		Funge::FungeRunner* r = uni.getRunner(id);
		try {
			if(!r) lk.bad("no IP was created");
			searchFrom = id; lk.lastId = lk.freeId = id; m.nextId = id;
			if(lk.r.unmodelled){ if(c.freeTicks <= 0 || f.get(V(c.pos)) == ' ') throw Stop(); lk.free = c.freeTicks; lk.active = true; uni(); lk.active = false; throw Stop(); }
			if(c.fmt != BF) lk.adoptLoaded();
			if(c.wholeField) lk.compareAll();
			IP* ip = m.addIP(c.pos, c.delta);
			m.nextId = id + 1;
			for(auto& b : c.below){
				for(i64 v : b){ r->getStack().top().push(v); m.push(*ip, v); }
				r->getStack().push(); ip->st->push_back({}); ip->ages->push_back(0);
			}
			if(!c.below.empty()) r->getStack().setMode(g.mode);
			for(i64 v : c.stack){ r->getStack().top().push(v); m.push(*ip, v); }
			r->getIP().setStorage(V(c.storage)); ip->storage = c.storage;
			lk.compareIP(*ip);
			lk.compareWorld();
			lk.active = true;
			uni();
			lk.active = false;
			if(!lk.done) lk.bad("the universe ended although an IP was still live");
			ctx.add(eng::C_TRACES);
			lk.finish();
		}catch(Stop&){
			lk.active = false;
			if(!ctx.failed){
				if(lk.r.cut) ctx.add(eng::C_CUT);
				if(!lk.r.unmodelled || lk.free >= 0) ctx.add(eng::C_TRACES);
				try { lk.finish(); } catch(Stop&){}
			}
		}
	}catch(std::exception& e){ ctx.fail(std::string("uncaught exception ") + e.what() + "\n  case: " + describe(c)); }
	L = nullptr; inCase = false; gEnv = nullptr;
	fflush(stdout);
	return lk.r;
}
}
// every tick the real scheduler performs comes through here
extern "C" void __real__ZN5Funge11FungeRunner4tickEv(Funge::FungeRunner*);
namespace drv { void realTick(Funge::FungeRunner* s){ __real__ZN5Funge11FungeRunner4tickEv(s); } }
extern "C" void __wrap__ZN5Funge11FungeRunner4tickEv(Funge::FungeRunner* s){
	if(drv::L && drv::L->active && &s->getUniverse() == drv::L->uni && pthread_equal(pthread_self(), mainThread)) drv::L->onTick(s);
	else __real__ZN5Funge11FungeRunner4tickEv(s);
}
int funge_real_main(int argc, char** argv, char** envp);
int main(int argc, char** argv, char** envp){
	if(getenv("VERIF_CLI")) return funge_real_main(argc, argv, envp);
	return eng::engineMain(argc, argv);
}
