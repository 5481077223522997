#pragma GCC optimize("O2")
#include "sched.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <unordered_map>
#include <unordered_set>

extern int funge_real_main(int argc, char** argv, char** envp);

namespace {
using sched::u64; using sched::MAXT; using sched::MAXE;

enum Kind : uint8_t { K_NONE, K_START, K_LOCK, K_TRYLOCK, K_RDLOCK, K_WRLOCK, K_CWAIT, K_WAITING, K_TIMED, K_SIGNAL, K_BCAST, K_CREATE, K_JOIN, K_EXIT, K_ALOAD, K_ARMW, K_YIELD, K_FWAIT, K_FWAITING, K_FWAKE, K_SEMWAIT, K_SEMPOST, K_DONE };
const char* const KN[] = {"", "start", "lock", "trylock", "rdlock", "wrlock", "wait", "waiting", "timedwait", "notify_one", "notify_all", "create", "join", "exit", "load", "rmw", "yield", "fwait", "fwaiting", "fwake", "sem_wait", "sem_post", "done"};

struct Ev { u64 hash; uint64_t obj; uint32_t en, spur, sleep; int cause; uint8_t tid, kind, write, cur, yield; };   // a choice and the event it led to
struct Exec {
	int nprefix, nev, verdict, status, nthreads;
	char msg[3000]; char trace[4000];
	bool spurious; uint32_t sleep;
	uint8_t prefix[MAXE]; Ev ev[MAXE];
};
Exec* ex;
bool active = false;                               // this process is a controlled execution

struct VC { uint32_t c[MAXT]; };
struct Thread {
	bool used, finished, detached, joined, pw; int cause; Kind kind; void* obj; void* obj2; int joinTid; bool spur;
	int go; u64 last; uint32_t n; VC vc; pthread_t real; void* (*fn)(void*); void* arg; void* ret; bool notified;
};
Thread th[MAXT]; int nth = 0; int cur = 0;
__thread int self = -1;
u64 total = 0;                                     // hash of the happens-before relation so far

struct Obj { void* key; int owner, count; uint32_t readers; VC vc, rvc; u64 lastW, sumR; int wait[MAXT], nwait; int sem; bool semInit; };
Obj objs[4096]; uint16_t objIdx[8192]; int nobjs = 0;   // dense, so that an execution touches few pages

struct TraceE { uint8_t tid, kind; void* obj; }; TraceE ring[64]; unsigned ringN = 0;

u64 mixh(u64 a, u64 b){ u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2)); x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; return x; }
Obj& obj(void* k){
	u64 h = ((u64)k >> 3) * 0x9E3779B97F4A7C15ull >> 51;
	for(unsigned i = 0; i < 8192; ++i){
		uint16_t& x = objIdx[(h + i) & 8191];
		if(!x){ if(nobjs >= 4095) _exit(99); x = ++nobjs; objs[x].key = k; objs[x].owner = -1; return objs[x]; }
		if(objs[x].key == k) return objs[x];
	}
	_exit(99);
}
void fut(int* a, int op, int v){ syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }

[[noreturn]] void verdict(int v, const std::string& m){
	if(ex->verdict == 0 || ex->verdict == sched::CLEAN){
		ex->verdict = v; strncpy(ex->msg, m.c_str(), sizeof ex->msg - 1);
		std::string t;
		for(unsigned i = ringN > 64 ? ringN - 64 : 0; i < ringN; ++i){ char b[64]; TraceE& e = ring[i & 63]; snprintf(b, 64, "T%d.%s(%lx) ", e.tid, KN[e.kind], (long)e.obj & 0xffffff); t += b; }
		strncpy(ex->trace, t.c_str(), sizeof ex->trace - 1);
	}
	_exit(66);
}
std::string where(){
	std::string m;
	for(int i = 0; i < nth; ++i) if(!th[i].finished){ char b[96]; snprintf(b, 96, " T%d:%s(%lx)", i, KN[th[i].kind], (long)th[i].obj & 0xffffff); m += b; }
	return m;
}
bool enabled(int i){
	Thread& t = th[i];
	if(!t.used || t.finished) return false;
	switch(t.kind){
		case K_LOCK: { Obj& o = obj(t.obj); return (o.owner == -1 && o.readers == 0) || (o.owner == i && t.obj2); }
		case K_WRLOCK: { Obj& o = obj(t.obj); return o.owner == -1 && o.readers == 0; }
		case K_RDLOCK: { Obj& o = obj(t.obj); return o.owner == -1; }
		case K_JOIN: return th[t.joinTid].finished;
		case K_WAITING: case K_FWAITING: return false;
		case K_SEMWAIT: return obj(t.obj).sem > 0;
		case K_DONE: return false;
		default: return true;
	}
}
uint32_t sleepMask = 0; int spun = 0;
void (*zygoteLoop)() = nullptr;              // what runs up to the first thread is the same in every execution
// decides who runs next; th[self].kind is its pending operation
int choose(){
	uint32_t en = 0, spur = 0;
	for(int i = 0; i < nth; ++i){
		if(enabled(i)) en |= 1u << i;
		else if(th[i].used && !th[i].finished && th[i].kind == K_WAITING && (ex->spurious || th[i].spur) && obj(th[i].obj2).owner == -1) spur |= 1u << i;
	}
	if(!en){
		for(int i = 0; i < nth; ++i) if((spur >> i & 1) && th[i].spur) en |= 1u << i;   // a timed wait ends
		if(!en) verdict(sched::DEADLOCK, "every thread waits for ever:" + where());
		spur &= ~en;
	}
	int n = ex->nev;
	if(n >= MAXE) verdict(sched::STEPS, "no end after " + std::to_string(MAXE) + " synchronisation operations:" + where());
	int me = self, pick = -1;
	bool curEn = en >> me & 1, yield = curEn && th[me].kind == K_YIELD;
	if(n == ex->nprefix - 1) sleepMask = ex->sleep;
	if(n < ex->nprefix){
		pick = ex->prefix[n];
		if(!((en | spur) >> pick & 1)) verdict(sched::DIVERGED, "the schedule cannot be repeated");
	}else{
		uint32_t ok = en & ~sleepMask;
		if(!ok) verdict(sched::REDUNDANT, "");
		// a thread that waits for a sleeping one: what follows if that one goes on is explored elsewhere
		if(sleepMask){ if(yield && ++spun > 100) verdict(sched::REDUNDANT, ""); }
		else spun = 0;
		if((ok >> me & 1) && !yield) pick = me;
		else for(int k = 1; k <= nth; ++k){ int i = (me + k) % nth; if(ok >> i & 1){ pick = i; break; } }
	}
	Ev& e = ex->ev[n]; e.hash = total; e.en = en; e.spur = spur; e.sleep = sleepMask; e.tid = pick; e.cur = me; e.yield = yield; e.kind = 0; e.obj = 0; e.write = 0; e.cause = th[pick].cause;
	ex->nev = n + 1;
	th[pick].cause = -1;
	if(th[pick].kind == K_WAITING){                // woken for no reason
		Obj& c = obj(th[pick].obj); int k = 0; for(int i = 0; i < c.nwait; ++i) if(c.wait[i] != pick) c.wait[k++] = c.wait[i]; c.nwait = k;
		th[pick].kind = K_LOCK; th[pick].obj = th[pick].obj2; th[pick].obj2 = nullptr; th[pick].notified = false; th[pick].pw = true;
		th[pick].last = mixh(th[pick].last, 77);
	}
	return pick;
}
void handTo(int n){
	cur = n;
	__atomic_store_n(&th[n].go, 1, __ATOMIC_SEQ_CST);
	fut(&th[n].go, FUTEX_WAKE, 1);
}
void waitTurn(){
	while(!__atomic_load_n(&th[self].go, __ATOMIC_SEQ_CST)) fut(&th[self].go, FUTEX_WAIT, 0);
	__atomic_store_n(&th[self].go, 0, __ATOMIC_SEQ_CST);
}
void run(){ int n = choose(); if(n != self){ handTo(n); waitTurn(); } }
void event(Kind k, void* o, bool write){
	Thread& t = th[self];
	Obj* b = o ? &obj(o) : nullptr;
	u64 h = mixh(mixh(t.last, k), b ? (write ? mixh(b->lastW, b->sumR) : b->lastW) : 0);
	h = mixh(h, self + 1);
	t.last = h; ++t.n; total += h;
	if(b){ if(write){ b->lastW = h; b->sumR = 0; } else b->sumR += h; }
	ring[ringN++ & 63] = {(uint8_t)self, k, o};
	Ev& e = ex->ev[ex->nev - 1]; e.kind = k; e.obj = (u64)o; e.write = write;
	sleepMask &= ~(1u << self);
	if(o) for(int i = 0; i < nth; ++i) if((sleepMask >> i & 1) && th[i].obj == o && (write || th[i].pw)) sleepMask &= ~(1u << i);
}
void point(Kind k, void* o, bool write = true, void* o2 = nullptr){
	Thread& t = th[self]; t.kind = k; t.obj = o; t.obj2 = o2; t.pw = write;
	run();
	event(k, o, write);
	t.kind = K_NONE;
}
void join(VC& a, const VC& b){ for(int i = 0; i < nth; ++i) if(b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void acq(VC& v){ join(th[self].vc, v); }
void rel(VC& v){ join(v, th[self].vc); ++th[self].vc.c[self]; }

// ---- memory accesses
// One word of history per eight bytes of memory: an access, or the number of a list of accesses.
struct Rec { u64 clk : 16, tid : 5, mask : 8, wr : 1, at : 1, pc : 31, isList : 1, freed : 1; };
static_assert(sizeof(Rec) == 8, "");
struct List { Rec r[4]; uint32_t rr; uint32_t used; };
constexpr u64 PAGES = 1 << 14;                     // 64 MB of different memory
Rec (*cells)[512]; u64* pageTag; List* lists; uint32_t nlists = 0;
constexpr uint32_t MAXLISTS = 1 << 20;
inline Rec& cellOf(u64 g){
	u64 pg = g >> 9, k = pg & (PAGES - 1);
	if(pageTag[k] != pg){ if(pageTag[k]) memset(cells[k], 0, sizeof cells[k]); pageTag[k] = pg; }
	return cells[k][g & 511];
}
extern "C" char __executable_start;
[[noreturn]] void reportAccess(int v, const char* what, void* a, u64 pc1, u64 pc2, int t2){
	char b[400]; snprintf(b, 400, "%s at %p: T%d @%lx", what, a, self, pc1 - (u64)&__executable_start);
	std::string m = b; if(pc2){ snprintf(b, 400, " and T%d @%lx", t2, pc2); m += b; }
	verdict(v, m);
}
inline void access1(u64 g, unsigned mask, bool wr, bool at, u64 pc, bool freeing){
	Rec& c = cellOf(g);
	const VC& vc = th[self].vc; uint32_t clk = vc.c[self];
	Rec n; n.clk = clk; n.tid = self; n.mask = mask; n.wr = wr; n.at = at; n.pc = (uint32_t)(pc - (u64)&__executable_start); n.isList = 0; n.freed = 0;
	if(c.freed) reportAccess(sched::USEFREE, freeing ? "memory is freed twice" : "memory is used after it was freed", (void*)(g << 3), pc, c.pc, c.tid);
	auto conflict = [&](const Rec& r){
		if((int)r.tid != self && (r.mask & mask) && (r.wr || wr) && !(r.at && at) && vc.c[r.tid] < r.clk)
			reportAccess(sched::RACE, freeing ? "memory is freed while another thread uses it" : wr ? "unsynchronised write" : "unsynchronised read", (void*)(g << 3), pc, r.pc, r.tid);
	};
	// an earlier access need not be remembered if every later conflict with it is one with the new access
	auto covered = [&](const Rec& r){ return !(r.mask & ~mask) && (wr || !r.wr) && (!at || r.at) && (int)r.tid == self; };
	if(!c.isList){
		if(!c.clk){ c = n; return; }
		if((int)c.tid == self && c.clk == clk && (c.mask & mask) == mask && (c.wr || !wr) && c.at == at) return;
		conflict(c);
		if(covered(c)){ c = n; return; }
		if(nlists + 1 >= MAXLISTS) _exit(97);
		uint32_t k = ++nlists; lists[k].r[0] = c; lists[k].r[1] = n; lists[k].used = 2;
		u64 v = k; Rec l; memset(&l, 0, sizeof l); memcpy(&l, &v, 8); l.isList = 1; c = l;
		return;
	}
	Rec l = c; l.isList = 0; u64 k; memcpy(&k, &l, 8); List& li = lists[k];
	int slot = -1;
	for(uint32_t i = 0; i < li.used; ++i){
		Rec& r = li.r[i];
		if((int)r.tid == self && r.clk == clk && (r.mask & mask) == mask && (r.wr || !wr) && r.at == at) return;
		conflict(r);
		if(slot < 0 && covered(r)) slot = i;
	}
	if(slot < 0) slot = li.used < 4 ? li.used++ : li.rr++ & 3;
	li.r[slot] = n;
}
void accessSlow(u64 a, u64 e, bool wr, u64 pc, bool at){
	while(a < e){
		u64 g = a >> 3, lim = (g + 1) << 3; if(lim > e) lim = e;
		unsigned mask = ((1u << (lim - a)) - 1) << (a & 7);
		access1(g, mask, wr, at, pc, false);
		a = lim;
	}
}
inline __attribute__((always_inline)) void access(const volatile void* p, size_t n, bool wr, u64 pc, bool at = false){
	if(!active || nth < 2 || self < 0) return;
	u64 a = (u64)p;
	if(n <= 8 && (a & 7) + n <= 8){
		u64 g = a >> 3, pg = g >> 9, k = pg & (PAGES - 1);
		if(__builtin_expect(pageTag[k] == pg, 1)){          // the same thread did the same since its last synchronisation
			const Rec& c = cells[k][g & 511]; unsigned mask = ((1u << n) - 1) << (a & 7);
			if(c.clk == th[self].vc.c[self] && (int)c.tid == self && !c.isList && !c.freed && c.at == at && (c.mask & mask) == mask && (c.wr || !wr)) return;
		}
	}
	accessSlow(a, a + n, wr, pc, at);
}
void freed(void* p, u64 pc){
	size_t n = malloc_usable_size(p);
	u64 a = (u64)p;
	for(u64 g = a >> 3; g < (a + n) >> 3; ++g){
		if(self >= 0) access1(g, 0xff, true, false, pc, true);
		Rec& c = cellOf(g); memset(&c, 0, sizeof c);
		c.clk = 1; c.tid = self < 0 ? 0 : self; c.mask = 0xff; c.wr = 1; c.pc = (uint32_t)(pc - (u64)&__executable_start); c.freed = 1;
	}
}
#define PC ((u64)__builtin_return_address(0))
void* realSym(const char* n){ return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = nullptr; if(!real) real = (ret (*)(__VA_ARGS__))realSym(#name)
bool on(){ return active && self >= 0; }

void* threadMain(void* a){
	int id = (int)(long)a; self = id;
	waitTurn();
	event(K_START, nullptr, false); th[id].kind = K_NONE;
	th[id].ret = th[id].fn(th[id].arg);
	Thread& t = th[id];
	t.kind = K_EXIT; t.obj = &t; t.pw = true; run(); event(K_EXIT, &t, true);
	t.finished = true; t.kind = K_DONE;
	int n = choose();
	self = -1;
	handTo(n);
	return t.ret;
}
void unlockObj(void* m, const char* what){
	Obj& o = obj(m);
	if(o.owner == self){ if(--o.count > 0) return; o.owner = -1; rel(o.vc); return; }
	if(o.readers >> self & 1){ o.readers &= ~(1u << self); rel(o.rvc); return; }
	verdict(sched::MISUSE, std::string(what) + " of a lock the thread does not hold");
}
void lockObj(void* m, bool rec){
	Obj& o0 = obj(m);
	if(o0.owner == self && !rec) verdict(sched::DEADLOCK, "a thread locks a mutex it already holds");
	point(K_LOCK, m, true, rec ? m : nullptr);
	Obj& o = obj(m); o.owner = self; ++o.count; acq(o.vc); acq(o.rvc);
}
bool isRec(pthread_mutex_t* m){ return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int condWait(void* c, void* m, bool timed){
	if(obj(m).owner != self) verdict(sched::MISUSE, "wait without holding the mutex");
	point(K_CWAIT, c);
	Obj& o = obj(c); Obj& mo = obj(m);
	int cnt = mo.count; mo.count = 0; mo.owner = -1; rel(mo.vc);
	o.wait[o.nwait++] = self;
	Thread& t = th[self]; t.kind = K_WAITING; t.obj = c; t.obj2 = m; t.spur = timed; t.notified = true;
	run();
	event(K_LOCK, m, true); t.kind = K_NONE; t.spur = false;
	mo.owner = self; mo.count = cnt; acq(mo.vc); acq(mo.rvc);
	return timed && !t.notified ? ETIMEDOUT : 0;
}
void notify(void* c, bool all){
	point(all ? K_BCAST : K_SIGNAL, c);
	Obj& o = obj(c);
	while(o.nwait > 0){
		Thread& t = th[o.wait[0]];
		for(int i = 1; i < o.nwait; ++i) o.wait[i - 1] = o.wait[i];
		--o.nwait;
		t.kind = K_LOCK; t.obj = t.obj2; t.obj2 = nullptr; t.pw = true; t.cause = ex->nev - 1;
		t.last = mixh(t.last, th[self].last);
		if(!all) break;
	}
}
}

// ---- interposed functions
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg){
	REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
	if(!on()) return real(out, at, fn, arg);
	if(nth == 1 && zygoteLoop) zygoteLoop();
	point(K_CREATE, nullptr);
	if(nth >= MAXT) verdict(sched::STEPS, "more than 24 threads were created");
	int id = nth++; ex->nthreads = nth;
	Thread& t = th[id]; t.used = true; t.kind = K_START; t.cause = ex->nev - 1; t.fn = fn; t.arg = arg; t.last = mixh(th[self].last, 1000 + id);
	t.vc = th[self].vc; t.vc.c[id] = 1; ++th[self].vc.c[self];
	pthread_attr_t a; pthread_attr_init(&a);
	size_t sz = 1 << 20; void* st = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	pthread_attr_setstack(&a, st, sz);
	int r = real(&t.real, &a, threadMain, (void*)(long)id);
	*out = t.real;
	return r;
}
static int tidOf(pthread_t p){ for(int i = nth - 1; i > 0; --i) if(pthread_equal(th[i].real, p) && !th[i].joined) return i; return -1; }
int pthread_join(pthread_t p, void** ret){
	REAL(int, pthread_join, pthread_t, void**);
	if(!on()) return real(p, ret);
	int id = tidOf(p);
	if(id < 0) verdict(sched::MISUSE, "join of a thread that was already joined");
	Thread& t = th[self]; t.joinTid = id;
	point(K_JOIN, &th[id]);
	th[id].joined = true; join(th[self].vc, th[id].vc);
	return real(p, ret);
}
int pthread_detach(pthread_t p){
	REAL(int, pthread_detach, pthread_t);
	if(on()){ int id = tidOf(p); if(id > 0) th[id].joined = true; }
	return real(p);
}
int pthread_mutex_lock(pthread_mutex_t* m){
	REAL(int, pthread_mutex_lock, pthread_mutex_t*);
	if(!on()) return real(m);
	lockObj(m, isRec(m)); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m){
	REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
	if(!on()) return real(m);
	point(K_TRYLOCK, m);
	Obj& o = obj(m);
	if((o.owner == -1 && !o.readers) || (o.owner == self && isRec(m))){ o.owner = self; ++o.count; acq(o.vc); return 0; }
	return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m){
	REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
	if(!on()) return real(m);
	unlockObj(m, "unlock"); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m){
	REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
	if(!on()) return real(m);
	if(obj(m).owner == self) return EDEADLK;
	point(K_RDLOCK, m, false);
	Obj& o = obj(m); if(o.readers >> self & 1) verdict(sched::MISUSE, "shared lock taken twice by one thread"); o.readers |= 1u << self; acq(o.vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m){
	REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
	if(!on()) return real(m);
	if(obj(m).owner == self || (obj(m).readers >> self & 1)) verdict(sched::DEADLOCK, "a thread locks a shared mutex it already holds");
	point(K_WRLOCK, m);
	Obj& o = obj(m); o.owner = self; o.count = 1; acq(o.vc); acq(o.rvc); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m){
	REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
	if(!on()) return real(m);
	point(K_TRYLOCK, m); Obj& o = obj(m); if(o.owner != -1) return EBUSY; o.readers |= 1u << self; acq(o.vc); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m){
	REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
	if(!on()) return real(m);
	point(K_TRYLOCK, m); Obj& o = obj(m); if(o.owner != -1 || o.readers) return EBUSY; o.owner = self; o.count = 1; acq(o.vc); acq(o.rvc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m){
	REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
	if(!on()) return real(m);
	unlockObj(m, "unlock"); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m){
	REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
	if(!on()) return real(c, m);
	return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t){
	REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
	if(!on()) return real(c, m, t);
	return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t){
	REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
	if(!on()) return real(c, m, k, t);
	return condWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c){
	REAL(int, pthread_cond_signal, pthread_cond_t*);
	if(!on()) return real(c);
	notify(c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c){
	REAL(int, pthread_cond_broadcast, pthread_cond_t*);
	if(!on()) return real(c);
	notify(c, true); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c){
	REAL(int, pthread_cond_destroy, pthread_cond_t*);
	if(!on()) return real(c);
	if(obj(c).nwait > 0) verdict(sched::MISUSE, "a condition variable is destroyed while a thread waits on it");
	return 0;
}
int sem_init(sem_t* s, int, unsigned v){ Obj& o = obj(s); o.sem = v; return 0; }
int sem_wait(sem_t* s){ if(!on()) return 0; point(K_SEMWAIT, s); Obj& o = obj(s); --o.sem; acq(o.vc); return 0; }
int sem_post(sem_t* s){ Obj& o = obj(s); if(!on()){ ++o.sem; return 0; } point(K_SEMPOST, s); ++o.sem; rel(o.vc); return 0; }
int sem_destroy(sem_t*){ return 0; }
int sched_yield(void){
	if(on()) point(K_YIELD, nullptr);
	return 0;
}
int nanosleep(const struct timespec* t, struct timespec* r){
	REAL(int, nanosleep, const struct timespec*, struct timespec*);
	if(!on()) return real(t, r);
	point(K_YIELD, nullptr); return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* t, struct timespec* r){
	REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
	if(!on()) return real(k, f, t, r);
	point(K_YIELD, nullptr); return 0;
}
int usleep(useconds_t us){
	REAL(int, usleep, useconds_t);
	if(!on()) return real(us);
	point(K_YIELD, nullptr); return 0;
}
unsigned sleep(unsigned s){
	REAL(unsigned, sleep, unsigned);
	if(!on()) return real(s);
	point(K_YIELD, nullptr); return 0;
}
// the standard library waits on atomics with the system call itself
long syscall(long n, ...){
	va_list ap; va_start(ap, n); long a[6]; for(long& x : a) x = va_arg(ap, long); va_end(ap);
	bool mine = (char*)a[0] >= (char*)th && (char*)a[0] < (char*)(th + MAXT);
	if(n == SYS_futex && on() && !mine){
		int op = a[1] & 127; void* k = (void*)a[0];
		if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET){
			point(K_FWAIT, k);
			if(*(volatile int*)a[0] != (int)a[2]){ errno = EAGAIN; return -1; }
			Obj& o = obj(k); o.wait[o.nwait++] = self;
			Thread& t = th[self]; t.kind = K_FWAITING; t.obj = k; run(); event(K_FWAIT, k, true); t.kind = K_NONE; return 0;
		}
		if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET){
			point(K_FWAKE, k); Obj& o = obj(k); long w = 0;
			while(o.nwait > 0 && w < a[2]){ Thread& t = th[o.wait[0]]; for(int i = 1; i < o.nwait; ++i) o.wait[i - 1] = o.wait[i]; --o.nwait; t.kind = K_FWAIT; t.pw = true; t.cause = ex->nev - 1; t.last = mixh(t.last, th[self].last); ++w; }
			return w;
		}
	}
	long r;
	register long r10 __asm__("r10") = a[3]; register long r8 __asm__("r8") = a[4]; register long r9 __asm__("r9") = a[5];
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if(r < 0 && r > -4096){ errno = -r; return -1; }
	return r;
}
int __cxa_guard_acquire(u64* g){
	if(*(volatile char*)g){ if(on()) acq(obj(g).vc); return 0; }
	if(!on()) return 1;
	lockObj(g, false);
	if(*(volatile char*)g){ unlockObj(g, "guard"); return 0; }
	return 1;
}
void __cxa_guard_release(u64* g){ *(volatile char*)g = 1; if(on() && obj(g).owner == self) unlockObj(g, "guard"); }
void __cxa_guard_abort(u64* g){ if(on() && obj(g).owner == self) unlockObj(g, "guard"); }

// ---- instrumentation
void __tsan_init(){}
void __tsan_func_entry(void*){}
void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void* a){ access(a, n, false, PC); } void __tsan_write##n(void* a){ access(a, n, true, PC); } \
 void __tsan_unaligned_read##n(void* a){ access(a, n, false, PC); } void __tsan_unaligned_write##n(void* a){ access(a, n, true, PC); } \
 void __tsan_volatile_read##n(void* a){ access(a, n, false, PC); } void __tsan_volatile_write##n(void* a){ access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n){ access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n){ access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v){ if(*a != v) access(a, 8, true, PC); }
void __tsan_vptr_read(void** a){ access(a, 8, false, PC); }
static void aPoint(volatile void* a, size_t n, bool write, u64 pc){ if(on()){ point(write ? K_ARMW : K_ALOAD, (void*)a, write); access(a, n, write, pc, true); } }
static void aAcq(volatile void* a, int mo){ if(on() && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) acq(obj((void*)a).vc); }
static void aRel(volatile void* a, int mo){ if(on() && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) rel(obj((void*)a).vc); }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int mo){ aPoint((volatile void*)a, sizeof(T), false, PC); aAcq((volatile void*)a, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T* a, T v, int mo){ aPoint(a, sizeof(T), true, PC); aRel(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo){ aPoint(a, sizeof(T), true, PC); aAcq(a, mo); aRel(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo){ aPoint(a, sizeof(T), true, PC); aAcq(a, mo); aRel(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo){ aPoint(a, sizeof(T), true, PC); aAcq(a, mo); aRel(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo){ aPoint(a, sizeof(T), true, PC); aAcq(a, mo); aRel(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo){ aPoint(a, sizeof(T), true, PC); aAcq(a, mo); aRel(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo){ aPoint(a, sizeof(T), true, PC); aAcq(a, mo); aRel(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo){ (void)fmo; aPoint(a, sizeof(T), true, PC); aAcq(a, mo); T o = *c; bool r = __atomic_compare_exchange_n(a, &o, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if(r) aRel(a, mo); else *c = o; return r; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo){ return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo){ __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int){ if(on()) point(K_ARMW, (void*)8); }
void __tsan_atomic_signal_fence(int){}
}
// memory is never reused within a controlled execution
__attribute__((noinline)) void* operator new(size_t n){ void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
__attribute__((noinline)) void operator delete(void* p) noexcept { if(!p) return; if(active && nth > 1){ freed(p, PC); return; } free(p); }
__attribute__((noinline)) void operator delete[](void* p) noexcept { if(!p) return; if(active && nth > 1){ freed(p, PC); return; } free(p); }
__attribute__((noinline)) void operator delete(void* p, size_t) noexcept { if(!p) return; if(active && nth > 1){ freed(p, PC); return; } free(p); }
__attribute__((noinline)) void operator delete[](void* p, size_t) noexcept { if(!p) return; if(active && nth > 1){ freed(p, PC); return; } free(p); }

// ---- exploration
namespace sched {
static double mono(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int outFd = -1, errFd = -1, inFd = -1; static std::string dir;
static std::string slurp(int fd){
	std::string r; char b[4096]; ssize_t n; off_t o = 0;
	while((n = pread(fd, b, sizeof b, o)) > 0){ r.append(b, n); o += n; if(r.size() > 100000) break; }
	return r;
}
static void onExit(int st, void*){ if(ex && active){ ex->status = st & 255; ex->verdict = CLEAN; } }
// The program runs once up to the creation of its first thread; every execution is forked off there.
static int zCmd = -1, zRep = -1; static pid_t zPid = -1; static int zRd, zWr, zBase;
static void childInit(){
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	struct itimerval tv{{0, 0}, {20, 0}}; setitimer(ITIMER_REAL, &tv, nullptr);
}
static void serve(){
	zygoteLoop = nullptr; zBase = ex->nev;
	setitimer(ITIMER_REAL, nullptr, nullptr) ;
	int st = -1; char c = 'r';
	while(true){
		if(c == 'r'){
			ex->nev = zBase;
			pid_t pid = fork();
			if(pid == 0){ close(zRd); close(zWr); childInit(); return; }
			while(waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
		}
		if(write(zWr, &st, sizeof st) < 0) _exit(0);
		if(read(zRd, &c, 1) != 1) _exit(0);
	}
}
static void stopZygote(){ if(zPid > 0){ close(zCmd); close(zRep); kill(zPid, SIGKILL); waitpid(zPid, nullptr, 0); } zPid = -1; zCmd = zRep = -1; }
static void runOnce(const Program& p, Result& r){
	ex->verdict = 0; ex->status = -1; ex->nthreads = 1; ex->msg[0] = 0; ex->trace[0] = 0;
	if(ftruncate(outFd, 0) || ftruncate(errFd, 0)){}
	lseek(outFd, 0, SEEK_SET); lseek(errFd, 0, SEEK_SET); lseek(inFd, 0, SEEK_SET);
	int st = -1;
	if(zPid > 0){ if(write(zCmd, "r", 1) < 0){} }
	else {
		ex->nev = 0;
		int a[2], b[2]; if(pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return;
		zPid = fork();
		if(zPid == 0){
			childInit(); signal(SIGALRM, SIG_DFL); signal(SIGPIPE, SIG_IGN);
			zRd = a[0]; zWr = b[1]; close(a[1]); close(b[0]);
			dup2(inFd, 0); dup2(outFd, 1); dup2(errFd, 2);
			if(chdir(dir.c_str())) _exit(98);
			on_exit(onExit, nullptr);
			std::vector<std::string> av0{"funge"}; av0.insert(av0.end(), p.args.begin(), p.args.end());
			static std::vector<char*> av; for(auto& q : av0) av.push_back(strdup(q.c_str())); av.push_back(nullptr);
			static char* envp[] = {nullptr};
			self = 0; nth = 1; for(auto& t : th) t.cause = -1;
			th[0].used = true; th[0].vc.c[0] = 1; th[0].kind = K_NONE;
			zygoteLoop = serve;
			active = true;
			exit(funge_real_main((int)av0.size(), av.data(), envp));
		}
		zCmd = a[1]; zRep = b[0]; close(a[0]); close(b[1]);
	}
	if(read(zRep, &st, sizeof st) != sizeof st){ while(waitpid(zPid, &st, 0) < 0 && errno == EINTR) ; zPid = -1; close(zCmd); close(zRep); }
	r = Result();
	r.verdict = (Verdict)ex->verdict; r.msg = ex->msg; r.status = ex->status; r.trace = ex->trace;
	if(WIFSIGNALED(st)){ r.signal = WTERMSIG(st); r.verdict = NONE; }
	r.out = slurp(outFd); r.err = slurp(errFd);
}
static std::string symbolise(const std::string& m){
	std::string r; size_t i = 0; char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, 511); if(n <= 0) return m; exe[n] = 0;
	while(i < m.size()){
		if(m[i] == '@'){
			size_t e = i + 1; while(e < m.size() && isxdigit(m[e])) ++e;
			std::string cmd = std::string("addr2line -Cfe ") + exe + " 0x" + m.substr(i + 1, e - i - 1) + " 2>/dev/null"; std::string o;
			if(FILE* f = popen(cmd.c_str(), "r")){ char b[1000]; while(fgets(b, 1000, f)){ if(!o.empty()) o += " "; o += b; while(!o.empty() && o.back() == '\n') o.pop_back(); } pclose(f); }
			r += "in " + o; i = e;
		}else r += m[i++];
	}
	return r;
}
std::string describe(const Program& p){
	std::string s = "funge"; for(auto& a : p.args) s += " " + a;
	for(auto& f : p.files){ s += "\n    " + f.first + ": "; for(char c : f.second) if(c == '\n') s += "\\n"; else if((unsigned char)c < 32) s += "?"; else s += c; }
	return s;
}
std::string explore(const Program& p, const Limits& l, const std::function<std::string(const Result&)>& check, Stats& st){
	if(!ex){
		mallopt(M_ARENA_MAX, 1);
		ex = (Exec*)mmap(0, sizeof(Exec), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
		auto big = [](size_t n){ return mmap(0, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); };
		cells = (Rec (*)[512])big(PAGES * sizeof(*cells)); pageTag = (u64*)big(PAGES * 8); lists = (List*)big(MAXLISTS * sizeof(List));
		outFd = memfd_create("out", 0); errFd = memfd_create("err", 0); inFd = memfd_create("in", 0);
	}
	char tmpl[] = "/tmp/vsched.XXXXXX"; if(!mkdtemp(tmpl)) return "cannot create a scratch directory"; dir = tmpl;
	for(auto& f : p.files) if(FILE* o = fopen((dir + "/" + f.first).c_str(), "w")){ fwrite(f.second.data(), 1, f.second.size(), o); fclose(o); }
	if(ftruncate(inFd, 0) || pwrite(inFd, p.input.data(), p.input.size(), 0) < 0){}
	ex->spurious = l.spurious > 0;
	// The tree of choices.  A node is the state before an event; its children are the choices explored there.
	struct Node { int parent; uint32_t done, sleep; uint8_t choice; };
	struct Item { int node; uint8_t choice; uint32_t sleep; uint8_t spur; };
	std::vector<Node> tree;                        // tree[n].choice leads from its parent to it
	std::vector<std::deque<Item>> work(1); std::unordered_set<u64> seen;
	double t0 = mono(); std::string bad; size_t cost = 0;
	tree.push_back({-1, 0, 0, 0});
	bool first = true;
	std::vector<uint8_t> pre; std::vector<int> path, costs;
	while(bad.empty()){
		Item it{-1, 0, 0, 0};
		if(!first){
			for(cost = 0; cost < work.size() && work[cost].empty(); ++cost) ;
			if(cost == work.size()) break;
			if((int)cost > l.deviations){ st.truncated = true; break; }
			if(st.schedules >= l.maxSchedules || mono() - t0 > l.maxSeconds || tree.size() > 12000000){ st.truncated = st.timed = true; break; }
			it = work[cost].back(); work[cost].pop_back();
		}
		first = false;
		pre.clear(); path.clear();
		if(it.node >= 0){
			for(int n = it.node; n >= 0; n = tree[n].parent){ path.push_back(n); if(tree[n].parent >= 0) pre.push_back(tree[n].choice); }
			std::reverse(path.begin(), path.end()); std::reverse(pre.begin(), pre.end());
			pre.push_back(it.choice);
		}else path.push_back(0);
		ex->nprefix = pre.size(); memcpy(ex->prefix, pre.data(), pre.size()); ex->sleep = it.sleep;
		Result r; runOnce(p, r);
		++st.schedules; st.maxThreads = std::max(st.maxThreads, (size_t)ex->nthreads);
		int n = ex->nev; if(n > MAXE) n = MAXE;
		if(n > 0 && r.verdict != CLEAN && ex->ev[n - 1].kind == 0) --n;
		st.events += n > (int)pre.size() ? n - pre.size() : 0;
		std::string m;
		if(r.verdict == REDUNDANT) ++st.redundant;
		else if(r.verdict == DIVERGED) m = "the execution did not repeat its own schedule (nondeterminism outside the scheduler)";
		else if(r.signal) m = r.signal == SIGALRM ? "an instruction did not end within 20 s" : std::string("crash: ") + strsignal(r.signal);
		else if(r.verdict == NONE) m = "the process ended without running its exit handlers";
		else if(r.verdict != CLEAN) m = symbolise(r.msg);
		else m = check(r);
		if(!m.empty()){
			std::string s; for(int i = 0, j; i < n && s.size() < 900; i = j){ for(j = i; j < n && ex->ev[j].tid == ex->ev[i].tid; ++j); s += " " + std::to_string(ex->ev[i].tid) + "x" + std::to_string(j - i); }
			bad = m + "\n  schedule (" + std::to_string(cost) + " preemptions): " + s + "\n  output \"" + r.out + "\" errors \"" + r.err.substr(0, 300) + "\" exit status " + std::to_string(r.status) + (r.trace.empty() ? "" : "\n  last operations: " + r.trace);
			break;
		}
		// nodes for the new part
		for(int i = path.size(); i < n; ++i){
			int par = path[i - 1]; uint8_t ch = ex->ev[i - 1].tid;
			tree[par].done |= 1u << ch;
			tree.push_back({par, 0, ex->ev[i].sleep, ch}); path.push_back(tree.size() - 1);
		}
		if(n > 0) tree[path[n - 1]].done |= 1u << ex->ev[n - 1].tid;
		costs.assign(n + 1, 0);
		auto dev = [&](int i, int t){ const Ev& e = ex->ev[i]; return (e.cur != t && (e.en >> e.cur & 1) && !e.yield) ? 1 : 0; };
		for(int i = 0; i < n; ++i){ costs[i + 1] = costs[i] + dev(i, ex->ev[i].tid); seen.insert(mixh(ex->ev[i].hash, 1)); }
		// how often in a row a thread has gone on although it offered to let another one run
		std::vector<int> unfair(n + 1, 0);
		for(int i = 0; i < n; ++i){ const Ev& e = ex->ev[i]; unfair[i + 1] = !e.yield ? unfair[i] : e.tid == e.cur && (e.en & ~(1u << e.cur)) ? unfair[i] + 1 : 0; }
		auto branch = [&](int i, int t, int sp){
			Node& q = tree[path[i]];
			if(ex->ev[i].yield && t == ex->ev[i].cur && unfair[i] >= 12) return;
			if(q.done >> t & 1) return;
			if(!sp && (q.sleep >> t & 1)) return;
			uint32_t sl = q.sleep | q.done; q.done |= 1u << t;
			int c = costs[i] + dev(i, t) + sp;
			if((int)work.size() <= c) work.resize(c + 1);
			work[c].push_back({path[i], (uint8_t)t, sl & ~(1u << t), 0});
		};
		// reverse every race of the new part
		std::vector<std::array<int, MAXT>> clk(MAXT); for(auto& c : clk) c.fill(-1);
		std::vector<std::array<int, MAXT>> evc(n);
		struct OS { int w = -1; std::vector<int> reads; std::array<int, MAXT> wc, rc; OS(){ wc.fill(-1); rc.fill(-1); } };
		std::unordered_map<u64, OS> os;
		auto joinC = [](std::array<int, MAXT>& a, const std::array<int, MAXT>& b){ for(int i = 0; i < MAXT; ++i) if(b[i] > a[i]) a[i] = b[i]; };
		// events b and k are concurrent and dependent: some schedule must run k's side first.  v is what does not
		// depend on b, followed by k; it suffices to start with any thread that can begin v.
		auto reverse = [&](int b, int k, const OS& o){
			int t = ex->ev[k].tid, tb = ex->ev[b].tid;
			if(tb == t || clk[t][tb] >= b) return;
			std::array<int, MAXT> firstV; firstV.fill(1 << 30); uint32_t init = 0;
			auto starts = [&](int p, const std::array<int, MAXT>& c){ for(int q = 0; q < MAXT; ++q) if(q != p && c[q] >= firstV[q]) return; init |= 1u << p; };
			for(int j = b + 1; j < k; ++j){
				int p = ex->ev[j].tid;
				if(evc[j][tb] >= b || firstV[p] != 1 << 30) continue;
				firstV[p] = j; starts(p, evc[j]);
			}
			if(firstV[t] == 1 << 30){
				if(!(ex->ev[b].en >> t & 1)) { if(!init) return; }
				else {
					auto c = clk[t];
					if(o.w >= 0 && o.w != b && evc[o.w][tb] < b) joinC(c, evc[o.w]);
					for(int j : o.reads) if(j != b && ex->ev[k].write && evc[j][tb] < b) joinC(c, evc[j]);
					starts(t, c);
				}
			}
			Node& q = tree[path[b]];
			if(!init || (init & (q.done | q.sleep))) return;
			for(int i = 0; i < MAXT; ++i){ int p = (t + i) % MAXT; if((init >> p & 1) && (ex->ev[b].en >> p & 1)){ branch(b, p, 0); return; } }
		};
		int spurs = 0;
		for(int k = 0; k < n; ++k){
			const Ev& e = ex->ev[k]; int t = e.tid;
			if(e.spur >> t & 1) ++spurs;
			if(e.cause >= 0 && e.cause < k) joinC(clk[t], evc[e.cause]);
			if(e.obj){
				OS& o = os[e.obj];
				if(k >= (int)pre.size() - 1 && e.kind != K_JOIN){
					if(o.w >= 0) reverse(o.w, k, o);
					if(e.write) for(int j : o.reads) reverse(j, k, o);
				}
				if(e.write){ joinC(clk[t], o.wc); joinC(clk[t], o.rc); }
				else joinC(clk[t], o.wc);
				clk[t][t] = k;
				if(e.write){ o.w = k; o.reads.clear(); o.wc = clk[t]; o.rc.fill(-1); }
				else { o.reads.push_back(k); joinC(o.rc, clk[t]); }
			}else clk[t][t] = k;
			evc[k] = clk[t];
			// a wake-up for no reason directly after the wait began
			if(k >= (int)pre.size() - 1 && k > 0 && ex->ev[k - 1].kind == K_CWAIT && (e.spur >> ex->ev[k - 1].tid & 1) && spurs < l.spurious) branch(k, ex->ev[k - 1].tid, 1);
		}
	}
	stopZygote();
	st.complete = !st.truncated; st.bound = st.timed ? (int)cost - 1 : l.deviations;
	st.states = seen.size();
	for(auto& f : p.files) unlink((dir + "/" + f.first).c_str());
	rmdir(dir.c_str());
	return bad;
}
}
