// Reference machine: an independent, deliberately plain model of what one Funge++ universe does.
// It shares no code with /repo.  One call to tick() is one tick of one IP.
#pragma once
#include <array>
#include <cstdint>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <stdexcept>

namespace ref {
typedef int64_t i64;
typedef uint64_t u64;
constexpr int ND = 8;
struct Pos {
	std::array<i64, ND> v{};
	Pos() = default;
	Pos(std::initializer_list<i64> l){ int i = 0; for(i64 x : l) v[i++] = x; }
	i64& operator[](int i){ return v[i]; }
	i64 operator[](int i) const { return v[i]; }
	bool operator==(const Pos& o) const { return v == o.v; }
	bool operator!=(const Pos& o) const { return v != o.v; }
	bool operator<(const Pos& o) const { return v < o.v; }
	Pos operator+(const Pos& o) const { Pos r; for(int i = 0; i < ND; ++i) r.v[i] = (i64)((u64)v[i] + (u64)o.v[i]); return r; }
	Pos operator-() const { Pos r; for(int i = 0; i < ND; ++i) r.v[i] = (i64)(0 - (u64)v[i]); return r; }
	std::string str() const;
};

enum Std { S93 = 93, S98 = 98, FISH = -1, STARFISH = -2 };
enum Topo { TORUS, LAHEY };
enum Strs { MULTI, SGML, CSTR };
enum Err { NONE, SKIP, BLOCK, UNIMP, NOTAVAIL, UNSPEC };
enum Mode : unsigned { M_DEBUG = 0x400, M_HOVER = 0x2000, M_INVERT = 0x4000, M_QUEUE = 0x8000, M_SWITCH = 0x10000, M_DIVE = 0x20000 };

struct Config {
	Std std = S98;
	int dims = 2;
	Topo topo = LAHEY;
	Strs strs = SGML;
	bool charCells = false;
	bool concurrent = true, execute = true, filesystem = true, fingerprint = true, inverthl = false;
	std::vector<u64> fingerprints;
	std::vector<std::string> args, env;
	std::string name;
	bool dynamic = false;      // universe of a funge-lib: created by a caller
};

struct Field {
	std::map<Pos, i64> cells;
	Pos lo, hi;
	bool charCells = false;
	std::vector<Pos> touched;  // positions written since last cleared
	std::vector<std::pair<Pos, i64>>* log = nullptr;
	std::function<void(const Pos&, i64)> onWrite;   // before a cell is written
	i64 get(const Pos& p) const { auto f = cells.find(p); return f == cells.end() ? ' ' : f->second; }
	void put(const Pos& p, i64 v);
	bool inside(const Pos& p, int dims) const { for(int i = 0; i < dims; ++i) if(p[i] < lo[i] || p[i] > hi[i]) return false; return true; }
	// text loading; returns size
	Pos parse(const Pos& start, const std::string& text, bool binary, int dims);
	void parseFL(const std::string& text);
	// returns the number of dimensions the file states (0: none); throws Unmodelled if it is malformed
	int parseBeq(const std::string& text);
	std::string dump(const Pos& start, const Pos& size, bool binary) const;
	int used() const { return usedDims; }
	int blankDims = 0;         // ... or by any character of a BeQunge file
	int usedDims = 0;          // number of dimensions ever addressed by a non-blank store
	u64 hash() const;
};

typedef std::deque<i64> Stack;   // back is top in normal mode

struct Sem {
	enum K { BASE, FP, REFL } k; u64 fp; int ch;
	bool movement;
};

struct Machine; struct IP;

struct FpState {
	bool subrRel = false; bool fisherUp = true; Pos fisherCache{1}; bool dormant = false; u64 sage = 0; i64 mark = -1;
	bool isFL = false; std::string letters; std::shared_ptr<Machine> dyn;
};

struct IP {
	u64 id = 0;
	bool hasParent = false; u64 parent = 0;
	Pos pos, delta{1}, storage;
	bool stopped = false;
	std::shared_ptr<std::vector<Stack>> st;  // back = top of stack-stack
	std::shared_ptr<std::vector<u64>> ages;  // operation counts per stack
	size_t select = 0;
	bool strMode = false; i64 strEnd = '"'; i64 strPrev = 0;
	std::map<i64, std::vector<Sem>> sems;
	std::vector<u64> loaded;
	std::map<u64, FpState> fps;              // available instances
	// fish
	struct Reg { bool set = false; double v = 0; };
	std::vector<Reg> regs;
	bool fisherUp = true; Pos fisherCache{1};
	bool fileOpen = false; std::string filePath; std::string fileData; size_t filePos = 0; bool fileBad = false;
	Machine* home = nullptr;                 // machine whose space it executes in
};

struct Diverge : std::runtime_error { Diverge() : std::runtime_error("diverge") {} };
struct Unmodelled : std::runtime_error { explicit Unmodelled(const std::string& s) : std::runtime_error(s) {} };

std::string shellWords(const std::string& c);
struct Env {  // outside world of the machine
	std::string in; size_t inPos = 0;
	std::string out;
	std::vector<std::string> systems; int systemRet = 0;
	std::map<std::string, std::string> files;  // virtual file system for i/o instructions
	std::set<std::string> dirs;                // directories (relative to the scratch directory)
	std::string cwd;                           // "" or "dir/"
	std::map<i64, Pos> refs;                   // REFC references
	u64 handprint = 0x464e2b2b, version = 1;
	i64 now = 0; i64 nowNs = 0; // fixed time
	int tm_hour = 0, tm_min = 0, tm_sec = 0, tm_year = 70, tm_mon = 0, tm_mday = 1;
	std::function<Err(Machine&, IP&, int)> mvrs;                      // several universes
	std::function<const std::string*(const std::string&)> fungelib;   // text of NAME.fl or null
};

struct Machine {
	Config cfg;
	Field field;
	Env* env;
	unsigned mode = 0;
	std::list<std::unique_ptr<IP>> ips;      // round robin order; front runs next
	int exitcode = 0;
	bool quit = false;
	u64 nextId = 0;
	IP* caller = nullptr;                    // set for funge-lib universes
	u64 steps = 0, stepLimit = 20000;        // inner-loop budget of one tick
	// nondeterminism: set by '?', resolved by the harness
	std::vector<std::pair<i64, i64>> iterated;
	bool pendingRandom = false;
	bool pendingPut = false;                 // ... and the direction is also written to the cell
	int anyNan = 0;                          // the arbitrary value is a NaN of this size
	i64 anyLo = INT64_MIN, anyHi = INT64_MAX;
	bool pendingAny = false;                 // a value was chosen arbitrarily (REFC ids, random numbers)
	std::function<void(IP&)> onStep, onTrap; // before each instruction; when one fails
	std::function<Err(IP&, int)> debug;      // the instructions of DBUG
	std::function<i64(const char*)> chooser; // supplies values for REFC/FIXP D
	bool deferNext = false;

	explicit Machine(const Config& c, Env* e) : cfg(c), env(e) { field.charCells = c.charCells; }
	void load(const std::string& text, char fmt);   // b: plain, f: funge-lib, q: BeQunge
	IP* addIP(const Pos& pos, const Pos& delta);
	void tick(IP& ip);                       // one tick (may throw Diverge)
	void finishRandom(IP& ip, const Pos& delta);
	u64 hashIP(const IP& ip) const;

	// helpers
	bool isMode(unsigned m) const { return (mode & m) != 0; }
	Stack& top(IP& ip, size_t n = 0);
	u64& topAge(IP& ip, size_t n = 0);
	i64 popS(Stack& s, u64* age = nullptr); void pushS(Stack& s, i64 v, u64* age = nullptr); i64 getS(const Stack& s, u64 n) const;
	i64 peekS(const Stack& s) const;
	i64 pop(IP& ip){ return popS(top(ip), &topAge(ip)); }
	void push(IP& ip, i64 v){ pushS(top(ip), v, &topAge(ip)); }
	Pos popVec(IP& ip, int d = -1, size_t n = 0);
	int pushVec(IP& ip, const Pos& p, size_t n = 0);
	std::string popStr(IP& ip);
	int pushStr(IP& ip, const std::string& s);
	double popD(IP& ip, size_t n = 0); void pushD(IP& ip, double d, size_t n = 0);
	Pos popVecD(IP& ip, size_t n = 0);
	void next(IP& ip);
	void setDelta(IP& ip, const Pos& d);
	void reflect(IP& ip){ ip.delta = -ip.delta; }
	static Pos leftOf(const Pos& d){ Pos r = d; r[0] = d[1]; r[1] = (i64)(0 - (u64)d[0]); return r; }
	static Pos rightOf(const Pos& d){ Pos r = d; r[0] = (i64)(0 - (u64)d[1]); r[1] = d[0]; return r; }
	Err exec(IP& ip, i64 c);
	Err execSem(IP& ip, const Sem& s);
	Err execBase(IP& ip, int c);
	Err execFp(IP& ip, u64 fp, int c);
	Err execFish(IP& ip, int c);
	Err execFL(IP& ip, u64 fp, int c);
	void setBase(IP& ip);
	bool loadFp(IP& ip, u64 fp);
	bool unloadFp(IP& ip, u64 fp);
	static const char* fpLetters(u64 fp);
	IP* clone(IP& ip);
	void count(){ if(++steps > stepLimit) throw Diverge(); }
	void sysinfo(IP& ip, i64 n);
	IP* find(u64 id);
	bool copySpace(const Pos& src, const Pos& size, const Pos& dest, bool low, bool move);
	int inCh(){ return env->inPos < env->in.size() ? (unsigned char)env->in[env->inPos++] : -1; }
	static std::string fpName(u64 fp);
};
u64 mix(u64 h, u64 v);
constexpr u64 fpid(const char* s){ u64 r = 0; while(*s) r = (r << 8) + (unsigned char)*s++; return r; }
}
