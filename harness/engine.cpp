#include "engine.h"
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace eng {
Options opt;
static std::vector<Family> fams;
static FILE* OUT;   // the harness's own stdout: survives redirection of fd 1
bool thorough(){ return opt.tier == "thorough"; }

static double mono(){
	struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
struct Slot {
	std::atomic<int> busy; std::atomic<u64> fam, idx, end; std::atomic<u64> startMs; std::atomic<int> stage;
	char note[3000];
	u64 hist[2 * 512]; std::atomic<int> nhist;   // what this process has executed, as [from, to) ranges
};
struct Note { char name[96]; std::atomic<u64> n; };
struct Shared {
	std::atomic<u64> next; std::atomic<u64> cnt[C_N]; std::atomic<u64> distinct; std::atomic<u64> overflow;
	std::atomic<u64> failures; std::atomic<int> stop;
	Slot slot[64];
	Note notes[128];
	std::atomic<int> noteLock;
	std::atomic<u64> famDone[256];
	std::atomic<u64> nsamples;
	char samples[24][600];
};
static Shared* sh;
static std::atomic<u64>* table; static u64 tmask;
static int failFd = -1;
static Slot* mySlot;

void Ctx::state(u64 h){
	if(h == 0) h = 1;
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; if(h == 0) h = 1;
	for(u64 i = h & tmask, n = 0; n < 64; ++n, i = (i + 1) & tmask){
		u64 v = table[i].load(std::memory_order_relaxed);
		if(v == h) return;
		if(v == 0){ u64 e = 0; if(table[i].compare_exchange_strong(e, h)){ sh->distinct++; return; } if(e == h) return; }
	}
	sh->overflow++;
}
void Ctx::add(Cnt c, u64 n){ sh->cnt[c].fetch_add(n, std::memory_order_relaxed); }
void Ctx::note(const std::string& r){
	for(int i = 0; i < 128; ++i){
		if(sh->notes[i].name[0] == 0){
			while(sh->noteLock.exchange(1)) ;
			if(sh->notes[i].name[0] == 0){ strncpy(sh->notes[i].name, r.c_str(), 95); }
			sh->noteLock = 0;
		}
		if(strncmp(sh->notes[i].name, r.c_str(), 95) == 0){ sh->notes[i].n++; return; }
	}
}
void Ctx::fail(const std::string& m){ if(!failed){ failed = true; failMsg = m; } }
static bool noting = false;
void crashNote(const std::string& s){ if(noting && mySlot){ strncpy(mySlot->note, s.c_str(), 2999); } }
void Ctx::sample(const std::string& s){ log = s; }

std::string quote(const std::string& s){
	std::string r;
	for(unsigned char c : s){
		if(c == '\n') r += "\\n"; else if(c == '\\') r += "\\\\"; else if(c == '"') r += "\\\"";
		else if(c < 32 || c >= 127){ char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c;
	}
	return r;
}
static std::string jq(const std::string& s){
	std::string r = "\"";
	for(unsigned char c : s){
		if(c == '\n') r += "\\n"; else if(c == '\\') r += "\\\\"; else if(c == '"') r += "\\\"";
		else if(c < 32 || c >= 127){ char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c;
	}
	return r + "\"";
}
static void runCase(u64 f, u64 i, Ctx& c){
	c.fam = fams[f].name; c.idx = i; c.key = c.fam + ":" + std::to_string(i);
	fams[f].run(i, c);
	c.add(C_CASES);
}
static std::string histStr(const Slot& s, u64 g){
	std::string r; int n = s.nhist;
	if(n <= 0 || n >= 512) return "-";
	for(int k = 0; k < n; ++k) r += (k ? "," : "") + std::to_string(s.hist[2 * k]) + "-" + std::to_string(k + 1 < n ? s.hist[2 * k + 1] : g + 1);
	return r;
}
static void histAdd(u64 g, u64 end){ int n = mySlot->nhist; if(n < 511){ mySlot->hist[2 * n] = g; mySlot->hist[2 * n + 1] = end; } mySlot->nhist = std::min(n + 1, 512); }
static void recordFail(u64 f, u64 i, const std::string& key, const std::string& msg, const std::string& hist){
	std::string rec = hist + "\t" + std::to_string(f) + "\t" + std::to_string(i) + "\t" + quote(key) + "\t" + quote(msg.substr(0, 6000)) + "\n";
	if(write(failFd, rec.data(), rec.size()) < 0){}
	sh->failures++;
}
static u64 totalWork, chunk = 32;
static std::vector<u64> starts;
static void locate(u64 g, u64& f, u64& i){ f = std::upper_bound(starts.begin(), starts.end(), g) - starts.begin() - 1; i = g - starts[f]; }

[[noreturn]] static void worker(int s, double deadline){
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	setpgid(0, 0);
	mySlot = &sh->slot[s];
	workerInit(s);
	u64 done = 0, limit = 0;
	mySlot->nhist = 0;
	if(mySlot->idx < mySlot->end) histAdd(mySlot->idx, mySlot->end);
	while(!sh->stop){
		if(mySlot->idx >= mySlot->end){
			if(mono() > deadline){ sh->stop = 2; break; }
			u64 a = sh->next.fetch_add(chunk);
			if(a >= totalWork) break;
			mySlot->idx = a; mySlot->end = std::min(a + chunk, totalWork);
			histAdd(a, mySlot->end);
		}
		u64 g = mySlot->idx, f, i;
		locate(g, f, i);
		limit = fams[f].recycle;
		mySlot->startMs = (u64)(mono() * 1000); mySlot->busy = 1;
		Ctx c;
		runCase(f, i, c);
		mySlot->busy = 0;
		sh->famDone[f]++;
		if(c.failed){ recordFail(f, i, c.key, c.failMsg + "\n" + c.log, histStr(*mySlot, g)); if(sh->failures > 400) sh->stop = 1; }
		else if(!c.log.empty() && (g % std::max<u64>(1, totalWork / 16)) == 0){
			u64 n = sh->nsamples++; if(n < 24) strncpy(sh->samples[n], (c.fam + ":" + std::to_string(i) + " " + c.log).c_str(), 599);
		}
		mySlot->idx = g + 1;
		if(++done >= limit || c.failed){ workerExit(); _exit(7); }
	}
	workerExit();
	_exit(0);
}
// run one case in a process of its own; returns description of the failure or ""
static std::string runAlone(u64 f, u64 i, double timeout, std::string* key, bool replay, const std::string& hist = ""){
	int p[2]; if(pipe(p)) return "pipe";
	fflush(OUT);
	pid_t pid = fork();
	if(pid == 0){
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setpgid(0, 0);
		close(p[0]);
		if(p[1] < 100){ int n = fcntl(p[1], F_DUPFD_CLOEXEC, 200); close(p[1]); p[1] = n; }
		mySlot = &sh->slot[63]; noting = true; mySlot->note[0] = 0;
		workerInit(63);
		for(const char* h = hist.c_str(); *h; ){       // the executions that went before it in the sweep
			char* e; u64 a = strtoull(h, &e, 10), b = strtoull(e + 1, &e, 10); h = *e ? e + 1 : e;
			for(u64 g = a; g < b; ++g){ u64 ff, ii; locate(g, ff, ii); if(ff == f && ii == i && !*h && g + 1 == b) break; Ctx q; runCase(ff, ii, q); }
		}
		Ctx c; c.replay = replay;
		runCase(f, i, c);
		std::string r = (c.failed ? "F" : "O") + c.key + "\n" + (c.failed ? c.failMsg + "\n" : "") + c.log;
		if(write(p[1], r.data(), r.size()) < 0){}
		workerExit();
		_exit(0);
	}
	close(p[1]);
	double t0 = mono(); int st = 0; bool ended = false; std::string r;
	fcntl(p[0], F_SETFL, O_NONBLOCK);
	while(true){
		char b[65536]; ssize_t n;
		while((n = read(p[0], b, sizeof b)) > 0) r.append(b, n);
		if(!ended && waitpid(pid, &st, WNOHANG) == pid){ ended = true; continue; }
		if(ended) break;
		if(mono() - t0 > timeout){ kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); close(p[0]); return "hang: did not finish within " + std::to_string((int)timeout) + " s\n  case: " + sh->slot[63].note; }
		usleep(2000);
	}
	close(p[0]);
	kill(-pid, SIGKILL);
	if(r.empty()){
		if(WIFSIGNALED(st)) return std::string("crash: killed by signal ") + strsignal(WTERMSIG(st)) + "\n  case: " + sh->slot[63].note;
		if(WEXITSTATUS(st) == 9) return std::string("hang: waits for ever, nothing can wake it\n  case: ") + sh->slot[63].note;
		return "process ended unexpectedly with status " + std::to_string(WEXITSTATUS(st)) + "\n  case: " + sh->slot[63].note;
	}
	size_t nl = r.find('\n');
	if(key) *key = r.substr(1, nl - 1);
	if(replay) fprintf(OUT, "%s\n", r.substr(nl + 1).c_str());
	if(r[0] == 'F') return r.substr(nl + 1);
	return "";
}
static void writeFile(const std::string& p, const std::string& s){ FILE* f = fopen(p.c_str(), "w"); if(f){ fwrite(s.data(), 1, s.size(), f); fclose(f); } }

int engineMain(int argc, char** argv){
	std::string single, before; bool list = false; std::string only;
	for(int a = 1; a < argc; ++a){
		std::string s = argv[a]; auto nxt = [&]{ return std::string(argv[++a]); };
		if(s == "--prop") opt.prop = nxt(); else if(s == "--tier") opt.tier = nxt(); else if(s == "--evidence") opt.out = nxt();
		else if(s == "--known") opt.known = nxt(); else if(s == "--replays") opt.replayDir = nxt(); else if(s == "--workers") opt.workers = atoi(argv[++a]);
		else if(s == "--deadline") opt.deadline = atof(argv[++a]); else if(s == "--case") single = nxt(); else if(s == "--list") list = true;
		else if(s == "--only") only = nxt(); else if(s == "--before") before = nxt();
	}
	{ int fd = fcntl(1, F_DUPFD_CLOEXEC, 100); OUT = fdopen(fd, "w"); }
	double t0 = mono();
	if(thorough()) opt.hashBits = 27;
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	table = (std::atomic<u64>*)mmap(0, 8ull << opt.hashBits, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	tmask = (1ull << opt.hashBits) - 1;
	families(fams);
	if(!only.empty()){ std::vector<Family> k; for(auto& f : fams) if(f.name.find(only) != std::string::npos) k.push_back(f); fams = k; }
	for(auto& f : fams){ starts.push_back(totalWork); totalWork += f.total; }
	if(list){ for(auto& f : fams) fprintf(OUT, "%-24s %10llu  %s\n", f.name.c_str(), (unsigned long long)f.total, f.what.c_str()); fflush(OUT); return 0; }
	if(!single.empty()){
		size_t k = single.rfind(':'); std::string n = single.substr(0, k); u64 i = strtoull(single.c_str() + k + 1, 0, 10);
		for(u64 f = 0; f < fams.size(); ++f) if(fams[f].name == n && i < fams[f].total){
			std::string r = runAlone(f, i, opt.caseTimeout2, nullptr, true, before);
			fprintf(OUT, "%s\n", r.empty() ? "PASS" : r.compare(0,4,"hang")==0||r.compare(0,5,"crash")==0 ? ("FAIL " + r).c_str() : "FAIL"); fflush(OUT);
			return r.empty() ? 0 : 1;
		}
		fprintf(OUT, "no such case\n"); fflush(OUT); return 2;
	}
	char tmpl[] = "/tmp/vfail.XXXXXX"; failFd = mkstemp(tmpl); unlink(tmpl);
	{ int n = fcntl(failFd, F_DUPFD_CLOEXEC, 150); close(failFd); failFd = n; fcntl(failFd, F_SETFL, O_APPEND); }
	int W = std::min(opt.workers, 60);
	chunk = std::max<u64>(1, std::min<u64>(64, totalWork / (W * 16) + 1));
	std::vector<pid_t> pids(W, 0); std::vector<bool> fin(W, false);
	double deadline = t0 + opt.deadline;
	struct Crash { u64 g; std::string why, hist; }; std::vector<Crash> crashes; int hangs = 0;
	int live = 0, finished = 0;
	auto spawn = [&](int w){ fflush(OUT); sh->slot[w].busy = 0; pid_t p = fork(); if(p == 0) worker(w, deadline); pids[w] = p; ++live; };
	for(int w = 0; w < W; ++w) spawn(w);
	while(finished < W){
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if(p > 0){
			for(int w = 0; w < W; ++w) if(pids[w] == p){
				--live; pids[w] = 0;
				kill(-p, SIGKILL);
				if(WIFEXITED(st) && WEXITSTATUS(st) == 0){ ++finished; }
				else if(WIFEXITED(st) && WEXITSTATUS(st) == 7){ if(sh->stop) ++finished; else spawn(w); }
				else {
					u64 g = sh->slot[w].idx;
					crashes.push_back({g, WIFSIGNALED(st) ? (WTERMSIG(st) == SIGKILL ? "hang" : "crash") : "exit", histStr(sh->slot[w], g)});
					if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && ++hangs > 12) sh->stop = 1;
					sh->slot[w].idx = g + 1; u64 f, i; locate(g, f, i); sh->famDone[f]++;
					if(crashes.size() > 60) sh->stop = 1;
					if(sh->stop) ++finished; else spawn(w);
				}
			}
			continue;
		}
		u64 now = (u64)(mono() * 1000);
		for(int w = 0; w < W; ++w) if(pids[w] && sh->slot[w].busy && now > sh->slot[w].startMs + (u64)(opt.caseTimeout * 1000)){ kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); sh->slot[w].startMs = now + 5000; }
		usleep(3000);
	}
	// known findings
	std::set<std::string> known; std::map<std::string, std::string> knownText;
	if(!opt.known.empty()) if(FILE* f = fopen(opt.known.c_str(), "r")){
		char line[4096];
		while(fgets(line, sizeof line, f)){
			std::string l = line; while(!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
			if(l.compare(0, 6, "known:") != 0) continue;
			size_t a = l.find("property="); if(a == std::string::npos) continue;
			std::string pr = l.substr(a + 9, l.find(' ', a) - a - 9); if(pr != opt.prop) continue;
			size_t b = l.find("case=", a); if(b == std::string::npos) continue;
			std::string k = l.substr(b + 5, l.find(' ', b) - b - 5); std::string t = l.size() > b + 5 + k.size() ? l.substr(b + 6 + k.size()) : "";
			known.insert(k); knownText[k] = t;
		}
		fclose(f);
	}
	// re-run failures alone
	struct Rec { u64 f, i; std::string key, msg, hist; }; std::vector<Rec> recs;
	{
		lseek(failFd, 0, SEEK_SET); std::string all; char b[65536]; ssize_t n; while((n = read(failFd, b, sizeof b)) > 0) all.append(b, n);
		size_t i = 0; while(i < all.size()){ size_t e = all.find('\n', i); std::string l = all.substr(i, e - i); i = e + 1;
			size_t t0 = l.find('\t'), t1 = l.find('\t', t0 + 1), t2 = l.find('\t', t1 + 1), t3 = l.find('\t', t2 + 1); Rec r{strtoull(l.c_str() + t0 + 1, 0, 10), strtoull(l.c_str() + t1 + 1, 0, 10), l.substr(t2 + 1, t3 - t2 - 1), l.substr(t3 + 1), l.substr(0, t0)}; recs.push_back(r); }
		for(auto& c : crashes){ u64 f, ii; locate(c.g, f, ii); recs.push_back({f, ii, fams[f].name + ":" + std::to_string(ii), c.why, c.hist}); }
		std::sort(recs.begin(), recs.end(), [](const Rec& a, const Rec& b){ return a.f != b.f ? a.f < b.f : a.i < b.i; });
	}
	int viol = 0, unstable = 0, kn = 0; double t1 = mono();
	std::set<std::string> knownSeen; int tries = 0, chang = 0;
	mkdir(opt.replayDir.c_str(), 0777);
	for(auto& r : recs){
		if(known.count(r.key)){ knownSeen.insert(r.key); ++kn; continue; }
		if(viol >= 12 || mono() - t1 > 240) break;
		if(r.msg == "hang" && chang >= 2) continue;
		std::string key = r.key;
		std::string why = runAlone(r.f, r.i, opt.caseTimeout2, &key, false);
		std::string how = "";
		if(why.empty() && r.hist != "-" && tries++ < 12){   // does it depend on what went before in the same process?
			why = runAlone(r.f, r.i, 120, &key, false, r.hist);
			if(!why.empty()){ std::string again = runAlone(r.f, r.i, 120, &key, false, r.hist); if(again.empty()) why.clear(); else how = r.hist; }
		}
		if(why.empty()){ ++unstable; if(unstable <= 5) fprintf(OUT, "note: %s:%llu failed in the sweep but passes when repeated: %s\n", fams[r.f].name.c_str(), (unsigned long long)r.i, r.msg.substr(0, 300).c_str()); continue; }
		if(known.count(key)){ knownSeen.insert(key); ++kn; continue; }
		++viol; if(why.compare(0, 5, "hang:") == 0) ++chang;
		std::string file = opt.replayDir + "/" + opt.prop + "-" + fams[r.f].name + "-" + std::to_string(r.i) + ".txt";
		writeFile(file, "property " + opt.prop + "\ncase " + fams[r.f].name + ":" + std::to_string(r.i) + "\nreplay with: python3 /verif/run.py " + opt.prop + " --tier " + opt.tier + " --case " + fams[r.f].name + ":" + std::to_string(r.i) + (how.empty() ? "" : " --before " + how) + "\n" + why + "\n");
		fprintf(OUT, "VIOLATION property=%s replay=%s\n", opt.prop.c_str(), file.c_str());
		if(viol <= 4) fprintf(OUT, "  %s:%llu\n%s\n", fams[r.f].name.c_str(), (unsigned long long)r.i, why.substr(0, 1800).c_str());
	}
	for(auto& k : knownSeen) fprintf(OUT, "KNOWN-FINDING: property=%s %s %s\n", opt.prop.c_str(), k.c_str(), knownText[k].c_str());
	bool complete = sh->stop == 0;
	if(sh->stop == 2) fprintf(OUT, "note: time budget used up; the remaining executions were not explored\n");
	double wall = mono() - t0;
	u64 cs = sh->cnt[C_CASES];
	std::string ev = "{\n \"property\": " + jq(opt.prop) + ",\n \"tier\": " + jq(opt.tier) + ",\n \"seed\": " + std::to_string(getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1) + ",\n \"level\": \"model_checking\",\n \"coverage\": {\n";
	auto num = [&](const char* k, u64 v){ ev += "  " + jq(k) + ": " + std::to_string(v) + ",\n"; };
	num("states", sh->distinct); num("transitions", sh->cnt[C_TRANS]); num("traces_validated_against_impl", sh->cnt[C_TRACES]);
	num("executions", cs); num("executions_planned", totalWork); num("cut_by_tick_limit", sh->cnt[C_CUT]); num("specified_divergence", sh->cnt[C_DIVERGE]);
	num("outside_model", sh->cnt[C_UNMOD]); num("nondeterministic_choices_adopted", sh->cnt[C_ADOPT]); num("schedules", sh->cnt[C_SCHED]);
	if(sh->overflow) num("states_not_counted_table_full", sh->overflow);
	num("violations", viol); num("known_findings", kn); num("unstable", unstable);
	ev += "  \"complete\": " + std::string(complete ? "true" : "false") + ",\n  \"families\": {";
	for(size_t f = 0; f < fams.size(); ++f) ev += std::string(f ? "," : "") + "\n   " + jq(fams[f].name) + ": {\"what\": " + jq(fams[f].what) + ", \"planned\": " + std::to_string(fams[f].total) + ", \"done\": " + std::to_string(sh->famDone[f]) + "}";
	ev += "\n  },\n  \"notes\": {";
	for(int i = 0, c = 0; i < 128 && sh->notes[i].name[0]; ++i) ev += std::string(c++ ? "," : "") + "\n   " + jq(sh->notes[i].name) + ": " + std::to_string(sh->notes[i].n);
	ev += "\n  },\n  \"samples\": [";
	for(u64 i = 0; i < std::min<u64>(sh->nsamples, 24); ++i) ev += std::string(i ? "," : "") + "\n   " + jq(sh->samples[i]);
	char w[32]; snprintf(w, 32, "%.2f", wall);
	ev += "\n  ]\n },\n \"wall_s\": " + std::string(w) + "\n}\n";
	if(!opt.out.empty()) writeFile(opt.out, ev);
	fprintf(OUT, "%s %s: %llu executions, %llu transitions, %llu distinct states, %d violations, %d known, %d unstable, %.1f s%s\n", opt.prop.c_str(), opt.tier.c_str(), (unsigned long long)cs, (unsigned long long)sh->cnt[C_TRANS], (unsigned long long)sh->distinct, viol, kn, unstable, wall, complete ? "" : " (incomplete)");
	fflush(OUT);
	if(cs == 0){ fprintf(OUT, "nothing was explored\n"); fflush(OUT); return 2; }
	return viol ? 1 : 0;
}
}
