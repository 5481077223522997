#include "cli.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace cli {
static double mono(){ struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string slurp(int fd){ off_t z = lseek(fd, 0, SEEK_END); if(z > 1 << 20) z = 1 << 20; std::string s(z, 0); ssize_t k = pread(fd, s.data(), z, 0); s.resize(k < 0 ? 0 : k); return s; }
std::string describe(const Run& r){
	std::string s = "funge";
	for(auto& a : r.args) s += " \"" + eng::quote(a) + "\"";
	for(auto& f : r.files) s += "\n    file " + f.first + ": \"" + eng::quote(f.second.substr(0, 600)) + "\"";
	for(auto& d : r.dirs) s += "\n    directory " + d;
	if(!r.env.empty()){ s += "\n    environment:"; for(auto& e : r.env) s += " \"" + eng::quote(e) + "\""; }
	if(!r.input.empty()) s += "\n    input: \"" + eng::quote(r.input.substr(0, 600)) + "\"";
	return s;
}
std::string Out::str() const {
	std::string s = timeout ? "no end within the time limit" : signal ? "signal " + std::to_string(signal) : "status " + std::to_string(status);
	s += ", output \"" + eng::quote(out.substr(0, 600)) + "\"";
	if(!err.empty()) s += ", errors \"" + eng::quote(err.substr(0, 300)) + "\"";
	for(auto& c : systems) s += ", command \"" + eng::quote(c) + "\"";
	return s;
}
Out run(const Run& r, bool readFiles){
	eng::crashNote(describe(r));
	static std::string dir; static int in = -1, out = -1, err = -1, sys = -1; static std::string exe;
	static pid_t owner = 0;
	if(owner != getpid()){
		owner = getpid();
		char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b); exe.assign(b, k > 0 ? k : 0);
		dir = std::filesystem::current_path().string();
		auto mk = [](const char* n){ int fd = memfd_create(n, 0), up = fcntl(fd, F_DUPFD_CLOEXEC, 130); close(fd); return up; };
		in = mk("ci"); out = mk("co"); err = mk("ce"); sys = mk("cs");
	}
	std::error_code ec;
	for(auto& e : std::filesystem::directory_iterator(dir, ec)) std::filesystem::remove_all(e.path(), ec);
	for(auto& d : r.dirs) std::filesystem::create_directories(dir + "/" + d, ec);
	for(auto& f : r.files){ std::ofstream o(dir + "/" + f.first, std::ios::binary); o.write(f.second.data(), f.second.size()); }
	for(int fd : {in, out, err, sys}){ if(ftruncate(fd, 0)){} lseek(fd, 0, SEEK_SET); }
	if(!r.input.empty() && pwrite(in, r.input.data(), r.input.size(), 0) < 0){}
	std::vector<char*> av, ev; std::string a0 = r.argv0, flag = "VERIF_CLI=" + std::to_string(r.systemRet);
	av.push_back(a0.data()); for(auto& a : r.args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
	for(auto& e : r.env) ev.push_back((char*)e.c_str());
	ev.push_back(flag.data()); ev.push_back(nullptr);
	pid_t me = getpid();
	pid_t p = vfork();
	if(p == 0){
		if(r.closeInput) close(0); else dup2(in, 0);
		dup2(out, 1); dup2(err, 2); dup2(sys, 77);
		(void)me;
		execve(exe.c_str(), av.data(), ev.data());
		_exit(126);
	}
	Out o;
	double end = mono() + r.timeout; int st = 0;
	useconds_t nap = 100;
	while(true){
		pid_t q = waitpid(p, &st, WNOHANG);
		if(q == p) break;
		if(q < 0 && errno != EINTR) break;
		if(mono() > end){ o.timeout = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
		{ struct timespec ts{0, (long)nap * 1000}; syscall(SYS_nanosleep, &ts, nullptr); } if(nap < 5000) nap += nap / 4;
	}
	if(WIFSIGNALED(st)) o.signal = WTERMSIG(st); else o.status = WEXITSTATUS(st);
	o.out = slurp(out); o.err = slurp(err);
	std::string s = slurp(sys); size_t k = 0, e;
	while((e = s.find('\0', k)) != std::string::npos){ o.systems.push_back(ref::shellWords(s.substr(k, e - k))); k = e + 1; }
	if(readFiles) for(auto it = std::filesystem::recursive_directory_iterator(dir, ec); it != std::filesystem::recursive_directory_iterator(); it.increment(ec)){
		std::string n = it->path().string().substr(dir.size() + 1);
		if(!it->is_directory(ec)){ std::ifstream is(it->path()); std::stringstream ss; ss << is.rdbuf(); o.files[n] = ss.str(); }
	}
	return o;
}
RefOut ref(const drv::Case& c){
	using namespace ::ref;
	RefOut r; Env env; Machine m(c.cfg, &env);
	env.in = c.input; env.files = c.files; env.dirs = c.dirs; env.systemRet = c.systemRet; env.now = c.now; env.fungelib = drv::fungelibText;
	{ time_t t = c.now; struct tm tb; gmtime_r(&t, &tb); env.tm_hour = tb.tm_hour; env.tm_min = tb.tm_min; env.tm_sec = tb.tm_sec; env.tm_year = tb.tm_year; env.tm_mon = tb.tm_mon; env.tm_mday = tb.tm_mday; }
	m.chooser = [](const char*) -> i64 { throw Unmodelled("arbitrary value"); };
	m.mode = c.mode;
	try { m.load(c.text, "bfq"[c.fmt]); }
	catch(Unmodelled& u){ r.unknown = true; r.why = u.what(); return r; }
	for(auto& x : c.cells) m.field.put(x.first, x.second);
	IP* ip = m.addIP(c.pos, c.delta); ip->storage = c.storage;
	for(::ref::i64 v : c.stack) m.push(*ip, v);
	try {
		for(int t = 0; t < c.maxTicks; ++t){
			while(!m.ips.empty() && m.ips.front()->stopped) m.ips.pop_front();
			if(m.ips.empty()){ r.ended = true; break; }
			IP& q = *m.ips.front();
			m.tick(q);
			if(m.pendingRandom) throw Unmodelled("random");
			auto p = std::move(m.ips.front()); m.ips.pop_front();
			if(!p->stopped) m.ips.push_back(std::move(p));
		}
	}catch(Diverge&){ r.why = "diverges"; }
	catch(Unmodelled& u){ r.unknown = true; r.why = u.what(); }
	if(!r.ended && r.why.empty()) r.why = "cut";
	r.status = m.exitcode & 0xff; r.out = env.out; r.systems = env.systems; r.files = env.files;
	return r;
}
}
