#include "schedcommon.h"
#include <csignal>
#include <sched.h>
namespace eng {
void workerInit(int slot){
	signal(SIGINT, SIG_DFL);
	// the threads of an execution run one at a time: keep them on one processor
	cpu_set_t all, one; CPU_ZERO(&one); int n = 0, k = 0;
	if(sched_getaffinity(0, sizeof all, &all) == 0 && (n = CPU_COUNT(&all)) > 1)
		for(int c = 0; c < CPU_SETSIZE; ++c) if(CPU_ISSET(c, &all) && k++ == slot % n){ CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; }
}
void workerExit(){}
}
namespace sc {
ref::Config cfg98(int dims){ ref::Config c; c.dims = dims; c.args = {"prog"}; c.name = "prog"; return c; }
std::string rows(const std::vector<std::string>& r){ std::string s; for(auto& l : r) s += l + "\n"; return s; }
void run(Scenario s, eng::Ctx& ctx){
	sched::Program p; p.input = s.spec.input; p.files = s.files;
	p.args = s.opts;
	if(s.spec.native) p.args.push_back("-fthreads=native");
	std::string list;
	for(auto& u : s.spec.universes){ p.files[u.name] = u.text; list += u.name + "\n"; }
	if(s.fmv){ p.files["m.fmv"] = list; p.args.push_back("m.fmv"); }
	else p.args.push_back(s.spec.universes[0].name);
	ctx.log = sched::describe(p);
	eng::crashNote(ctx.log);
	world::Outcomes o;
	if(!s.anyOutcome){
		o = world::enumerate(s.spec);
		if(o.unknown && o.why.find("killed") != std::string::npos){ ctx.note("scenario with an outcome that is not specified: " + o.why); s.anyOutcome = true; }
		else if(o.unknown){ ctx.note("scenario left out: " + o.why); ctx.add(eng::C_UNMOD); return; }
		if(o.set.empty()){ ctx.note("scenario that does not end"); ctx.add(eng::C_DIVERGE); return; }
		ctx.log += "\n  allowed outcomes:" + o.str();
	}
	sched::Stats st;
	std::string bad = sched::explore(p, s.lim, [&](const sched::Result& r) -> std::string {
		if(s.anyOutcome || o.has(r.out, r.status)) return "";
		return "no interleaving of whole instructions has this outcome";
	}, st);
	ctx.add(eng::C_SCHED, st.schedules); ctx.add(eng::C_TRANS, st.events); ctx.add(eng::C_TRACES, st.schedules);
	for(uint64_t k = 0; k < st.states; ++k) ctx.state((std::hash<std::string>()(ctx.log) ^ k * 0x9E3779B97F4A7C15ull));
	ctx.note("scenarios with " + std::to_string(st.maxThreads) + " threads");
	ctx.note(st.complete ? "scenarios explored completely" : "scenarios explored up to " + std::to_string(st.bound) + " preemptions" + (st.timed ? " (then cut by the time limit)" : ""));
	ctx.log += "\n  " + std::to_string(st.schedules) + " schedules (" + std::to_string(st.redundant) + " redundant), " + std::to_string(st.states) + " states, " + std::to_string(st.events) + " synchronisation operations";
	if(!bad.empty()) ctx.fail(bad);
}
}
int main(int argc, char** argv){
	eng::opt.caseTimeout = 700; eng::opt.caseTimeout2 = 700;
	return eng::engineMain(argc, argv);
}
