// Universes: start, exchange of IPs and end, in every schedule of the threads.
#include "schedcommon.h"
using namespace eng;
namespace {
const char* const names[] = {"a", "b", "c"};
// The universes have the same rows, but the first IP of universe k starts on row k+1.
std::string text(int k, const std::vector<std::string>& scripts){
	std::string s;
	for(int r = 0; r <= (int)scripts.size(); ++r){
		s += r <= k ? 'v' : r == k + 1 ? '>' : ' ';
		if(r > 0) s += scripts[r - 1] + "@";
		s += "\n";
	}
	return s;
}
struct Fam {
	const char* name; const char* what; int universes;
	std::vector<std::vector<std::string>> tok;       // of each universe
	std::vector<std::string> pre; int devQ, devT; bool native; std::string input; bool any; bool same = false;
};
}
void eng::families(std::vector<Family>& out){
	static std::vector<Fam> fams;
	const std::string M = "\"SRVM\"4(";
	std::vector<std::string> hop{"", "2q", "C.", "N,$", "1.0\"b\"J2.", "1.0\"a\"J2.", "#@0\"x\"J"};
	fams.push_back({"one", "one universe that ends in different ways", 1, {{"", "1q", "7.", "'x,", "#@t1.", "t"}}, {""}, 6, 20, false, "", false});
	fams.push_back({"two", "two universes that end in different ways", 2, {{"", "2q", "1.", "z2."}, {"", "3q", "1.", "z2."}}, {"", ""}, 3, 6, false, "", false});
	fams.push_back({"one-native", "one universe with native threads that ends in different ways", 1, {{"", "1q", "7.", "'x,", "#@t1."}}, {""}, 3, 12, true, "", false});
	fams.push_back({"two-native", "two universes with native threads that end in different ways", 2, {{"", "2q", "1."}, {"", "3q", "1."}}, {"", ""}, 2, 4, true, "", false});
	fams.push_back({"jumps", "two universes whose IPs move between them (MVRS J)", 2, {hop, hop}, {M, M}, 1, 3, false, "", false});
	fams.push_back({"jumps-native", "two universes with native threads whose IPs move between them (MVRS J)", 2, {hop, hop}, {M, M}, 1, 3, true, "", false});
	// 0"b" position delta G: the third row of the other universe holds a 5.@
	std::vector<std::string> far{"0\"b\"230100G", "0\"b\"0\"b\"J7.J8.", "0\"a\"0\"b\"J7.J8.", "0\"c\"J6.", "2q"};
	fams.push_back({"journeys", "one IP that moves to other universes while theirs run, print, quit or follow", 3, {far, {"", "1.", "2q", "0\"c\"J3.", "0\"a\"J3."}, {"5.", "1q"}}, {M, M, ""}, 1, 3, false, "", false});
	std::vector<std::string> copy{"", "0\"b\"0909000F09g.", "609p0\"b\"0900900P", "709p", "09g.", "2q"};
	fams.push_back({"copies", "two universes of which one reads and writes the other's funge-space (MVRS F and P)", 2, {copy, {"", "709p", "09g.", "2q"}}, {M, ""}, 2, 5, false, "", false});
	// row 3 holds .@, which the creator copies to (64,1) of the new universe before it follows
	std::vector<std::string> make{"0\"u\"000BC.", "0\"u\"000B0\"u\"9000001F", "90\"u\"000B0\"u\"88*102310P0\"u\"J", "0\"b\"000BC.0\"b\"J6.", "0\"u\"000B2q"};
	std::vector<std::string> other{"", "C.", "2q", "0\"a\"J3.", "#@80\"u\"J"};
	fams.push_back({"created", "a universe created while another one runs, looks, moves or quits (MVRS B)", 2, {make, other, {"5."}}, {M, M, ""}, 1, 3, false, "", false});
	fams.push_back({"created-native", "a universe created by a native thread while another one runs, looks, moves or quits (MVRS B)", 2, {make, other, {"5."}}, {M, M, ""}, 1, 2, true, "", false});
	fams.push_back({"libraries", "two universes that call funge-libs", 2, {{"", "\"UDOM\"4(73M.", "\"UDOM\"4("}, {"", "\"UDOM\"4(73M.", "2q"}}, {"", ""}, 2, 3, false, "", true});
	fams.push_back({"namesakes", "two universes made from one file, which count, name, leave, follow and end each other", 2, {{"", "C.", "N,$N,,,$", "2q", "0\"1.a\"JC.", "0\"a\"JC."}}, {M}, 2, 4, false, "", false, true});
	fams.push_back({"three-namesakes", "three universes made from one file", 3, {{"", "C.", "N,$N,,,$", "2q", "0\"2.a\"J5.", "0\"1.a\"JC."}}, {M}, 1, 2, false, "", false, true});
	for(auto& f : fams){
		u64 total = 1; for(auto& t : f.tok) total *= t.size();
		out.push_back({f.name, f.what, total, [&f](u64 i, Ctx& ctx){
			sc::Scenario s; s.spec.native = f.native; s.spec.input = f.input; s.anyOutcome = f.any; s.fmv = true;
			s.lim.maxSeconds = thorough() ? 60 : 20; s.lim.deviations = thorough() ? f.devT : f.devQ;
			std::vector<std::string> scripts;
			for(size_t k = 0; k < f.tok.size(); ++k){ scripts.push_back(f.pre[k] + f.tok[k][i % f.tok[k].size()]); i /= f.tok[k].size(); }
			ref::Config k = sc::cfg98(2);
			for(int u = 0; u < f.universes; ++u) s.spec.universes.push_back({f.same ? "a" : names[u], k, text(f.same ? 0 : u, scripts)});
			sc::run(s, ctx);
		}, 1, 0});
	}
}
