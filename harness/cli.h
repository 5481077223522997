// Runs the real program as a process of its own, and the reference machine alone.
#pragma once
#include "drive.h"
namespace cli {
struct Run {
	std::vector<std::string> args;               // after the program name
	std::string argv0 = "funge";
	std::vector<std::string> env;
	std::map<std::string, std::string> files;    // in the scratch directory
	std::set<std::string> dirs;
	std::string input;
	int systemRet = 0;
	double timeout = 10;
	bool closeInput = false;
};
struct Out {
	bool timeout = false; int signal = 0; int status = -1;
	std::string out, err; std::vector<std::string> systems;
	std::map<std::string, std::string> files;
	std::string str() const;
};
std::string describe(const Run& r);
Out run(const Run& r, bool readFiles = false);
struct RefOut { bool ended = false, unknown = false; int status = 0; std::string out, why; std::vector<std::string> systems; std::map<std::string, std::string> files; };
// what one universe does according to the reference machine
RefOut ref(const drv::Case& c);
}
