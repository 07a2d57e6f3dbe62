// Process layer of a simulator: runs scenarios in forked children, collects results, replays.
#pragma once
#include "core.h"
// supplied by the engine
std::string gen_scenario(const std::string &profile, u64 seed);
void run_scenario(const std::string &text);
std::string engine_classify();                // extra "key value" lines about the last run, may be empty
void count(const char *key, u64 n = 1);       // adds to a named counter of the run
int harness_main(int argc, char **argv);
std::vector<std::string> split(const std::string &s);
struct Problem;
// a well-posed problem was not solved: is that the code, or the method it implements (known finding of C02)?
void unsolved(const Problem &q, bool useA, double reltol, double abstol, const std::string &msg);
