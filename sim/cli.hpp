// What every simulator executable shares: command line, seeds, accounting.
#pragma once
#include "exec.hpp"
namespace sim {
struct Result { bool viol {}; std::string msg; std::vector<Line> script; uint64_t hash {}; };
struct Status { uint64_t seed; int variant; int state; };
extern Status *st;
extern std::map<std::string, long> agg;          // counters over all runs
extern std::set<uint64_t> transSeen, worldSeen;  // distinct states and runs
extern bool installFake;
void cpuLimit( int sec );
void saveLines( const char *file, const std::string &prop, const std::vector<Line> &l, uint64_t seed, int variant );
void account( const Exec &e );
// provided by each engine
Result runScript( const std::vector<Line> &lines );
Result runSeed( const std::string &prop, uint64_t seed, int only, const char *save );
long leakCount(); void leakDump(); void leakReset();
}
