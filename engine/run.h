#pragma once
#include "gen.h"
extern "C" {
#include <pwart.h>
}
struct RunStats{ // what the monitors observed (shared between worker processes)
  u64 cases,actions,skipped,steps,hostcalls,resvals,membytes,tabents,globs,branches,calls,tailcalls,grows,loads,stores,bulk,tableops,canary,discarded,loads_ok;
  u64 opc[0x200];
};
// Runs a case on the model and on the real library and compares. Empty string: no violation.
string runCase(Case&c,RunStats&st,bool verbose=false);
extern thread_local u64 g_lastHash;
extern bool g_keepConfig; // do not set the global compile configuration (threads)
