// Plan execution: a plan is one JSON value holding the initial file system,
// the simulated processes with their scripts, the phases, the faults and the
// thread switches.  exec_plan runs it in forked children and returns the record.
#pragma once
#include "core.h"
namespace sim {
struct RunProc { int id = 0; const J* spec = nullptr; J res = J::obj(); };
typedef void (*KindFn)(RunProc&);        // body of a simulated process; runs on its fiber in host mode
void add_warm(void (*f)()); // runs once before any simulated run
void add_kind(const char* name, KindFn f);
// Runs all phases; rec["procs"], rec["ofds"], rec["files"] (final), ...
J exec_plan(const J& plan, bool dry, std::string* logtext = nullptr);
void harness_init();
extern long g_cpu_limit;
}
