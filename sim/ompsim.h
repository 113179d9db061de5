// Simulated OpenMP runtime: a team of threads under a controlled scheduler (one runs at a time), with every memory
// access of instrumented code recorded against vector clocks.
#ifndef OMPSIM_H
#define OMPSIM_H
#include <string>
#include <vector>
namespace ompsim {
enum { MAXT = 16 };
struct Schedule {
  int threads = 1;                 // team size
  std::vector<int> order;          // priority of the threads at barriers and ends (empty: 0, 1, 2...)
  int quantum = 0;                 // >0: hand over to the next thread after so many memory accesses
  std::vector<int> path;           // choices at unordered synchronisation (critical sections, atomics, dynamic loops)
};
struct Result {
  std::vector<std::string> problems;       // races, misuse
  unsigned long regions = 0, accesses = 0, syncs = 0, switches = 0, shared = 0;
  std::vector<int> branch, taken;          // for every choice point: number of runnable threads, choice made
};
void begin(const Schedule &s);
Result end();
// Explores every schedule: f is executed once per schedule; returns the number of executions.
}
#endif
