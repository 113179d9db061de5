// mpisim: controlled multi-rank execution.  Ranks are processes; exactly one holds the token.
#ifndef VF_MPISIM_H
#define VF_MPISIM_H
#include <functional>
#include <string>
#include <vector>
#include <stdint.h>
#include <stddef.h>
namespace mpisim {
enum { MAXR = 16, MAXCHOICE = 4096 };
struct Result {
  bool ok = true;
  std::string message;      // violation text (mismatch, deadlock, crash, hang)
  int failed_rank = -1;
  uint64_t ops = 0;         // MPI operations executed over all ranks
  uint64_t points = 0;      // scheduling points with more than one runnable rank
  std::vector<int> branching, taken; // recorded choices (DFS mode)
  long cur[MAXR];           // case marker of every rank when the run ended
  std::string stderr_tail;
};
struct Options {
  int n = 1;
  std::vector<int> prio;          // scheduling priority (permutation); default identity
  std::vector<int> choices;       // DFS prefix; used when dfs is set
  bool dfs = false;
  bool eager = true;              // standard-mode sends complete at once
  double timeout = 60;            // seconds without progress => hang
};
// user area: shared between the parent and the ranks
void *user_area(size_t bytes);            // (re)allocate shared area; call in the parent
void *user_ptr();
Result run(const Options &, const std::function<void(int)> &body);
void mark(long value);                    // set this rank's case marker (progress)
void set_prio(const int *prio, int n);    // called by any rank at an internal sync point
void internal_sync();                     // synchronise all ranks without an MPI trace entry
int rank();                               // world rank inside a run, 0 outside
bool inside();
uint64_t my_ops();                        // operations executed by this rank so far
std::string my_trace();                   // this rank's operation list since trace_reset
void trace_reset();
extern thread_local int in_api;          // > 0 while executing inside the simulated library
}
#endif
