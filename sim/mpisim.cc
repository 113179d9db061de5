#include "mpi.h"
#include "mpisim.h"
#include <atomic>
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <linux/futex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {
using namespace mpisim;
enum { MAXC = 24, MAXMSG = 512 };
enum { K_BARRIER=1,K_BCAST,K_REDUCE,K_ALLREDUCE,K_SCAN,K_EXSCAN,K_GATHER,K_GATHERV,K_SCATTER,K_SCATTERV,K_ALLGATHER,
       K_ALLGATHERV,K_ALLTOALL,K_ALLTOALLV,K_DUP,K_SPLIT,K_FREE,K_FINALIZE,K_SYNC };
const char *kname[] = {"?","Barrier","Bcast","Reduce","Allreduce","Scan","Exscan","Gather","Gatherv","Scatter","Scatterv",
  "Allgather","Allgatherv","Alltoall","Alltoallv","Comm_dup","Comm_split","Comm_free","Finalize","(case sync)"};
const size_t ARENA = 96UL << 20;
enum { ST_READY=0, ST_COLL, ST_SEND, ST_RECV, ST_DONE };
struct Post {
  int kind, root, op, stype, rtype;
  long scount, rcount;                 // elements (fixed-count collectives)
  int scounts[MAXR], rcounts[MAXR];    // per-peer elements
  size_t off;                          // packed contribution
  long soff[MAXR];                     // byte offset of the piece for each peer
  int color, key;
};
struct Comm { int used, size; int member[MAXR]; int arrived, nfreed; long seq; size_t bump[2]; Post post[2][MAXR]; int newcomm[MAXR]; };
struct Msg { int used, src, dst, tag, comm, type; long bytes; size_t off; int consumed; long order; };
struct Shm {
  int n;
  std::atomic<int> go[MAXR];
  std::atomic<int> abortflag;
  int status[MAXR];
  int blk_comm[MAXR]; long blk_seq[MAXR]; int blk_kind[MAXR]; int blk_src[MAXR], blk_tag[MAXR], blk_msg[MAXR];
  int prio[MAXR];
  int dfs, eager;
  int choices[MAXCHOICE]; int nchoice; int branching[MAXCHOICE], taken[MAXCHOICE]; int npoint;
  std::atomic<long> cur[MAXR];
  std::atomic<uint64_t> ops, points;
  int failed_rank;
  char message[4096];
  Comm comm[MAXC];
  Msg msg[MAXMSG]; long msgorder; size_t msgbump; int msglive;
};
Shm *S = nullptr;
char *arena = nullptr;     // MAXC*2+1 regions
void *user = nullptr; size_t userbytes = 0;
int me = 0; bool in_run = false;
uint64_t nops = 0;
std::string trace_;
bool solo_init = false;

size_t tsz(int t) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL:
    case MPI_INT8_T: case MPI_UINT8_T: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG_DOUBLE: case MPI_C_DOUBLE_COMPLEX: return 16;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE:
    case MPI_INT64_T: case MPI_UINT64_T: case MPI_C_FLOAT_COMPLEX: return 8;
    default: return 0;
  }
}
void futex_wake(std::atomic<int> *a) { syscall(SYS_futex, (int *)a, FUTEX_WAKE, INT_MAX, 0, 0, 0); }
void futex_wait(std::atomic<int> *a, int v) { timespec ts = {5,0}; syscall(SYS_futex, (int *)a, FUTEX_WAIT, v, &ts, 0, 0); }

[[noreturn]] void leave_aborted() { _exit(78); }
[[noreturn]] void violation(const char *fmt, ...) {
  char buf[3500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (!in_run) { fprintf(stderr, "mpisim: VIOLATION %s\n", buf); abort(); }
  if (!S->abortflag.exchange(1)) { snprintf(S->message, sizeof S->message, "%s", buf); S->failed_rank = me; }
  for (int r = 0; r < S->n; ++r) { S->go[r] = 1; futex_wake(&S->go[r]); }
  _exit(77);
}
const char *where(int r, char *b, size_t n) {
  switch (S->status[r]) {
    case ST_READY: snprintf(b,n,"running"); break;
    case ST_DONE: snprintf(b,n,"finished"); break;
    case ST_COLL: snprintf(b,n,"waiting in %s (call %ld on comm %d)", kname[S->blk_kind[r]], S->blk_seq[r], S->blk_comm[r]); break;
    case ST_SEND: snprintf(b,n,"waiting in send"); break;
    default: snprintf(b,n,"waiting in receive from %d", S->blk_src[r]);
  }
  return b;
}
[[noreturn]] void deadlock() {
  std::string s = "deadlock:";
  for (int r = 0; r < S->n; ++r) { char b[200]; s += " rank " + std::to_string(r) + " " + where(r,b,sizeof b) + ";"; }
  violation("%s", s.c_str());
}
int pick() {
  int cand[MAXR], nc = 0;
  for (int i = 0; i < S->n; ++i) if (S->status[i] == ST_READY) cand[nc++] = i;
  if (nc == 0) return -1;
  std::sort(cand, cand + nc, [](int a, int b) { return S->prio[a] < S->prio[b]; });
  if (nc > 1) S->points++;
  if (S->dfs && nc > 1) {
    int k = 0, p = S->npoint;
    if (p < MAXCHOICE) {
      if (p < S->nchoice) k = S->choices[p];
      if (k >= nc) k = nc - 1;
      S->branching[p] = nc; S->taken[p] = k; S->npoint++;
    }
    return cand[k];
  }
  return cand[0];
}
void hand_over() { // give the token to somebody; return when this rank has it again
  int nx = pick();
  if (nx < 0) deadlock();
  if (nx == me) return;
  S->go[me] = 0;
  S->go[nx] = 1; futex_wake(&S->go[nx]);
  while (S->go[me].load() == 0) { futex_wait(&S->go[me], 0); if (S->abortflag) leave_aborted(); }
  if (S->abortflag) leave_aborted();
}
void finish() {
  S->status[me] = ST_DONE;
  int nx = pick();
  if (nx < 0) {
    for (int r = 0; r < S->n; ++r) if (S->status[r] != ST_DONE) deadlock();
    return;
  }
  S->go[me] = 0; S->go[nx] = 1; futex_wake(&S->go[nx]);
}
void setup_comms(Shm *s, int n) {
  s->n = n;
  s->comm[MPI_COMM_WORLD].used = 1; s->comm[MPI_COMM_WORLD].size = n;
  for (int i = 0; i < n; ++i) s->comm[MPI_COMM_WORLD].member[i] = i;
  for (int i = 0; i < MAXR; ++i) s->prio[i] = i;
}
Shm *alloc_shm() {
  Shm *s = (Shm *)mmap(0, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  return s;
}
char *alloc_arena() {
  return (char *)mmap(0, ARENA*(2*MAXC+1), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
}
void ensure() {
  if (S) return;
  S = alloc_shm(); arena = alloc_arena(); setup_comms(S, 1); S->go[0] = 1; S->eager = 1; solo_init = true;
}
int myindex(MPI_Comm c, const char *fn) {
  ensure();
  if (c == MPI_COMM_SELF) return 0;
  if (c <= 0 || c >= MAXC || !S->comm[c].used) violation("%s called with an invalid communicator (%d)", fn, c);
  for (int i = 0; i < S->comm[c].size; ++i) if (S->comm[c].member[i] == me) return i;
  violation("%s called on communicator %d by rank %d, which is not a member", fn, c, me);
}
int csize(MPI_Comm c) { return c == MPI_COMM_SELF ? 1 : S->comm[c].size; }
char *region(int c, int par) { return arena + ARENA*(2*c+par); }

struct In { In() { ++mpisim::in_api; } ~In() { --mpisim::in_api; } };
struct Coll { // one collective call of this rank
  In in_;
  Comm *c; int comm, m, par, n; Post *p; long seq; bool self; Comm selfc; char *base; std::vector<char> selfbuf;
  Coll(MPI_Comm comm_, int kind) : comm(comm_) {
    m = myindex(comm_, kname[kind]);
    self = comm_ == MPI_COMM_SELF;
    if (self) { memset(&selfc,0,sizeof selfc); selfc.used=1; selfc.size=1; c=&selfc; } else c = &S->comm[comm_];
    n = c->size; seq = c->seq; par = seq & 1; p = &c->post[par][m];
    memset(p, 0, sizeof *p); p->kind = kind;
    if (!self && c->arrived == 0) c->bump[par] = 0;
    ++nops; S->ops++;
    if (kind != K_SYNC) { trace_ += kname[kind]; trace_ += '@'; trace_ += std::to_string(comm); trace_ += ' '; }
  }
  char *put(size_t bytes) {
    if (self) { p->off = 0; selfbuf.resize(bytes ? bytes : 1); return selfbuf.data(); }
    size_t o = (c->bump[par] + 15) & ~size_t(15);
    if (o + bytes > ARENA) violation("simulator arena exhausted (%zu bytes)", bytes);
    c->bump[par] = o + bytes; p->off = o;
    return region(comm, par) + o;
  }
  const char *from(int j) { return self ? selfbuf.data() : region(comm, par) + c->post[par][j].off; }
  Post &P(int j) { return c->post[par][j]; }
  void go() { // block until everyone arrived; verify
    if (++c->arrived == n) {
      verify();
      c->arrived = 0; c->seq++;
      if (!self) {
        for (int i = 0; i < n; ++i) S->status[c->member[i]] = ST_READY;
        if (in_run && p->kind != K_SYNC) hand_over(); // completion order is a scheduling choice
      }
    } else {
      S->status[me] = ST_COLL; S->blk_comm[me] = comm; S->blk_seq[me] = seq; S->blk_kind[me] = p->kind;
      hand_over();
    }
  }
  void verify() {
    Post &a = P(0); const char *k = kname[a.kind];
    for (int i = 1; i < n; ++i) {
      Post &b = P(i);
      if (b.kind != a.kind)
        violation("collective mismatch at call %ld on comm %d: rank %d calls %s, rank %d calls %s", seq, comm,
                  c->member[0], k, c->member[i], kname[b.kind]);
      if (b.root != a.root) violation("%s: root %d on rank %d, root %d on rank %d", k, a.root, c->member[0], b.root, c->member[i]);
      if (b.op != a.op) violation("%s: reduction operations differ between ranks %d and %d", k, c->member[0], c->member[i]);
    }
    if (a.root < 0 || a.root >= n) violation("%s: root %d out of range", k, a.root);
    auto need = [&](bool ok, int i, int j, long x, long y) {
      if (!ok) violation("%s: ranks %d and %d disagree on the data exchanged (%ld vs %ld bytes or element types)", k, c->member[i], c->member[j], x, y);
    };
    for (int i = 0; i < n; ++i) {
      Post &b = P(i);
      switch (a.kind) {
        case K_BCAST: case K_ALLREDUCE: case K_REDUCE: case K_SCAN: case K_EXSCAN:
          need(b.stype == a.stype && b.scount == a.scount, 0, i, a.scount*tsz(a.stype), b.scount*tsz(b.stype)); break;
        case K_ALLGATHER: case K_ALLTOALL:
          for (int j = 0; j < n; ++j) { Post &d = P(j); need(b.stype == d.rtype && b.scount == d.rcount, i, j, b.scount*tsz(b.stype), d.rcount*tsz(d.rtype)); } break;
        case K_GATHER: need(b.stype == P(a.root).rtype && b.scount == P(a.root).rcount, i, a.root, b.scount*tsz(b.stype), P(a.root).rcount*tsz(P(a.root).rtype)); break;
        case K_GATHERV: need(b.stype == P(a.root).rtype && b.scount == P(a.root).rcounts[i], i, a.root, b.scount*tsz(b.stype), P(a.root).rcounts[i]*tsz(P(a.root).rtype)); break;
        case K_SCATTER: need(b.rtype == P(a.root).stype && b.rcount == P(a.root).scount, i, a.root, b.rcount*tsz(b.rtype), P(a.root).scount*tsz(P(a.root).stype)); break;
        case K_SCATTERV: need(b.rtype == P(a.root).stype && b.rcount == P(a.root).scounts[i], i, a.root, b.rcount*tsz(b.rtype), P(a.root).scounts[i]*tsz(P(a.root).stype)); break;
        case K_ALLGATHERV: for (int j = 0; j < n; ++j) need(b.stype == P(j).rtype && b.scount == P(j).rcounts[i], i, j, b.scount*tsz(b.stype), P(j).rcounts[i]*tsz(P(j).rtype)); break;
        case K_ALLTOALLV: for (int j = 0; j < n; ++j) need(b.stype == P(j).rtype && b.scounts[j] == P(j).rcounts[i], i, j, b.scounts[j]*tsz(b.stype), P(j).rcounts[i]*tsz(P(j).rtype)); break;
      }
    }
  }
};
void checktype(const char *fn, int t) { if (!tsz(t)) violation("%s: invalid datatype %d", fn, t); }
void checkcount(const char *fn, long n) { if (n < 0) violation("%s: negative count %ld", fn, n); }
void noalias(const char *fn, const void *a, size_t na, const void *b, size_t nb) {
  if (!na || !nb || a == MPI_IN_PLACE || b == MPI_IN_PLACE) return;
  const char *x = (const char *)a, *y = (const char *)b;
  if (x < y + nb && y < x + na) violation("%s: send and receive buffers overlap", fn);
}
void segs(const char *fn, const int *cnt, const int *dis, int n) {
  for (int i = 0; i < n; ++i) {
    checkcount(fn, cnt[i]);
    if (cnt[i] && dis[i] < 0) violation("%s: negative displacement", fn);
    for (int j = 0; j < i; ++j)
      if (cnt[i] && cnt[j] && dis[i] < dis[j] + cnt[j] && dis[j] < dis[i] + cnt[i])
        violation("%s: receive segments of ranks %d and %d overlap", fn, j, i);
  }
}
template<class T> void red1(int op, T *a, const T *b, long n, const char *fn) {
  for (long i = 0; i < n; ++i) switch (op) {
    case MPI_SUM: a[i] = a[i] + b[i]; break; case MPI_PROD: a[i] = a[i] * b[i]; break;
    case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break; case MPI_MAX: a[i] = b[i] > a[i] ? b[i] : a[i]; break;
    case MPI_LOR: a[i] = a[i] || b[i]; break; case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LXOR: a[i] = !a[i] != !b[i]; break;
    default: violation("%s: operation %d not defined for this type", fn, op);
  }
}
template<class T> void red2(int op, T *a, const T *b, long n, const char *fn) {
  if (op == MPI_BOR) for (long i = 0; i < n; ++i) a[i] |= b[i];
  else if (op == MPI_BAND) for (long i = 0; i < n; ++i) a[i] &= b[i];
  else if (op == MPI_BXOR) for (long i = 0; i < n; ++i) a[i] ^= b[i];
  else red1(op, a, b, n, fn);
}
void reduce_into(int t, int op, void *a, const void *b, long n, const char *fn) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_BYTE: case MPI_INT8_T: red2(op,(signed char*)a,(const signed char*)b,n,fn); break;
    case MPI_UNSIGNED_CHAR: case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_UINT8_T: red2(op,(unsigned char*)a,(const unsigned char*)b,n,fn); break;
    case MPI_SHORT: case MPI_INT16_T: red2(op,(short*)a,(const short*)b,n,fn); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: red2(op,(unsigned short*)a,(const unsigned short*)b,n,fn); break;
    case MPI_INT: case MPI_INT32_T: red2(op,(int*)a,(const int*)b,n,fn); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: red2(op,(unsigned*)a,(const unsigned*)b,n,fn); break;
    case MPI_LONG: case MPI_INT64_T: case MPI_LONG_LONG: red2(op,(long*)a,(const long*)b,n,fn); break;
    case MPI_UNSIGNED_LONG: case MPI_UINT64_T: case MPI_UNSIGNED_LONG_LONG: red2(op,(unsigned long*)a,(const unsigned long*)b,n,fn); break;
    case MPI_FLOAT: red1(op,(float*)a,(const float*)b,n,fn); break;
    case MPI_DOUBLE: red1(op,(double*)a,(const double*)b,n,fn); break;
    case MPI_LONG_DOUBLE: red1(op,(long double*)a,(const long double*)b,n,fn); break;
    default: violation("%s: reduction on unsupported datatype", fn);
  }
}
} // namespace

namespace mpisim {
void *user_area(size_t bytes) {
  if (user && userbytes >= bytes) return user;
  if (user) munmap(user, userbytes);
  user = mmap(0, bytes, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); userbytes = bytes;
  return user;
}
void *user_ptr() { return user; }
int rank() { return me; }
bool inside() { return in_run; }
uint64_t my_ops() { return nops; }
std::string my_trace() { return trace_; }
thread_local int in_api = 0;
void trace_reset() { trace_.clear(); }
void mark(long v) { if (S) S->cur[me] = v; }
void set_prio(const int *prio, int n) { for (int i = 0; i < n; ++i) S->prio[i] = prio[i]; }
void internal_sync() { if (!in_run) return; Coll c(MPI_COMM_WORLD, K_SYNC); c.go(); --nops; S->ops--; }

Result run(const Options &o, const std::function<void(int)> &body) {
  Result res;
  Shm *saveS = S; char *saveA = arena;
  S = alloc_shm(); static char *A2 = nullptr; if (!A2) A2 = alloc_arena(); arena = A2;
  setup_comms(S, o.n);
  for (size_t i = 0; i < o.prio.size() && i < MAXR; ++i) S->prio[i] = o.prio[i];
  S->dfs = o.dfs; S->eager = o.eager; S->nchoice = 0;
  for (size_t i = 0; i < o.choices.size() && i < MAXCHOICE; ++i) S->choices[S->nchoice++] = o.choices[i];
  for (int i = 0; i < MAXR; ++i) S->cur[i] = -1;
  char errname[] = "/tmp/mpisim.XXXXXX"; int efd = mkstemp(errname); unlink(errname);
  pid_t pid[MAXR]; int status[MAXR]; bool alive[MAXR];
  fflush(stdout); fflush(stderr);
  pid_t parent = getpid();
  for (int r = 0; r < o.n; ++r) {
    pid[r] = fork(); alive[r] = true; status[r] = 0;
    if (pid[r] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(79);
      dup2(efd, 2); dup2(efd, 1);
      me = r; in_run = true; nops = 0; trace_.clear();
      while (S->go[me].load() == 0) { futex_wait(&S->go[me], 0); if (S->abortflag) leave_aborted(); }
      body(r);
      fflush(stdout); fflush(stderr);
      finish();
      _exit(0);
    }
  }
  int first = 0; for (int r = 1; r < o.n; ++r) if (S->prio[r] < S->prio[first]) first = r;
  S->go[first] = 1; futex_wake(&S->go[first]);
  int left = o.n; uint64_t lastsig = ~0ULL; timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  bool crashed = false; int spins = 0;
  while (left) {
    bool prog = false;
    for (int r = 0; r < o.n; ++r) if (alive[r]) {
      pid_t w = waitpid(pid[r], &status[r], WNOHANG);
      if (w == pid[r]) {
        alive[r] = false; --left; prog = true;
        bool bad = !(WIFEXITED(status[r]) && ((WEXITSTATUS(status[r]) == 0 && S->status[r] == ST_DONE) || ((WEXITSTATUS(status[r]) == 77 || WEXITSTATUS(status[r]) == 78) && S->abortflag))); // 77 without the flag: a sanitizer report
        if (bad && !crashed) {
          crashed = true;
          if (!S->abortflag.exchange(1)) {
            S->failed_rank = r;
            if (WIFSIGNALED(status[r])) snprintf(S->message, sizeof S->message, "rank %d was killed by signal %d (%s)", r, WTERMSIG(status[r]), strsignal(WTERMSIG(status[r])));
            else snprintf(S->message, sizeof S->message, "rank %d died (exit status %d)", r, WEXITSTATUS(status[r]));
          }
          for (int q = 0; q < o.n; ++q) { S->go[q] = 1; futex_wake(&S->go[q]); }
          // the others are blocked or about to notice; give them a moment, then kill
          usleep(2000); for (int q = 0; q < o.n; ++q) if (alive[q]) kill(pid[q], SIGKILL);
        }
      }
    }
    if (!left) break;
    uint64_t sig = S->ops; for (int r = 0; r < o.n; ++r) sig = sig*1000003 + (uint64_t)(long)S->cur[r];
    timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    if (sig != lastsig || prog) { lastsig = sig; t0 = t1; }
    else if (t1.tv_sec - t0.tv_sec + 1e-9*(t1.tv_nsec - t0.tv_nsec) > o.timeout) {
      if (!S->abortflag.exchange(1)) {
        std::string s = "no progress (hang):";
        for (int r = 0; r < o.n; ++r) { char b[200]; s += " rank " + std::to_string(r) + " " + where(r,b,sizeof b) + ";"; }
        snprintf(S->message, sizeof S->message, "%s", s.c_str());
      }
      for (int q = 0; q < o.n; ++q) if (alive[q]) kill(pid[q], SIGKILL);
    }
    if (!prog) usleep(++spins < 50 ? 100 : 500);
  }
  res.ops = S->ops; res.points = S->points;
  for (int r = 0; r < MAXR; ++r) res.cur[r] = S->cur[r];
  if (S->abortflag) { res.ok = false; res.message = S->message; res.failed_rank = S->failed_rank; }
  for (int i = 0; i < S->npoint; ++i) { res.branching.push_back(S->branching[i]); res.taken.push_back(S->taken[i]); }
  off_t end = lseek(efd, 0, SEEK_END); off_t st = end > 60000 ? end - 60000 : 0;
  if (!res.ok && end > 0) { std::string b(end - st, 0); ssize_t k = pread(efd, &b[0], b.size(), st); b.resize(k > 0 ? k : 0); res.stderr_tail = b; }
  close(efd);
  munmap(S, sizeof(Shm)); S = saveS; arena = saveA;
  return res;
}
} // namespace mpisim

extern "C" {
int MPI_Init(int *, char ***) { ensure(); return 0; }
int MPI_Init_thread(int *, char ***, int req, int *prov) { ensure(); if (prov) *prov = req; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int code) { violation("MPI_Abort(%d) called", code); }
int MPI_Comm_size(MPI_Comm c, int *n) { myindex(c, "Comm_size"); *n = csize(c); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = myindex(c, "Comm_rank"); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char *b, int *n) { strcpy(b, "sim"); *n = 3; return 0; }
int MPI_Error_string(int, char *s, int *n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
double MPI_Wtime(void) { static double t = 1000; return t += 1e-6; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Type_size(MPI_Datatype t, int *n) { checktype("Type_size", t); *n = tsz(t); return 0; }

static int newcomm_op(MPI_Comm comm, int kind, int color, int key, MPI_Comm *out) {
  Coll c(comm, kind); if (c.self) { *out = MPI_COMM_SELF; return 0; }
  c.p->color = color; c.p->key = key;
  bool last = c.c->arrived + 1 == c.n;
  if (last) { // create the communicators before releasing the others
    std::vector<bool> done(c.n, false);
    for (int i = 0; i < c.n; ++i) if (!done[i]) {
      std::vector<std::pair<std::pair<int,int>,int>> mem;
      for (int j = i; j < c.n; ++j) if (!done[j] && c.P(j).color == c.P(i).color) { done[j] = true; mem.push_back({{c.P(j).key, j}, c.c->member[j]}); }
      std::sort(mem.begin(), mem.end());
      int id = 0;
      if (c.P(i).color != MPI_UNDEFINED) {
        for (id = 3; id < MAXC && S->comm[id].used; ++id);
        if (id == MAXC) violation("too many communicators");
        memset(&S->comm[id], 0, sizeof(Comm)); S->comm[id].used = 1; S->comm[id].size = mem.size();
        for (size_t k = 0; k < mem.size(); ++k) S->comm[id].member[k] = mem[k].second;
      }
      for (auto &m : mem) c.c->newcomm[m.first.second] = id;
    }
  }
  c.go();
  *out = c.c->newcomm[c.m];
  return 0;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out) { return newcomm_op(comm, K_DUP, 0, 0, out); }
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out) { return newcomm_op(comm, K_SPLIT, color, key, out); }
int MPI_Comm_free(MPI_Comm *comm) {
  if (*comm == MPI_COMM_SELF) { *comm = MPI_COMM_NULL; return 0; }
  Coll c(*comm, K_FREE); c.go();
  if (*comm != MPI_COMM_WORLD && ++c.c->nfreed == c.n) c.c->used = 0; // the last member to leave releases the slot
  *comm = MPI_COMM_NULL; return 0;
}
int MPI_Barrier(MPI_Comm comm) { Coll c(comm, K_BARRIER); c.go(); return 0; }
int MPI_Bcast(void *buf, int n, MPI_Datatype t, int root, MPI_Comm comm) {
  Coll c(comm, K_BCAST); checktype("Bcast", t); checkcount("Bcast", n);
  c.p->root = root; c.p->stype = t; c.p->scount = n;
  size_t b = size_t(n)*tsz(t);
  if (c.m == root) memcpy(c.put(b), buf, b);
  c.go();
  if (c.m != root && b) memcpy(buf, c.from(root), b);
  return 0;
}
static int red_op(int kind, const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) {
  Coll c(comm, kind); const char *fn = kname[kind]; checktype(fn, t); checkcount(fn, n);
  c.p->root = root; c.p->stype = t; c.p->scount = n; c.p->op = op;
  size_t b = size_t(n)*tsz(t);
  bool get = kind != K_REDUCE || c.m == root;
  if (get) noalias(fn, in, b, out, b);
  if (in == MPI_IN_PLACE && !get) violation("%s: MPI_IN_PLACE on a non-root rank", fn);
  char *q = c.put(b); if (b) memcpy(q, in == MPI_IN_PLACE ? out : in, b);
  c.go();
  int lo = 0, hi = c.n;
  if (kind == K_SCAN) hi = c.m + 1; if (kind == K_EXSCAN) hi = c.m;
  if (get && b && hi > lo) {
    std::vector<char> acc(c.from(0), c.from(0) + b);
    for (int i = 1; i < hi; ++i) { std::vector<char> tmp(c.from(i), c.from(i) + b); reduce_into(t, op, acc.data(), tmp.data(), n, fn); }
    memcpy(out, acc.data(), b);
  }
  return 0;
}
int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return red_op(K_REDUCE, in, out, n, t, op, root, c); }
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red_op(K_ALLREDUCE, in, out, n, t, op, 0, c); }
int MPI_Scan(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red_op(K_SCAN, in, out, n, t, op, 0, c); }
int MPI_Exscan(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red_op(K_EXSCAN, in, out, n, t, op, 0, c); }

static int gather_op(int kind, const void *in, int n, MPI_Datatype t, void *out, int rn, const int *rcnt, const int *rdis, MPI_Datatype rt, int root, MPI_Comm comm) {
  Coll c(comm, kind); const char *fn = kname[kind];
  bool all = kind == K_ALLGATHER || kind == K_ALLGATHERV, var = kind == K_GATHERV || kind == K_ALLGATHERV;
  bool get = all || c.m == root;
  if (all) root = 0;
  c.p->root = root;
  if (get) { checktype(fn, rt); if (var) segs(fn, rcnt, rdis, c.n); else checkcount(fn, rn); }
  bool inplace = in == MPI_IN_PLACE;
  if (inplace) { if (!get) violation("%s: MPI_IN_PLACE on a non-root rank", fn); t = rt; n = var ? rcnt[c.m] : rn; in = (char *)out + (size_t)(var ? rdis[c.m] : c.m*rn)*tsz(rt); }
  checktype(fn, t); checkcount(fn, n);
  c.p->stype = t; c.p->scount = n; 
  if (get) { c.p->rtype = rt; c.p->rcount = rn; if (var) for (int i = 0; i < c.n; ++i) c.p->rcounts[i] = rcnt[i]; }
  size_t b = size_t(n)*tsz(t);
  if (get && !inplace) { if (!var) noalias(fn, in, b, out, size_t(rn)*tsz(rt)*c.n); }
  char *q = c.put(b); if (b) memcpy(q, in, b);
  c.go();
  if (get) for (int i = 0; i < c.n; ++i) {
    size_t bb = size_t(var ? rcnt[i] : rn)*tsz(rt);
    if (bb) memcpy((char *)out + size_t(var ? rdis[i] : i*rn)*tsz(rt), c.from(i), bb);
  }
  return 0;
}
int MPI_Gather(const void *in, int n, MPI_Datatype t, void *out, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gather_op(K_GATHER, in, n, t, out, rn, 0, 0, rt, root, c); }
int MPI_Gatherv(const void *in, int n, MPI_Datatype t, void *out, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) { return gather_op(K_GATHERV, in, n, t, out, 0, rc, rd, rt, root, c); }
int MPI_Allgather(const void *in, int n, MPI_Datatype t, void *out, int rn, MPI_Datatype rt, MPI_Comm c) { return gather_op(K_ALLGATHER, in, n, t, out, rn, 0, 0, rt, 0, c); }
int MPI_Allgatherv(const void *in, int n, MPI_Datatype t, void *out, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { return gather_op(K_ALLGATHERV, in, n, t, out, 0, rc, rd, rt, 0, c); }

static int scatter_op(int kind, const void *in, int n, const int *sc, const int *sd, MPI_Datatype t, void *out, int rn, MPI_Datatype rt, int root, MPI_Comm comm) {
  Coll c(comm, kind); const char *fn = kname[kind]; c.p->root = root; bool var = kind == K_SCATTERV;
  checktype(fn, rt); checkcount(fn, rn);
  c.p->rtype = rt; c.p->rcount = rn;
  if (c.m == root) {
    checktype(fn, t); c.p->stype = t; c.p->scount = n; size_t tot = 0;
    for (int i = 0; i < c.n; ++i) { int k = var ? sc[i] : n; checkcount(fn, k); c.p->scounts[i] = k; c.p->soff[i] = tot; tot += size_t(k)*tsz(t); }
    char *q = c.put(tot);
    for (int i = 0; i < c.n; ++i) { size_t b = size_t(var ? sc[i] : n)*tsz(t); if (b) memcpy(q + c.p->soff[i], (const char *)in + size_t(var ? sd[i] : i*n)*tsz(t), b); }
  }
  c.go();
  size_t b = size_t(rn)*tsz(rt); if (b && out != MPI_IN_PLACE) memcpy(out, c.from(root) + c.P(root).soff[c.m], b);
  return 0;
}
int MPI_Scatter(const void *in, int n, MPI_Datatype t, void *out, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatter_op(K_SCATTER, in, n, 0, 0, t, out, rn, rt, root, c); }
int MPI_Scatterv(const void *in, const int *sc, const int *sd, MPI_Datatype t, void *out, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatter_op(K_SCATTERV, in, 0, sc, sd, t, out, rn, rt, root, c); }

int MPI_Alltoall(const void *in, int n, MPI_Datatype t, void *out, int rn, MPI_Datatype rt, MPI_Comm comm) {
  Coll c(comm, K_ALLTOALL);
  bool ip = in == MPI_IN_PLACE; if (ip) { in = out; n = rn; t = rt; }
  checktype("Alltoall", t); checktype("Alltoall", rt); checkcount("Alltoall", n); checkcount("Alltoall", rn);
  c.p->stype = t; c.p->rtype = rt; c.p->scount = n; c.p->rcount = rn;
  size_t b = size_t(n)*tsz(t);
  if (!ip) noalias("Alltoall", in, b*c.n, out, size_t(rn)*tsz(rt)*c.n);
  char *q = c.put(b*c.n); if (b) memcpy(q, in, b*c.n);
  c.go();
  if (b) for (int i = 0; i < c.n; ++i) memcpy((char *)out + b*i, c.from(i) + b*c.m, b);
  return 0;
}
int MPI_Alltoallv(const void *in, const int *sc, const int *sd, MPI_Datatype t, void *out, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm comm) {
  Coll c(comm, K_ALLTOALLV);
  bool ip = in == MPI_IN_PLACE; if (ip) { in = out; sc = rc; sd = rd; t = rt; }
  checktype("Alltoallv", t); checktype("Alltoallv", rt);
  c.p->stype = t; c.p->rtype = rt; size_t tot = 0, es = tsz(t);
  segs("Alltoallv", rc, rd, c.n);
  for (int i = 0; i < c.n; ++i) {
    checkcount("Alltoallv", sc[i]); if (sc[i] && sd[i] < 0) violation("Alltoallv: negative send displacement");
    c.p->scounts[i] = sc[i]; c.p->rcounts[i] = rc[i]; c.p->soff[i] = tot; tot += size_t(sc[i])*es;
    if (!ip) for (int j = 0; j < c.n; ++j) noalias("Alltoallv", (const char *)in + sd[i]*(long)es, size_t(sc[i])*es, (char *)out + rd[j]*(long)tsz(rt), size_t(rc[j])*tsz(rt));
  }
  char *q = c.put(tot);
  for (int i = 0; i < c.n; ++i) if (sc[i]) memcpy(q + c.p->soff[i], (const char *)in + size_t(sd[i])*es, size_t(sc[i])*es);
  c.go();
  for (int i = 0; i < c.n; ++i) if (rc[i]) memcpy((char *)out + size_t(rd[i])*tsz(rt), c.from(i) + c.P(i).soff[c.m], size_t(rc[i])*tsz(rt));
  return 0;
}
// ---- point to point -------------------------------------------------------------------------
static int post_send(const void *buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm) {
  In in_; int m = myindex(comm, "Send"); checktype("Send", t); checkcount("Send", n);
  int sz = csize(comm); if (dst < 0 || dst >= sz) violation("Send: destination %d out of range", dst);
  int w = comm == MPI_COMM_SELF ? me : S->comm[comm].member[dst];
  ++nops; S->ops++; trace_ += "Send>" + std::to_string(dst) + " ";
  int k = 0; while (k < MAXMSG && S->msg[k].used) ++k;
  if (k == MAXMSG) violation("too many outstanding messages");
  if (S->msglive == 0) S->msgbump = 0;
  size_t b = size_t(n)*tsz(t), o = (S->msgbump + 15) & ~size_t(15);
  if (o + b > ARENA) violation("message arena exhausted");
  if (b) memcpy(region(MAXC, 0) + o, buf, b);
  S->msgbump = o + b; S->msglive++;
  S->msg[k] = Msg{1, m, w, tag, comm, t, (long)b, o, 0, S->msgorder++};
  for (int r = 0; r < S->n; ++r) if (S->status[r] == ST_RECV && r == w) S->status[r] = ST_READY; // retries the match
  return k;
}
static void wait_send(int k) { while (!S->msg[k].consumed) { S->status[me] = ST_SEND; S->blk_msg[me] = k; hand_over(); } S->msg[k].used = 0; }
static void release(int k) { S->msg[k].consumed = 1; S->msglive--; for (int r = 0; r < S->n; ++r) if (S->status[r] == ST_SEND && S->blk_msg[r] == k) S->status[r] = ST_READY; }
int MPI_Recv(void *buf, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status *st) {
  In in_; int m = myindex(comm, "Recv"); (void)m; checktype("Recv", t); checkcount("Recv", n);
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= csize(comm))) violation("Recv: source %d out of range", src);
  ++nops; S->ops++; trace_ += "Recv<" + std::to_string(src) + " ";
  for (;;) {
    int best = -1;
    for (int k = 0; k < MAXMSG; ++k) { Msg &g = S->msg[k];
      if (g.used && !g.consumed && g.dst == me && g.comm == comm && (src == MPI_ANY_SOURCE || g.src == src) && (tag == MPI_ANY_TAG || g.tag == tag) && (best < 0 || g.order < S->msg[best].order)) best = k; }
    if (best >= 0) {
      Msg &g = S->msg[best];
      if (g.type != t) violation("Recv: datatype differs from the sender's (rank %d)", g.src);
      if (g.bytes > (long)(size_t(n)*tsz(t))) violation("Recv: message of %ld bytes from rank %d does not fit into %ld bytes", g.bytes, g.src, (long)(size_t(n)*tsz(t)));
      if (g.bytes) memcpy(buf, region(MAXC, 0) + g.off, g.bytes);
      if (st) { st->MPI_SOURCE = g.src; st->MPI_TAG = g.tag; st->MPI_ERROR = 0; st->_bytes = g.bytes; }
      release(best); if (S->eager) g.used = 0;
      return 0;
    }
    S->status[me] = ST_RECV; S->blk_src[me] = src; S->blk_tag[me] = tag; S->blk_comm[me] = comm; hand_over();
  }
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { int k = post_send(b, n, t, d, tag, c); if (!S->eager) wait_send(k); return 0; }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { int k = post_send(b, n, t, d, tag, c); if (!S->eager) wait_send(k); return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rtp, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  noalias("Sendrecv", sb, size_t(sn)*tsz(stp), rb, size_t(rn)*tsz(rtp));
  int k = post_send(sb, sn, stp, d, stag, c); MPI_Recv(rb, rn, rtp, s, rtag, c, st); if (!S->eager) wait_send(k); return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  int k = post_send(b, n, t, d, stag, c); MPI_Recv(b, n, t, s, rtag, c, st); if (!S->eager) wait_send(k); return 0;
}
struct Req { int kind; void *buf; int n, t, src, tag, comm, msg; };
static std::vector<Req> reqs(1);
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { In in_; int k = post_send(b, n, t, d, tag, c); reqs.push_back(Req{1,0,0,0,0,0,0,k}); *r = reqs.size()-1; return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { In in_; reqs.push_back(Req{2,b,n,t,s,tag,c,0}); *r = reqs.size()-1; return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
  if (*r == MPI_REQUEST_NULL) return 0;
  Req q = reqs[*r]; *r = MPI_REQUEST_NULL;
  if (q.kind == 2) return MPI_Recv(q.buf, q.n, q.t, q.src, q.tag, q.comm, st);
  if (!S->eager) wait_send(q.msg);
  return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { // receives first so that rendezvous sends can finish
  for (int pass = 0; pass < 2; ++pass) for (int i = 0; i < n; ++i) if (r[i] && (reqs[r[i]].kind == 2) == (pass == 0)) MPI_Wait(&r[i], st ? &st[i] : 0);
  return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = st->_bytes / tsz(t); return 0; }
}
