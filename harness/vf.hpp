// Exhaustive case enumeration framework: every case of a suite is executed on the real code.
#ifndef VF_HPP
#define VF_HPP
#include <mpi.h>
#ifdef VF_SIM
#include "mpisim.h"
#endif
#include <cstdarg>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

namespace vf {
using std::string; using std::vector;
struct Out {            // what one rank observed in one case
  vector<double> d; string note; uint64_t execs = 1, ops = 0, points = 0; // executions, events and choice points explored within the case
  void put(double x) { d.push_back(x); }
  void put(const vector<double> &v) { d.insert(d.end(), v.begin(), v.end()); }
};
struct Suite {
  virtual ~Suite() {}
  virtual size_t size() = 0;
  virtual int nranks(size_t) { return 1; }
  virtual vector<int> prio(size_t) { return {}; }        // rank scheduling priority
  virtual void body(size_t i, int rank, MPI_Comm comm, Out &o) = 0;
  virtual string check(size_t i, const vector<Out> &o) = 0;
  virtual string describe(size_t i) = 0;
  virtual string key(size_t i, const string &msg) { (void)msg; return describe(i); } // identifies a known finding
  virtual double timeout() { return 30; }
  virtual size_t batch() { return 64; }
  virtual bool eager(size_t) { return true; }
  virtual bool real_ok(size_t) { return true; }           // can be replayed under a real MPI
  virtual void prepare() {}                                // once, before forking
  virtual bool nontrivial(size_t) { return true; }
  std::map<string, std::pair<size_t, string>> known_;       // defects listed in the known-findings file
  void known(const string &id, const string &example) { auto &k = known_[id]; if (k.first++ == 0) k.second = example; }
};
inline string tier() { const char *t = getenv("VERIF_TIER"); return t ? t : "quick"; }
inline bool thorough() { return tier() == "thorough"; }
inline string scratch() { const char *t = getenv("VF_SCRATCH"); return t ? t : "/tmp"; }
inline string strf(const char *fmt, ...) __attribute__((format(printf,1,2)));
inline string strf(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
inline string jesc(const string &s) {
  string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; }
  return o;
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
inline bool close(double a, double b, double tol) { if (std::isnan(a) || std::isnan(b)) return false; return std::fabs(a-b) <= tol; }
// mixed radix index decoder
struct Radix { size_t i; Radix(size_t i_) : i(i_) {} size_t take(size_t n) { size_t r = i % n; i /= n; return r; } };

#ifdef VF_SIM
struct Slot { int nd; int nnote; int done; int pad; uint64_t execs, ops, points; double d[1]; };
struct Report { size_t cases=0, execs=0; uint64_t ops=0, points=0; std::set<uint64_t> outcomes; };

inline uint64_t hash_out(const vector<Out> &o) {
  uint64_t h = 1469598103934665603ULL;
  for (auto &x : o) { for (double v : x.d) { uint64_t b; memcpy(&b, &v, 8); h = (h ^ b) * 1099511628211ULL; } for (char c : x.note) h = (h ^ c) * 1099511628211ULL; h = (h ^ 77) * 1099511628211ULL; }
  return h;
}
// returns process exit code
inline int sim_main(Suite &s, int jobs, const string &outfile, long only, int maxviol, double budget) {
  double t0 = now();
  s.prepare();
  size_t n = s.size();
  // batches: consecutive cases with equal rank count
  struct Batch { size_t lo, hi; };
  vector<Batch> batches;
  if (only >= 0) batches.push_back({(size_t)only, (size_t)only+1});
  else for (size_t i = 0; i < n;) { size_t j = i; int nr = s.nranks(i); bool eg = s.eager(i); while (j < n && j - i < s.batch() && s.nranks(j) == nr && s.eager(j) == eg) ++j; batches.push_back({i, j}); i = j; }
  struct Sh { std::atomic<size_t> next; std::atomic<int> viol; };
  Sh *sh = (Sh *)mmap(0, sizeof(Sh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (only >= 0) jobs = 1;
  fflush(stdout);
  vector<pid_t> pids; vector<string> files;
  for (int w = 0; w < jobs; ++w) {
    string f = outfile + strf(".w%d", w); files.push_back(f);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      FILE *fo = fopen(f.c_str(), "w"); Report rep;
      size_t slotbytes = 1 << 20, maxb = s.batch();
      int maxr = mpisim::MAXR;
      char *ua = (char *)mpisim::user_area(slotbytes * maxb * maxr);
      auto slot = [&](size_t k, int r) { return (Slot *)(ua + slotbytes * (k * maxr + r)); };
      string msgpre;
      size_t ncutoff = 0;
      for (;;) {
        size_t b = sh->next++; if (b >= batches.size() || sh->viol >= maxviol) break;
        if (budget > 0 && now() - t0 > budget) { ncutoff = 1; break; }
        size_t lo = batches[b].lo, hi = batches[b].hi;
        while (lo < hi && sh->viol < maxviol) {
          int nr = s.nranks(lo);
          for (size_t k = 0; k < hi - lo; ++k) for (int r = 0; r < nr; ++r) slot(k, r)->done = 0;
          mpisim::Options o; o.n = nr; o.timeout = s.timeout(); o.eager = s.eager(lo); o.prio = s.prio(lo);
          auto ranks = [&](int rank) {
            for (size_t i = lo; i < hi; ++i) {
              mpisim::mark(i); 
              if (i > lo) { mpisim::internal_sync(); auto p = s.prio(i); if (p.size()) mpisim::set_prio(p.data(), p.size()); }
              fprintf(stderr, "@case %zu\n", i);
              Out out; s.body(i, rank, MPI_COMM_WORLD, out);
              Slot *q = slot(i - lo, rank);
              size_t cap = (slotbytes - sizeof(Slot)) / 8 - 1100; if (out.d.size() > cap) { out.d.resize(cap); out.note += "(truncated)"; }
              q->execs = out.execs; q->ops = out.ops; q->points = out.points; q->nd = out.d.size(); q->nnote = std::min<size_t>(out.note.size(), 8000);
              if (q->nd) memcpy(q->d, out.d.data(), 8*out.d.size());
              if (q->nnote) memcpy((char *)(q->d + q->nd), out.note.data(), q->nnote);
              q->done = 1;
            }
          };
          auto res = mpisim::run(o, ranks);
          if (!res.ok && res.message.compare(0, 11, "no progress") == 0) { o.timeout *= 4; res = mpisim::run(o, ranks); } // a slow machine is not a hang
          rep.ops += res.ops; rep.points += res.points;
          size_t upto = hi;
          if (!res.ok) { long c = -1; if (res.failed_rank >= 0 && res.cur[res.failed_rank] >= 0) c = res.cur[res.failed_rank]; else for (int r = 0; r < nr; ++r) if (res.cur[r] >= 0 && (c < 0 || res.cur[r] < c)) c = res.cur[r]; if (c < 0) c = lo; upto = c; }
          for (size_t i = lo; i < upto; ++i) {
            vector<Out> outs(nr); bool all = true;
            for (int r = 0; r < nr; ++r) { Slot *q = slot(i - lo, r); if (!q->done) all = false; outs[r].d.assign(q->d, q->d + q->nd); outs[r].note.assign((char *)(q->d + q->nd), q->nnote); }
            rep.cases++; for (int r = 0; r < nr; ++r) if (Slot *q = slot(i - lo, r)) { rep.execs += q->done ? q->execs : 1; if (q->done) { rep.ops += q->ops; rep.points += q->points; } } rep.outcomes.insert(hash_out(outs));
            string m = all ? s.check(i, outs) : "case did not complete";
            if (!m.empty()) { sh->viol++; fprintf(fo, "V\t%zu\t%s\t%s\t%s\t\n", i, jesc(s.describe(i)).c_str(), jesc(s.key(i, m)).c_str(), jesc(m).c_str()); fflush(fo); }
          }
          if (!res.ok) {
            sh->viol++; rep.cases++; string m = res.message;
            // pick the interesting part of the monitors' output
            string t = res.stderr_tail; size_t p = t.rfind("@case "); if (p != string::npos && 0) t = t.substr(p);
            size_t q = t.find("ERROR: AddressSanitizer"); if (q == string::npos) q = t.find("runtime error:"); if (q == string::npos) q = t.find("terminate called");
            if (q != string::npos) { size_t e = t.find('\n', q); m += ": " + t.substr(q, std::min<size_t>(e - q, 300)); size_t fr = t.find("#0", q); size_t used = 0; while (fr != string::npos && used < 6) { size_t e2 = t.find('\n', fr); m += " | " + t.substr(fr, std::min<size_t>(e2 - fr, 160)); fr = t.find("#" + std::to_string(++used), e2); } }
            fprintf(fo, "V\t%zu\t%s\t%s\t%s\t%s\n", upto, jesc(s.describe(upto)).c_str(), jesc(s.key(upto, m)).c_str(), jesc(m).c_str(), jesc(t.size() > 6000 ? t.substr(t.size()-6000) : t).c_str()); fflush(fo);
            lo = upto + 1;
          } else lo = hi;
        }
      }
      fprintf(fo, "R\t%zu\t%zu\t%llu\t%llu\t%zu\n", rep.cases, rep.execs, (unsigned long long)rep.ops, (unsigned long long)rep.points, ncutoff);
      for (auto &k : s.known_) fprintf(fo, "K\t%s\t%zu\t%s\n", k.first.c_str(), k.second.first, jesc(k.second.second).c_str());
      for (uint64_t h : rep.outcomes) fprintf(fo, "H\t%llx\n", (unsigned long long)h);
      fclose(fo); _exit(0);
    }
    pids.push_back(p);
  }
  bool workerfail = false; vector<string> died;
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) workerfail = true; else if (!WIFEXITED(st) || WEXITSTATUS(st)) died.push_back(strf("-1\tsuite worker\tworker-died\ta worker of the enumeration died (status 0x%x) while judging what the code under test returned\t", st)); }
  size_t cases=0, execs=0, cut=0; unsigned long long ops=0, points=0; std::set<string> outc; vector<string> viol; std::map<string, std::pair<size_t,string>> kn;
  for (auto &f : files) {
    FILE *fi = fopen(f.c_str(), "r"); if (!fi) continue; char *line = 0; size_t cap = 0; ssize_t k;
    while ((k = getline(&line, &cap, fi)) > 0) {
      if (line[k-1] == '\n') line[--k] = 0;
      if (line[0] == 'R') { size_t a,b,c; unsigned long long d,e; sscanf(line+2, "%zu\t%zu\t%llu\t%llu\t%zu", &a,&b,&d,&e,&c); cases += a; execs += b; ops += d; points += e; cut += c; }
      else if (line[0] == 'H') outc.insert(line+2); else if (line[0] == 'K') { string t = line+2; size_t a = t.find('\t'), b = t.find('\t', a+1); auto &q = kn[t.substr(0, a)]; q.first += atol(t.c_str()+a+1); if (q.second.empty()) q.second = t.substr(b+1); }
      else if (line[0] == 'V') viol.push_back(line+2);
    }
    free(line); fclose(fi); unlink(f.c_str());
  }
  viol.insert(viol.end(), died.begin(), died.end());
  FILE *fo = fopen(outfile.c_str(), "w");
  size_t nontriv = 0; for (size_t i = 0; i < n; ++i) if (s.nontrivial(i)) ++nontriv;
  fprintf(fo, "{\"total\":%zu,\"nontrivial\":%zu,\"cases\":%zu,\"execs\":%zu,\"ops\":%llu,\"points\":%llu,\"distinct_outcomes\":%zu,\"cutoff\":%zu,\"workerfail\":%d,\"wall\":%.3f,\"samples\":[", n, nontriv, cases, execs, ops, points, outc.size(), cut, workerfail, now()-t0);
  size_t ns = std::min<size_t>(n, 6); for (size_t k = 0; k < ns; ++k) fprintf(fo, "%s\"%s\"", k ? "," : "", jesc(s.describe(ns > 1 ? k*(n-1)/(ns-1) : 0)).c_str());
  fprintf(fo, "],\"known\":["); { bool first = true; for (auto &k : kn) { fprintf(fo, "%s{\"id\":\"%s\",\"count\":%zu,\"example\":\"%s\"}", first ? "" : ",", k.first.c_str(), k.second.first, k.second.second.c_str()); first = false; } }
  fprintf(fo, "],\"violations\":[");
  for (size_t k = 0; k < viol.size(); ++k) {
    vector<string> p; size_t a = 0; for (;;) { size_t e = viol[k].find('\t', a); p.push_back(viol[k].substr(a, e - a)); if (e == string::npos) break; a = e + 1; }
    while (p.size() < 5) p.push_back("");
    fprintf(fo, "%s{\"case\":%s,\"describe\":\"%s\",\"key\":\"%s\",\"message\":\"%s\",\"log\":\"%s\"}", k ? "," : "", p[0].c_str(), p[1].c_str(), p[2].c_str(), p[3].c_str(), p[4].c_str());
  }
  fprintf(fo, "]}\n"); fclose(fo);
  return workerfail ? 3 : 0;
}
#else
// Replay a selection of cases under the real MPI: every stride-th case with as many ranks as the world.
inline int real_main(Suite &s, const string &outfile, size_t want) {
  MPI_Init(0, 0); int n, r; MPI_Comm_size(MPI_COMM_WORLD, &n); MPI_Comm_rank(MPI_COMM_WORLD, &r);
  s.prepare();
  vector<size_t> sel; for (size_t i = 0; i < s.size(); ++i) if (s.nranks(i) == n && s.real_ok(i)) sel.push_back(i);
  size_t stride = sel.size() > want ? sel.size() / want : 1; size_t done = 0; vector<string> viol;
  for (size_t k = 0; k < sel.size(); k += stride) {
    size_t i = sel[k]; Out o; s.body(i, r, MPI_COMM_WORLD, o);
    int nd = o.d.size(), nn = o.note.size(); vector<int> cnt(n), dis(n), cn(n), dn(n);
    MPI_Gather(&nd, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, MPI_COMM_WORLD); MPI_Gather(&nn, 1, MPI_INT, cn.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    size_t tot = 0, totn = 0; for (int q = 0; q < n; ++q) { dis[q] = tot; tot += cnt[q]; dn[q] = totn; totn += cn[q]; }
    vector<double> all(tot + 1); vector<char> alln(totn + 1); o.d.push_back(0);
    MPI_Gatherv(o.d.data(), nd, MPI_DOUBLE, all.data(), cnt.data(), dis.data(), MPI_DOUBLE, 0, MPI_COMM_WORLD);
    MPI_Gatherv((void *)o.note.data(), nn, MPI_CHAR, alln.data(), cn.data(), dn.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
    if (r == 0) {
      vector<Out> outs(n); for (int q = 0; q < n; ++q) { outs[q].d.assign(all.begin() + dis[q], all.begin() + dis[q] + cnt[q]); outs[q].note.assign(alln.data() + dn[q], cn[q]); }
      string m = s.check(i, outs); ++done;
      if (!m.empty()) viol.push_back(strf("{\"case\":%zu,\"describe\":\"%s\",\"key\":\"%s\",\"message\":\"%s\",\"log\":\"real MPI\"}", i, jesc(s.describe(i)).c_str(), jesc(s.key(i, m)).c_str(), jesc(m).substr(0,2000).c_str()));
    }
  }
  if (r == 0) { FILE *f = fopen(outfile.c_str(), "w"); fprintf(f, "{\"replayed\":%zu,\"violations\":[", done); for (size_t k = 0; k < viol.size(); ++k) fprintf(f, "%s%s", k ? "," : "", viol[k].c_str()); fprintf(f, "]}\n"); fclose(f); }
  MPI_Finalize(); return 0;
}
#endif
typedef std::map<string, std::function<Suite *()>> Registry;
inline int main_(int argc, char **argv, Registry &reg) {
  string suite, out = "/dev/null"; int jobs = 8, maxviol = 20; long only = -1; size_t want = 100; double budget = 0; bool list = false;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--suite") suite = nx(); else if (a == "--out") out = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--only") only = atol(nx().c_str()); else if (a == "--want") want = atol(nx().c_str());
    else if (a == "--maxviol") maxviol = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--list") list = true;
  }
  if (!reg.count(suite)) { fprintf(stderr, "no such suite: %s\n", suite.c_str()); return 4; }
  std::unique_ptr<Suite> s(reg[suite]());
#ifdef VF_SIM
  if (list) { s->prepare(); for (size_t i = 0; i < s->size(); ++i) printf("%zu n=%d %s\n", i, s->nranks(i), s->describe(i).c_str()); return 0; }
  return sim_main(*s, jobs, out, only, maxviol, budget);
#else
  return real_main(*s, out, want);
#endif
}
} // namespace vf
#endif
