// The MPI helper (P15): every operation x communicator x ranks x type x size distribution x root x arrival order.
#include "vf.hpp"
#include "ls_mpi_support.h"
#include "ls_arr.h"
#include <algorithm>
#include <numeric>
#include <limits>
#include <random>
using namespace vf; using levels::MPI_Manager; template<class T> using Arr = levels::arr<T>;
enum Op { BCAST, BCAST1, REDUCE, REDUCE1, ALLRED, ALLRED_IP, ALLRED1, ALLRED1_IP, GATHER, GATHERV, GATHERV2, ALLGATHER, ALLGATHER1, A2A, A2AV_EASY, A2AV, SENDRECV, SENDRECV1, REPLACE, REPLACE1, SEND, SEND1, SHARE, UNSUP, MIXED, NOP };
static const char *ON[] = {"bcast", "bcast of a value", "reduce", "reduce of a value", "allreduce", "allreduce in place", "allreduce of a value", "allreduce of a value in place", "gather", "gatherv", "gatherv of matrices", "allgather", "allgather of a value", "all2all", "all2allv_easy", "all2allv", "sendrecv", "sendrecv of a value", "sendrecv_replace", "sendrecv_replace of a value", "send/recv", "send/recv of a value", "calcShare", "unsupported types and sizes", "a sequence of operations"};
static const char *TN[] = {"char", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double"};
struct C { int op, n, type, root, red; vector<int> sz; vector<int> pr; int comm; bool eager; };
template<class T> static T val(int rank, int i, int salt = 0) { int v = 1 + (rank*7 + i*3 + salt*5) % 11; if (std::is_signed<T>::value && (rank + i) % 3 == 0 && !std::is_same<T, char>::value) v = -v; if (std::is_floating_point<T>::value) return T(v)/4 + (salt == 100 || sizeof(T) == 4 ? T(0) : T(v)*std::pow(T(2), sizeof(T) == 8 ? -40 : -50)); if (std::is_unsigned<T>::value && !std::is_same<T, char>::value && (rank + i) % 3 == 0) return std::numeric_limits<T>::max() - T(v); if (sizeof(T) == 8 && i % 2 && salt != 100) return T(v) * T(1ll << 40); return T(v); }
template<class T> static T red(int op, const vector<T> &v) { T r = v[0]; for (size_t i = 1; i < v.size(); ++i) switch (op) { case 0: r = r + v[i]; break; case 1: r = std::min(r, v[i]); break; case 2: r = std::max(r, v[i]); break; case 3: r = r * v[i]; } return r; }
static MPI_Manager::redOp rop(int r) { return r == 0 ? MPI_Manager::Sum : r == 1 ? MPI_Manager::Min : r == 2 ? MPI_Manager::Max : MPI_Manager::Prod; }
static const char *RN[] = {"sum", "min", "max", "product"};
struct Base : Suite {
  vector<C> c;
  void group() { std::stable_sort(c.begin(), c.end(), [](const C &a, const C &b) { return std::make_pair(a.n + (a.comm == 2), a.eager) < std::make_pair(b.n + (b.comm == 2), b.eager); }); }
  size_t size() override { return c.size(); }
  int nranks(size_t i) override { return c[i].n + (c[i].comm == 2); }
  vector<int> prio(size_t i) override { return c[i].pr; }
  bool eager(size_t i) override { return c[i].eager; }
  size_t batch() override { return 300; }
  string describe(size_t i) override { auto &x = c[i]; string s = strf("%s of %s on %d ranks", ON[x.op], TN[x.type], x.n); if (x.op >= REDUCE && x.op <= ALLRED1_IP) s += strf(", %s", RN[x.red]); s += strf(", root/shift %d, sizes", x.root); for (int v : x.sz) s += strf(" %d", v); static const char *CN[] = {"", ", duplicate communicator", ", subset communicator", ", reversed communicator"}; s += CN[x.comm]; if (!x.eager) s += ", rendezvous"; if (x.pr.size()) { s += ", arrival order"; for (int p : x.pr) s += strf(" %d", p); } return s; }
  string check(size_t, const vector<Out> &o) override { for (size_t r = 0; r < o.size(); ++r) if (o[r].note.size()) return strf("rank %zu: ", r) + o[r].note; return ""; }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    auto &x = c[i]; MPI_Comm cc = comm; bool in = true;
    if (x.comm == 1) MPI_Comm_dup(comm, &cc); if (x.comm == 2) { in = rank != 0; MPI_Comm_split(comm, in, rank, &cc); } if (x.comm == 3) MPI_Comm_split(comm, 0, -rank, &cc);
    try { if (in) o.note = dispatch(x, cc, o); } catch (std::exception &e) { o.note = string("unexpected exception: ") + e.what(); } catch (levels::LEVELSError &e) { o.note = "unexpected LEVELSError"; }
    if (x.comm) MPI_Comm_free(&cc);
  }
  string dispatch(const C &x, MPI_Comm cc, Out &o) { MPI_Manager m(cc); int n, r; MPI_Comm_size(cc, &n); MPI_Comm_rank(cc, &r); if (m.num_ranks() != n || m.rank() != r || m.master() != (r == 0) || m.comm() != cc || n != x.n) return "rank, size or communicator of the manager is wrong";
    switch (x.type) { case 0: return go<char>(x, m, o); case 1: return go<int>(x, m, o); case 2: return go<unsigned>(x, m, o); case 3: return go<long>(x, m, o); case 4: return go<unsigned long>(x, m, o); case 5: return go<long long>(x, m, o); case 6: return go<unsigned long long>(x, m, o); case 7: return go<float>(x, m, o); case 8: return go<double>(x, m, o); default: return go<long double>(x, m, o); } }
  template<class T> static string cmp(const Arr<T> &a, const vector<T> &w, const char *what) { if (a.size() != w.size()) return strf("%s has %zu entries, expected %zu", what, (size_t)a.size(), w.size()); for (size_t i = 0; i < w.size(); ++i) if (a[i] != w[i]) return strf("entry %zu of %s is %.17g, expected %.17g", i, what, (double)a[i], (double)w[i]); return ""; }
  template<class T> static Arr<T> make(int n, int rank, int salt = 0) { Arr<T> a(n); for (int i = 0; i < n; ++i) a[i] = val<T>(rank, i, salt); return a; }
  template<class T> static vector<T> vec(int n, int rank, int salt = 0) { vector<T> a(n); for (int i = 0; i < n; ++i) a[i] = val<T>(rank, i, salt); return a; }
  template<class T> static string unsup(MPI_Manager &m) { Arr<T> a(2); a.fill(1); int f = 0; try { m.bcast(a); } catch (...) { ++f; } try { Arr<T> b(2); m.allreduce(a, b, MPI_Manager::Sum); } catch (...) { ++f; } try { Arr<T> b; m.allgather(a, b); } catch (...) { ++f; } return f == 3 ? "" : "an unsupported type was accepted"; }
  template<class T> string go(const C &x, MPI_Manager &m, Out &o) {
    int n = x.n, r = m.rank(); auto &z = x.sz; string e; Arr<T> in, out(3); out.fill(T(99)); auto done = [&]() { for (tsize k = 0; k < out.size(); ++k) o.put((double)out[k]); return cmp(in, vec<T>(in.size(), r), "the input"); };
    switch (x.op) {
      case BCAST: { in = make<T>(z[0], r); m.bcast(in, x.root); for (tsize k = 0; k < in.size(); ++k) o.put((double)in[k]); return cmp(in, vec<T>(z[0], x.root), "the array"); }
      case BCAST1: { T v = val<T>(r, 2); m.bcast(v, x.root); return v == val<T>(x.root, 2) ? "" : "wrong value"; }
      case REDUCE: case ALLRED: case ALLRED_IP: { int sa = x.red == 3 ? 100 : 0; in = make<T>(z[0], r, sa); vector<T> w; for (int k = 0; k < z[0]; ++k) { vector<T> q; for (int s = 0; s < n; ++s) q.push_back(val<T>(s, k, sa)); w.push_back(red(x.red, q)); } if (x.op == ALLRED_IP) { m.allreduce(in, rop(x.red)); return cmp(in, w, "the result"); } if (x.op == REDUCE) m.reduce(in, out, rop(x.red), x.root); else m.allreduce(in, out, rop(x.red)); if ((x.op == ALLRED || r == x.root) && (e = cmp(out, w, "the result")).size()) return e; done(); return cmp(in, vec<T>(in.size(), r, sa), "the input"); }
      case REDUCE1: case ALLRED1: case ALLRED1_IP: { int sa = x.red == 3 ? 100 : 0; T v = val<T>(r, 1, sa), u = T(99); vector<T> q; for (int s = 0; s < n; ++s) q.push_back(val<T>(s, 1, sa)); T w = red(x.red, q); if (x.op == ALLRED1_IP) { m.allreduce(v, rop(x.red)); return v == w ? "" : "wrong result"; } if (x.op == REDUCE1) m.reduce(v, u, rop(x.red), x.root); else m.allreduce(v, u, rop(x.red)); if (v != val<T>(r, 1, sa)) return "the input was changed"; return x.op == REDUCE1 && r != x.root ? "" : u == w ? "" : "wrong result"; }
      case GATHER: { T v = val<T>(r, 3); if (r == x.root) m.gather_m(v, out, x.root); else m.gather_s(v, x.root); if (r != x.root) return ""; vector<T> w; for (int s = 0; s < n; ++s) w.push_back(val<T>(s, 3)); e = cmp(out, w, "the result"); return e.size() ? e : done(); }
      case GATHERV: { in = make<T>(z[r], r); m.gatherv(in, out); if (r == 0) { vector<T> w; for (int s = 0; s < n; ++s) { auto v = vec<T>(z[s], s); w.insert(w.end(), v.begin(), v.end()); } if ((e = cmp(out, w, "the result")).size()) return e; } return done(); }
      case GATHERV2: { int nc = 1 + x.root; levels::arr2<T> a(z[r], nc), b; for (int i = 0; i < z[r]; ++i) for (int j = 0; j < nc; ++j) a[i][j] = val<T>(r, i*nc + j); if (m.master()) m.gatherv_m(a, b); else m.gatherv_s(a); if (r == 0) { int tot = 0; for (int s = 0; s < n; ++s) tot += z[s]; if ((int)b.size1() != tot || (int)b.size2() != nc) return strf("the result has %zu x %zu entries, expected %d x %d", (size_t)b.size1(), (size_t)b.size2(), tot, nc); int q = 0; for (int s = 0; s < n; ++s) for (int i = 0; i < z[s]; ++i, ++q) for (int j = 0; j < nc; ++j) if (b[q][j] != val<T>(s, i*nc + j)) return strf("entry (%d,%d) is wrong", q, j); } return ""; }
      case ALLGATHER: { in = make<T>(z[0], r); m.allgather(in, out); vector<T> w; for (int s = 0; s < n; ++s) { auto v = vec<T>(z[0], s); w.insert(w.end(), v.begin(), v.end()); } e = cmp(out, w, "the result"); return e.size() ? e : done(); }
      case ALLGATHER1: { T v = val<T>(r, 1); m.allgather(v, out); vector<T> w; for (int s = 0; s < n; ++s) w.push_back(val<T>(s, 1)); return cmp(out, w, "the result"); }
      case A2A: { in = make<T>(z[0]*n, r); m.all2all(in, out); vector<T> w; for (int s = 0; s < n; ++s) for (int k = 0; k < z[0]; ++k) w.push_back(val<T>(s, r*z[0] + k)); e = cmp(out, w, "the result"); return e.size() ? e : done(); }
      case A2AV_EASY: case A2AV: { Arr<int> ni(n), no, di(n), dd(n); int tot = 0, gap = x.op == A2AV ? x.root : 0; for (int s = 0; s < n; ++s) { ni[s] = z[r*n + s]; di[s] = tot; tot += ni[s] + gap; } in = make<T>(tot, r); vector<T> w; auto sent = [&](int from) { vector<int> st; int t = 0; for (int s = 0; s < n; ++s) { st.push_back(t); t += z[from*n + s] + gap; } return st; };
        if (x.op == A2AV_EASY) { m.all2allv_easy(in, ni, out, no); if ((int)no.size() != n) return "wrong number of receive counts"; for (int s = 0; s < n; ++s) { if (no[s] != z[s*n + r]) return strf("receive count from rank %d is %d, expected %d", s, no[s], z[s*n + r]); int st = sent(s)[r]; for (int k = 0; k < no[s]; ++k) w.push_back(val<T>(s, st + k)); } for (int s = 0; s < n; ++s) if (ni[s] != z[r*n + s]) return "the send counts were changed"; }
        else { int ot = 0; no.alloc(n); for (int s = 0; s < n; ++s) { no[s] = z[s*n + r]; ot += no[s]; } int pos = ot; for (int s = 0; s < n; ++s) { pos -= no[s]; dd[s] = pos; } w.assign(ot, T(0)); for (int s = 0; s < n; ++s) { int st = sent(s)[r]; for (int k = 0; k < no[s]; ++k) w[dd[s] + k] = val<T>(s, st + k); } m.all2allv(in, ni, di, out, no, dd, ot); }
        e = cmp(out, w, "the result"); return e.size() ? e : done(); }
      case SENDRECV: case SENDRECV1: case REPLACE: case REPLACE1: { // sz: a permutation of the ranks
        int dest = z[r], src = std::find(z.begin(), z.begin() + n, r) - z.begin(), k = x.root; if (x.op == SENDRECV) { in = make<T>(k + r, r); out.alloc(k + src); m.sendrecv(in, dest, out, src); e = cmp(out, vec<T>(k + src, src), "the result"); return e.size() ? e : done(); } if (x.op == REPLACE) { in = make<T>(k, r); m.sendrecv_replace(in, dest, src); return cmp(in, vec<T>(k, src), "the result"); } T v = val<T>(r, 4), u = T(99); if (x.op == SENDRECV1) { m.sendrecv(v, dest, u, src); return v != val<T>(r, 4) ? "the input was changed" : u != val<T>(src, 4) ? "wrong value received" : ""; } m.sendrecv_replace(v, dest, src); return v == val<T>(src, 4) ? "" : "wrong value received"; }
      case SEND: case SEND1: { // everybody to the root, in rank order, then back
        if (r == x.root) { for (int s = 0; s < n; ++s) if (s != r) { if (x.op == SEND) { Arr<T> b(z[s]); m.recv(b, s); if ((e = cmp(b, vec<T>(z[s], s), "the message")).size()) return e; m.send(b, s); } else { T v; m.recv(v, s); if (v != val<T>(s, 0)) return "wrong value received"; m.send(v, s); } } } else { if (x.op == SEND) { in = make<T>(z[r], r); m.send(in, x.root); Arr<T> b(z[r]); m.recv(b, x.root); if ((e = cmp(b, vec<T>(z[r], r), "the returned message")).size()) return e; } else { T v = val<T>(r, 0), u; m.send(v, x.root); m.recv(u, x.root); if (u != v) return "wrong value returned"; } } return ""; }
      case SHARE: { int64 lo, hi; m.calcShare(z[0], z[0] + z[1], lo, hi); Arr<int64> a, b; m.allgather(lo, a); m.allgather(hi, b); if (a[0] != z[0] || b[n-1] != z[0] + z[1]) return "the shares do not cover the range"; for (int s = 0; s < n; ++s) { if (s && a[s] != b[s-1]) return "the shares are not consecutive"; int64 q = b[s] - a[s]; if (q < z[1]/n || q > (z[1] + n - 1)/n) return "the shares are not balanced"; } return ""; }
      case UNSUP: { FILE *er = freopen("/dev/null", "a", stderr); (void)er; if ((e = unsup<short>(m)).size() || (e = unsup<unsigned char>(m)).size() || (e = unsup<bool>(m)).size()) return e; if (n > 1) { bool f = false; Arr<T> q(n*2 + 1), w; q.fill(T(1)); try { m.all2all(q, w); } catch (...) { f = true; } if (!f) return "an array that cannot be divided among the ranks was accepted"; } { bool f = false; Arr<int> cnt(n), oc; cnt.fill(2); Arr<T> q(2*n + 1), w; q.fill(T(1)); try { m.all2allv_easy(q, cnt, w, oc); } catch (...) { f = true; } if (!f) return "counts that do not match the array were accepted"; } T v = val<T>(r, 0); m.bcast(v, n - 1); m.barrier(); return v == val<T>(n - 1, 0) ? "" : "wrong value after rejected calls"; }
      case MIXED: { // several operations in a row, no barrier in between
        in = make<T>(z[r], r); m.gatherv(in, out); int nn = 0; for (int s = 0; s < n; ++s) nn += z[s]; Arr<T> b; if (r == 0) b = out; else b.alloc(nn); m.bcast(b, 0); vector<T> w; for (int s = 0; s < n; ++s) { auto v = vec<T>(z[s], s); w.insert(w.end(), v.begin(), v.end()); } if ((e = cmp(b, w, "gatherv and bcast")).size()) return e; Arr<T> s2(1), r2(1); s2[0] = val<T>(r, 5); m.sendrecv(s2, (r + 1) % n, r2, (r + n - 1) % n); if (r2[0] != val<T>((r + n - 1) % n, 5)) return "wrong exchange"; T mx; m.allreduce(val<T>(r, 0), mx, MPI_Manager::Max); vector<T> q; for (int s = 0; s < n; ++s) q.push_back(val<T>(s, 0)); if (mx != red(2, q)) return "wrong maximum"; if (r == n - 1) { Arr<T> g; m.gather_m(mx, g, n - 1); for (int s = 0; s < n; ++s) if (g[s] != mx) return "wrong gather"; } else m.gather_s(mx, n - 1); m.barrier(); return done(); }
    }
    return "unknown operation"; }
};
static vector<vector<int>> tuples(int n, int lo, int hi) { vector<vector<int>> r(1); for (int i = 0; i < n; ++i) { vector<vector<int>> q; for (auto &t : r) for (int v = lo; v <= hi; ++v) { q.push_back(t); q.back().push_back(v); } r = q; } return r; }
static vector<vector<int>> perms(int n) { vector<int> p(n); std::iota(p.begin(), p.end(), 0); vector<vector<int>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
struct Ops : Base { // every operation, type and size; a rotating arrival order, communicator and protocol
  void prepare() override {
    size_t q = 0; int N = thorough() ? 5 : 4;
    for (int n = 1; n <= N; ++n) { auto P = perms(n); auto add = [&](int op, int type, int root, int red, vector<int> sz) { ++q; c.push_back({op, n, type, root, red, sz, P[q % P.size()], int(q % 5 == 0 ? 1 : q % 7 == 0 ? 2 : q % 11 == 0 ? 3 : 0), q % 2 == 0}); };
      for (int t = 0; t < 10; ++t) {
        for (int root = 0; root < n; ++root) { for (int k = 0; k <= 3; ++k) add(BCAST, t, root, 0, {k}); add(BCAST1, t, root, 0, {}); add(GATHER, t, root, 0, {}); add(SEND1, t, root, 0, {}); if (t) for (int rd = 0; rd < 4; ++rd) { for (int k = 0; k <= 3; ++k) add(REDUCE, t, root, rd, {k}); add(REDUCE1, t, root, rd, {}); } }
        if (t) for (int rd = 0; rd < 4; ++rd) { for (int k = 0; k <= 3; ++k) { add(ALLRED, t, 0, rd, {k}); add(ALLRED_IP, t, 0, rd, {k}); } add(ALLRED1, t, 0, rd, {}); add(ALLRED1_IP, t, 0, rd, {}); }
        for (auto &z : tuples(n, 0, n <= 3 ? 3 : 2)) { add(GATHERV, t, 0, 0, z); if (t % 3 == 1) { add(GATHERV2, t, 0, 0, z); add(GATHERV2, t, 2, 0, z); } if (t % 4 == 0) for (int root = 0; root < n; ++root) add(SEND, t, root, 0, z); add(MIXED, t, 0, 0, z); }
        for (int k = 0; k <= 3; ++k) { add(ALLGATHER, t, 0, 0, {k}); add(A2A, t, 0, 0, {k}); } add(ALLGATHER1, t, 0, 0, {}); add(UNSUP, t, 0, 0, {});
        for (auto &p : perms(n)) for (int k = 0; k <= 2; ++k) { add(SENDRECV, t, k, 0, p); add(REPLACE, t, k, 0, p); if (!k) { add(SENDRECV1, t, 0, 0, p); add(REPLACE1, t, 0, 0, p); } }
      }
      for (int lo : {-7, 0, 3}) for (int len = 0; len <= 13; ++len) add(SHARE, 1, 0, 0, {lo, len});
      int hi = n <= 2 ? 3 : n == 3 ? 2 : 1; if (n <= 4) { auto Z = tuples(n*n, 0, hi); size_t step = thorough() ? 1 : n == 3 ? 1 : n == 4 ? 9 : 1; for (size_t k = 0; k < Z.size(); k += step) { add(A2AV_EASY, 1 + k % 9, 0, 0, Z[k]); if (k % 3 == 0 || n < 3) add(A2AV, 1 + k % 9, k % 3, 0, Z[k]); } } }
    group();
  }
};
struct Order : Base { // every arrival order, communicator and protocol for one representative of every operation
  void prepare() override {
    int N = thorough() ? 5 : 4; for (int n = 2; n <= N; ++n) for (auto &p : perms(n)) for (int comm = 0; comm < 4; ++comm) for (int eager = 0; eager < 2; ++eager) for (int op = 0; op < NOP; ++op) for (int root : {0, n - 1}) for (int v = 0; v < 2; ++v) {
      vector<int> z(n*n); for (int k = 0; k < n*n; ++k) z[k] = (k*7 + v*3 + op) % 3; if (op >= SENDRECV && op <= REPLACE1) { z.resize(n); for (int k = 0; k < n; ++k) z[k] = (k + 1 + v) % n; } vector<int> pr = p; if (comm == 2) { pr.push_back(n); std::rotate(pr.begin(), pr.begin() + v, pr.end()); } int rt = op == A2AV ? v : op == GATHERV2 ? v : root; if (op >= SENDRECV && op <= REPLACE1) rt = 2; if (op == GATHERV2 || op == GATHERV || op == A2AV_EASY || op == A2AV || op >= SENDRECV && op <= REPLACE1) if (root && n > 1) continue;
      c.push_back({op, n, 1 + (op + v) % 9, rt, (op + v) % 4, z, pr, comm, (bool)eager}); } group(); }
};
int main(int argc, char **argv) { Registry reg; reg["ops"] = [] { return new Ops; }; reg["order"] = [] { return new Order; }; return main_(argc, argv, reg); }
