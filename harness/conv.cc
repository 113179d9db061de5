// Convolution suites: P01 (values), P02 (distribution), P03 (collectives), P04 (rows), P06 (memory), P07 (errors).
#include "convlib.hpp"
// ---- P01 -------------------------------------------------------------------------------------
struct ValueSuite : Suite {
  vector<Cfg> c; bool dirs_full = true; double budget_lmax = 0;
  void add(int lmax, int mmax, int ds, int db, int dm, bool pol, int order, unsigned seed) { c.push_back({lmax, mmax, lmax+ds, lmax+db, std::min(lmax+db, mmax+dm), pol, order, seed}); }
  void prepare() override {
    int lm = thorough() ? 6 : 4;
    for (int lmax = 1; lmax <= lm; ++lmax) for (int mmax = 0; mmax <= lmax; ++mmax) for (int pol = 0; pol < 2; ++pol)
      for (int order = 0; order <= (thorough() ? 13 : 9); ++order) for (int v = 0; v < (thorough() ? 4 : 2); ++v) {
        int ds = v & 1, db = v >= 2 ? 2 : 0, dm = v & 1; if (!thorough() && v == 1) { db = 1; }
        add(lmax, mmax, ds, db, dm, pol, order, 1 + lmax*7 + mmax); }
    for (int lmax : thorough() ? vector<int>{8, 11, 16, 20, 31, 37, 48, 64, 96} : vector<int>{8, 13, 20, 33}) for (int pol = 0; pol < 2; ++pol) for (int order : {1, 3, 5, 8})
      add(lmax, lmax <= 13 ? std::min(lmax, 8) : lmax <= 20 ? 6 : lmax <= 34 ? 5 : 4, 0, 1, 1, pol, order, 99 + lmax);
    for (auto &k : c) sys(k);
  }
  size_t size() override { return c.size(); }
  size_t batch() override { return 4; }
  vector<Dir> dirs(const Cfg &k) { bool f = k.lmax <= 6; vector<Dir> r; int q = 0; for (double t : thetas(k.lmax, f)) for (double p : phis(k.lmax, f)) { ++q; for (double s : psis(f)) { if (!f && q % 7) continue; r.push_back({p, t, s}); } } return r; }
  void body(size_t i, int, MPI_Comm comm, Out &o) override {
    const Cfg &k = c[i]; auto s = sys(k); conviqt::pointing p; auto d = dirs(k); load(p, d);
    conviqt::convolver cv(&s->s, &s->b, &s->d, k.pol, k.lmax, k.mmax, k.order, 0, comm); if (cv.convolve(p, false)) throw std::runtime_error("a convolution that succeeded returns a failure");
    o.put(p.size()); for (size_t j = 0; j < d.size() && 5*j+4 < p.size(); ++j) o.put(p[5*j+3]);
  }
  string check(size_t i, const vector<Out> &o) override {
    const Cfg &k = c[i]; auto d = dirs(k); auto r = refconv(k); if (o[0].d.size() != d.size() + 1) return strf("expected %zu rows, got %zu", d.size(), o[0].d.size() - 1);
    for (size_t j = 0; j < d.size(); ++j) { double e = r->interp(k.order, d[j].theta, d[j].phi, d[j].psi), x = o[0].d[j+1]; double tol = tolerance(*r, k.order, d[j]);
      if (close(x, e, tol) || r->matches(x, k.order, d[j].theta, d[j].phi, d[j].psi, tol, false)) continue;
      if (r->matches(x, k.order, d[j].theta, d[j].phi, d[j].psi, tol, true)) { known("pole-ring-terms-dropped", ::str(k) + " at " + fix::str(d[j])); continue; }
      return strf("signal %.17g, harmonic sum gives %.17g (tolerance %.2g) at ", x, e, tolerance(*r, k.order, d[j])) + fix::str(d[j]); }
    return "";
  }
  string describe(size_t i) override { return ::str(c[i]) + strf(" directions=%zu", dirs(c[i]).size()); }
};
// every pair of basis vectors: the convolution is bilinear, so these decide it for all coefficients
struct BasisSuite : Suite {
  struct B { int comp, l, m, part; }; int L; vector<B> b; vector<Dir> d; SysP tpl[2];
  BasisSuite() { L = thorough() ? 5 : 4; }
  void prepare() override {
    for (int k = 0; k < 3; ++k) for (int l = 0; l <= L; ++l) for (int m = 0; m <= l; ++m) for (int q = 0; q < (m ? 2 : 1); ++q) b.push_back({k, l, m, q});
    double h = PI/(L+1), hp = 2*PI/(2*L+1); for (double t : {0.0, h, 0.4*h, PI/2, PI-1.3*h, PI}) for (double p : {PI/2, PI/2-1.4*hp, 0.3}) d.push_back({p, t, 0.7}); d.push_back({PI/2+hp, 2*h, 0}); d.push_back({PI/2+hp, PI-h, PI/2});
    for (int p = 0; p < 2; ++p) tpl[p] = make(zero(L, L, p), zero(L, L, p));
  }
  size_t size() override { return b.size()*b.size(); }
  size_t batch() override { return 200; }
  Exp unit(const B &x, bool pol) { Exp e = zero(L, L, pol); e.c[x.comp].at(x.l, x.m) = x.part ? ref::C(0, 1) : ref::C(1, 0); return e; }
  bool pol(size_t i) { return b[i % b.size()].comp || b[i / b.size()].comp || (i & 1); }
  void body(size_t i, int, MPI_Comm comm, Out &o) override {
    bool p = pol(i); auto s = tpl[p]; fill(s->s, unit(b[i % b.size()], p)); fill(s->b, unit(b[i / b.size()], p));
    conviqt::pointing q; load(q, d); conviqt::convolver cv(&s->s, &s->b, &s->d, p, L, L, 3, 0, comm); cv.convolve(q, false); for (size_t j = 0; j < d.size(); ++j) o.put(q[5*j+3]);
  }
  string check(size_t i, const vector<Out> &o) override {
    Exp a = unit(b[i % b.size()], true), c = unit(b[i / b.size()], true); ref::Conv r(L, L, 3, a.c, c.c); bool z = b[i % b.size()].comp != b[i / b.size()].comp || b[i % b.size()].l != b[i / b.size()].l;
    for (size_t j = 0; j < d.size(); ++j) { double e = z ? 0 : r.interp(3, d[j].theta, d[j].phi, d[j].psi); if (!close(o[0].d[j], e, 1e-11) && r.pole_defect(o[0].d[j], 3, d[j].theta, d[j].phi, d[j].psi, 1e-11)) { known("pole-ring-terms-dropped", describe(i) + " at " + fix::str(d[j])); continue; }
      if (!close(o[0].d[j], e, 1e-11)) return strf("signal %.17g, harmonic sum gives %.17g at ", o[0].d[j], e) + fix::str(d[j]); }
    return "";
  }
  bool nontrivial(size_t i) override { return b[i % b.size()].comp == b[i / b.size()].comp && b[i % b.size()].l == b[i / b.size()].l; }
  string describe(size_t i) override { auto &x = b[i % b.size()], &y = b[i / b.size()]; const char *n = "TGC", *q = "ri"; return strf("sky %c(%d,%d)%c x beam %c(%d,%d)%c, L=%d", n[x.comp], x.l, x.m, q[x.part], n[y.comp], y.l, y.m, q[y.part], L); }
};

// ---- P02, P04: distribution over ranks ----------------------------------------------------------
struct DistSuite : ConvJobs {
  DistSuite(bool r) : ConvJobs(r) {}
  void prepare() override {
    bool T = thorough();
    auto add = [&](const Cfg &c, const Lists &l) { Job x; x.c = c; x.l = l; x.junk = rows ? j.size() % 36 : 0; j.push_back(x); };
    for (int n = 1; n <= 4; ++n) {
      for (int N = 0; N <= 4; ++N) all_lists(N == 4 ? (T ? 7 : 4) : T ? 12 : 8, N, n, [&](const Lists &l) { add(cfg(3, 2, true, 3), l); });
      all_lists(3, T ? 5 : 4, n, [&](const Lists &l) { add(cfg(2, 0, false, 1), l); });
      // narrow stencils on a fine grid: rows that leave gaps of unused rings
      for (int N = 1; N <= (T ? 4 : 3); ++N) { size_t q = 0; all_lists(N == 4 ? 5 : N == 3 && !T ? 6 : 12, N, n, [&](const Lists &l) { int w = q++ % 4; add(w == 0 ? cfg(12, 2, false, 0) : w == 1 ? cfg(8, 2, true, 1) : w == 2 ? cfg(16, 1, false, 1) : cfg(9, 3, true, 2), l); }); }
      // load balancing: many rows, every split
      for (auto rws : vector<vector<int>>{{0,1,2,3,4,5,6,7,8,9,10,11}, {11,11,4,4,4,0,11,10,3,1}, {1,1,1,1,1,1,7,1}})
        splits(rws, n, [&](const Lists &l) { add(cfg(4, 2, n & 1, 5), l); });
      // many samples: forward, backward and interleaved orders
      for (int ord = 0; ord < 3; ++ord) for (int N : {24, 72}) { vector<int> big; for (int k = 0; k < N; ++k) { int q = k*72/N; big.push_back(ord == 0 ? q : ord == 1 ? 71 - q : (q*29) % 72); }
        size_t q = 0; splits(big, n, [&](const Lists &l) { bool ok = true; for (size_t r = 0; r + 1 < l.size(); ++r) if (l[r].size() % (N/(T ? 8 : 4))) ok = false; if (n <= 2 && N == 24) ok = true; ++q; if (ok) for (int w = 0; w < 2; ++w) add(cfg(w ? 8 : 3, 2, w, w ? 5 : 2), l); }); }
      // every configuration, a few distributions
      for (int lmax = 1; lmax <= 3; ++lmax) for (int mmax = 0; mmax <= lmax; ++mmax) for (int pol = 0; pol < 2; ++pol) for (int order = 0; order <= (T ? 9 : 5); ++order)
        splits({6, 3, 1, 11, 9}, n, [&](const Lists &l) { size_t q = 0; for (auto &r : l) q = q*7 + r.size(); if (T || n < 3 || (q + order) % 5 == 0) add(cfg(lmax, mmax, pol, order), l); });
    }
    for (int n : T ? vector<int>{5, 6, 7, 8, 12, 16} : vector<int>{5, 7, 8}) splits(n <= 8 ? vector<int>{2, 8, 1, 4} : vector<int>{2, 8}, n, [&](const Lists &l) { add(cfg(2, 1, n & 1, 3), l); });
    group(); reference();
  }
};
// long row lists around powers of two and beyond 16-bit counts, dealt to the ranks in several patterns
struct LongSuite : ConvJobs {
  LongSuite(bool r) : ConvJobs(r) {} vector<string> names;
  void prepare() override {
    vector<size_t> N{100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 13107, 13108, 16384, 20001, 32767, 32769, 65537}; if (thorough()) for (size_t n : {70001, 100003, 131073, 200000, 262145, 524289}) N.push_back(n);
    // shares of the ranks in the list length; -k: exactly k rows
    vector<vector<double>> pat{{1}, {1, 0}, {0, 1}, {1, -1}, {-1, 1}, {1, 1}, {0.5, 0.5, 0}, {0, 1, -3}, {0.3, 0, 0.7, -1}, {1, -2, 0, 1}};
    struct J { Job x; string s; }; vector<J> t;
    for (size_t n : N) for (size_t p = 0; p < pat.size(); ++p) for (int ord = 0; ord < 4; ++ord) {
      J q; size_t seed = n*7 + p*3 + ord, k = 0; q.x.c = ord & 1 ? cfg(3, 2, true, 3) : cfg(4, 1, false, ord ? 0 : 4); q.x.junk = rows ? seed % 36 : 0; q.x.eager = p % 2;
      for (double f : pat[p]) { size_t m = f < 0 ? -f : f*n; vector<int> l; for (size_t i = 0; i < m; ++i, ++k) l.push_back(ord == 0 ? (k*29) % 72 : ord == 1 ? k*72/(2*n + 1) % 72 : ord == 2 ? fix::hash(seed + k) % 72 : (k % 100 == 99 ? 5 : 7)); q.x.l.push_back(l); }
      static const char *O[] = {"interleaved", "slowly moving", "scattered", "two directions"}; q.s = ::str(q.x.c) + " " + O[ord] + " rows, per rank"; for (auto &l : q.x.l) q.s += strf(" %zu", l.size()); if (rows) q.s += strf(", previous contents %d", q.x.junk); t.push_back(q); }
    std::stable_sort(t.begin(), t.end(), [](const J &a, const J &b) { return std::make_tuple(a.x.l.size(), a.x.eager) < std::make_tuple(b.x.l.size(), b.x.eager); });
    for (auto &q : t) { j.push_back(q.x); names.push_back(q.s); } reference();
  }
  string describe(size_t i) override { return names[i]; }
  void body(size_t i, int rank, MPI_Comm comm, Out &o) override {
    auto &x = j[i]; auto s = sys(x.c); auto &dirs = dirset(x.c.lmax); auto &a = alone[ckey(x.c)]; vector<Dir> d; for (int k : x.l[rank]) d.push_back(dirs[k]); long idx = 0; for (int r = 0; r < rank; ++r) idx += x.l[r].size();
    conviqt::pointing p; load(p, d, JUNK[x.junk % 6], JUNK[(x.junk + x.junk/6) % 6]); conviqt::convolver cv(&s->s, &s->b, &s->d, x.c.pol, x.c.lmax, x.c.mmax, x.c.order, 0, comm); int rc = cv.convolve(p, false);
    if (rc) { o.note = strf("return code %d", rc); return; } if (p.size() != 5*d.size()) { o.note = strf("%zu doubles supplied, %zu came back", 5*d.size(), (size_t)p.size()); return; }
    auto ref = refconv(x.c); vector<double> tol; for (auto &q : dirs) tol.push_back(tolerance(*ref, x.c.order, q)); double sum = 0;
    for (size_t k = 0; k < d.size(); ++k) { const Dir &q = d[k]; const double *v = &p[5*k]; sum += v[3];
      if (rows) { if (!same(v[0], q.phi) || !same(v[1], q.theta) || !same(v[2], q.psi)) { o.note = strf("row %zu was ", k) + fix::str(q) + " and is " + fix::str({v[0], v[1], v[2]}); return; } if (v[4] != idx + k) { o.note = strf("row %zu: running index %zu expected, got %.17g", k, (size_t)idx + k, v[4]); return; } }
      if (!close(v[3], a[x.l[rank][k]], tol[x.l[rank][k]])) { o.note = strf("row %zu %s: signal %.17g, alone on one rank %.17g", k, fix::str(q).c_str(), v[3], a[x.l[rank][k]]); return; } }
    o.put(d.size()); o.put(sum); }
  string check(size_t, const vector<Out> &o) override { for (size_t r = 0; r < o.size(); ++r) if (o[r].note.size()) return strf("rank %zu: ", r) + o[r].note; return ""; }
};
// rows: every pair of previous contents, repeated rows and ties
struct RowSuite : ConvJobs {
  RowSuite() : ConvJobs(true) {}
  void prepare() override {
    for (int n = 1; n <= 4; ++n) for (int junk = 0; junk < 36; ++junk) {
      for (auto rws : vector<vector<int>>{{2,6,2,6,2}, {1,1,7,1}, {3,4,3,4,0}, {5}, {0,1,2,3,4,5,6,7,8,9,10,11,0,1,2,3,4,5,6,7,8,9,10,11}})
        { size_t q = 0; splits(rws, n, [&](const Lists &l) { if (rws.size() > 10 && n > 2 && ++q % (n == 3 ? 40 : 400)) return; Job x; x.c = cfg(2, 1, junk & 1, 1); x.l = l; x.junk = junk; j.push_back(x); }); }
    }
    group(); reference();
  }
};

// ---- P03: collective operations ---------------------------------------------------------------
struct CollSuite : ConvJobs {
  CollSuite() : ConvJobs(false) {}
  string fs, fb;
  void prepare() override {
    bool T = thorough(); int nmax = 4;
    Cfg c0 = cfg(2, 1, false, 1), c1 = cfg(3, 2, true, 3);
    fs = tmpfile(strf("coll_s_%d", getpid())); fb = tmpfile(strf("coll_b_%d", getpid()));
    fitsgen::write(fs, tables(dense(3, 4, 4, true))); fitsgen::write(fb, tables(dense(4, 4, 3, true)));
    for (int n = 1; n <= nmax; ++n) {
      vector<vector<int>> perms; vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; do perms.push_back(p); while (std::next_permutation(p.begin(), p.end()));
      // every non-empty/empty pattern, hemisphere and split of up to 3 rows x every schedule
      for (int N = 0; N <= 3; ++N) all_lists(4, N, n, [&](const Lists &l) { size_t h = 0; for (auto &r : l) for (int k : r) h = h*5 + k; for (size_t q = 0; q < perms.size(); ++q) { if (N == 3 && !T && (h + q) % perms.size()) continue; Job x; x.c = (h + N) & 1 ? c0 : c1; x.l = l; x.prio = perms[q]; x.comm = (h + q) % 4; x.verbosity = 0; j.push_back(x); } });
      // verbosity, communicators, message protocols
      for (int v : {0, 1, 2, 5, 6}) for (int comm = 0; comm < 4; ++comm) for (int eager = 0; eager < 2; ++eager) for (auto rws : vector<vector<int>>{{}, {1}, {3, 4}, {0, 1, 2}, {4, 4, 4, 5, 2}})
        splits(rws, n, [&](const Lists &l) { size_t q = 0; for (auto &r : l) q = q*7 + r.size(); Job x; x.c = q & 1 ? c0 : c1; x.l = l; x.verbosity = v; x.comm = comm; x.eager = eager; x.prio = perms[(q + v + comm) % perms.size()]; j.push_back(x); });
    }
    group(); reference();
  }
  // comm 0: the world; 1: a duplicate; 2: a subset while the last rank stays outside; 3: two halves convolving at the same time
  void body(size_t i, int rank, MPI_Comm world, Out &o) override {
    auto &x = j[i]; int n = x.l.size(); MPI_Comm comm = world; int color = 0;
    if (x.comm == 1) MPI_Comm_dup(world, &comm); else if (x.comm >= 2) { color = x.comm == 2 ? (rank == n - 1 && n > 1) : rank % 2; MPI_Comm_split(world, color, -rank, &comm); }
    if (!(x.comm == 2 && color)) {
      conviqt::sky s; conviqt::beam b; conviqt::detector d; d.set_epsilon(0.25);
      s.read(x.c.lsky, x.c.pol, fs, 0, comm); b.read(x.c.lbeam, x.c.mbeam, x.c.pol, fb, comm); b.normalize();
      conviqt::pointing p; vector<Dir> dd; auto &dirs = dirset(x.c.lmax); for (int k : x.l[rank]) dd.push_back(dirs[k]); load(p, dd);
      conviqt::convolver cv(&s, &b, &d, x.c.pol, x.c.lmax, x.c.mmax, x.c.order, x.verbosity, comm);
      int r1 = cv.convolve(p, true); double q = 0; for (size_t k = 0; k < p.size()/5; ++k) q += p[5*k+3]; int r2 = cv.convolve(p, false); o.put(r1 + r2); o.put(q); o.put(p.size());
    }
    if (comm != world) MPI_Comm_free(&comm);
  }
  string check(size_t i, const vector<Out> &o) override {
    auto &x = j[i]; for (size_t r = 0; r < o.size(); ++r) if (o[r].d.size()) { if (o[r].d[0] != 0) return strf("rank %zu: convolve returned an error", r); if (o[r].d[2] != 5*x.l[r].size()) return strf("rank %zu supplied %zu rows and got %g doubles", r, x.l[r].size(), o[r].d[2]); if (!std::isfinite(o[r].d[1])) return strf("rank %zu: signal is not finite", r); }
    return "";
  }
  bool nontrivial(size_t i) override { return j[i].l.size() > 1; }
};
int main(int argc, char **argv) {
  setenv("OMP_NUM_THREADS", "1", 0);
  Registry reg;
  reg["value"] = [] { return new ValueSuite; }; reg["basis"] = [] { return new BasisSuite; };
  reg["dist"] = [] { return new DistSuite(false); }; reg["distrows"] = [] { return new DistSuite(true); }; reg["long"] = [] { return new LongSuite(false); }; reg["longrows"] = [] { return new LongSuite(true); }; reg["coll"] = [] { return new CollSuite; }; reg["rows"] = [] { return new RowSuite; };
  return main_(argc, argv, reg);
}
