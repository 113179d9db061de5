// Suites whose body is a function that returns an error text; run on rank 0 only.
#ifndef PURE_HPP
#define PURE_HPP
#include "vf.hpp"
#include "ls_error_handling.h"
namespace vf {
struct Pure : Suite {
  virtual string run(size_t i, Out &o) = 0;
  void body(size_t i, int rank, MPI_Comm, Out &o) override { if (rank == 0 || nranks(i) == 1) { try { o.note = run(i, o); } catch (std::exception &e) { o.note = string("unexpected exception: ") + e.what(); } catch (levels::LEVELSError &e) { o.note = string("unexpected error: ") + e.what(); } } }
  string check(size_t, const vector<Out> &o) override { return o[0].note; }
};
}
#endif
