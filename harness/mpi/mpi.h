// A stand-in for MPI on one machine: every rank is a process of its own (rank and
// size from the environment), collectives exchange files in STUB_MPI_DIR.
// Every rank appends its calls to STUB_MPI_DIR/log.<rank>.
#ifndef STUB_MPI_H
#define STUB_MPI_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <chrono>
#include <unistd.h>
#include <sys/stat.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Info;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR, n; };
#define MPI_COMM_WORLD 0
#define MPI_SUCCESS 0
#define MPI_INT 4
#define MPI_DOUBLE 8
#define MPI_LONG 18
#define MPI_FLOAT 14
#define MPI_CHAR 1
#define MPI_UNSIGNED 24
#define MPI_LONG_LONG 28
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_ANY_SOURCE -1
namespace stubmpi {
inline int rank() { const char *s = getenv("STUB_MPI_RANK"); return s ? atoi(s) : 0; }
inline int size() { const char *s = getenv("STUB_MPI_SIZE"); return s ? atoi(s) : 1; }
inline std::string dir() { const char *s = getenv("STUB_MPI_DIR"); return s ? s : "."; }
inline int &step() { static int k = 0; return k; }
inline void log(const char *w) {
  FILE *f = fopen((dir() + "/log." + std::to_string(rank())).c_str(), "a");
  if (f) { fprintf(f, "%s\n", w); fclose(f); }
}
inline size_t width(MPI_Datatype t) {
  switch (t) { case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4; case MPI_CHAR: return 1; default: return 8; }
}
inline std::string name(int k, int r) { return dir() + "/c." + std::to_string(k) + "." + std::to_string(r); }
inline void die(const char *w) { fprintf(stderr, "stub MPI: %s\n", w); log("die"); _exit(77); }
// what: kind of collective, must agree between the ranks
inline void put(int k, int what, int count, MPI_Datatype t, const void *b) {
  std::string tmp = name(k, rank()) + ".tmp";
  FILE *f = fopen(tmp.c_str(), "wb");
  if (!f) die("cannot write");
  int h[3] = {what, count, t};
  fwrite(h, sizeof h, 1, f);
  if (count) fwrite(b, width(t), count, f);
  fclose(f);
  rename(tmp.c_str(), name(k, rank()).c_str());
}
inline void get(int k, int r, int what, int count, MPI_Datatype t, void *b) {
  FILE *f = fopen(name(k, r).c_str(), "rb");
  bool waited = false;
  for (int i = 0; !f; i++) {
    if (!waited) { log("wait"); waited = true; }
    if (i > 60000) die("a rank does not take part in a collective");
    usleep(1000);
    f = fopen(name(k, r).c_str(), "rb");
  }
  int h[3];
  if (fread(h, sizeof h, 1, f) != 1) die("short");
  if (h[0] != what || h[1] != count || h[2] != t) die("collectives of the ranks do not match");
  if (count && fread(b, width(t), count, f) != (size_t)count) die("short");
  fclose(f);
}
template <class T> inline void fold(T *a, const T *b, int n, MPI_Op op) {
  for (int i = 0; i < n; i++) { if (op == MPI_SUM) a[i] += b[i]; else if (op == MPI_MAX) a[i] = a[i] > b[i] ? a[i] : b[i]; else a[i] = a[i] < b[i] ? a[i] : b[i]; }
}
inline void reduceinto(int k, int what, const void *in, void *res, int count, MPI_Datatype t, MPI_Op op) {
  std::vector<char> a(width(t) * count), b(width(t) * count);
  for (int r = 0; r < size(); r++) {
    char *dst = r ? b.data() : a.data();
    get(k, r, what, count, t, dst);
    if (r) switch (t) {
      case MPI_INT: fold((int *)a.data(), (int *)b.data(), count, op); break;
      case MPI_UNSIGNED: fold((unsigned *)a.data(), (unsigned *)b.data(), count, op); break;
      case MPI_FLOAT: fold((float *)a.data(), (float *)b.data(), count, op); break;
      case MPI_DOUBLE: fold((double *)a.data(), (double *)b.data(), count, op); break;
      default: fold((long *)a.data(), (long *)b.data(), count, op);
    }
  }
  memcpy(res, a.data(), a.size());
  (void)in;
}
}
inline int MPI_Init(int *, char ***) { stubmpi::log("init"); return 0; }
inline int MPI_Initialized(int *f) { *f = 1; return 0; }
inline int MPI_Finalize() { stubmpi::log("finalize"); return 0; }
inline int MPI_Abort(MPI_Comm, int c) { stubmpi::log("abort"); exit(c ? c : 1); }
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = stubmpi::rank(); return 0; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = stubmpi::size(); return 0; }
inline double MPI_Wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
  int k = stubmpi::step()++, what = 100 + 10 * op + 1000 * root;
  std::vector<char> mine(stubmpi::width(t) * n);
  memcpy(mine.data(), s == MPI_IN_PLACE ? r : s, mine.size());
  stubmpi::put(k, what, n, t, mine.data());
  stubmpi::log("reduce");
  if (stubmpi::rank() == root) stubmpi::reduceinto(k, what, s, r, n, t, op);
  return 0;
}
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  int k = stubmpi::step()++, what = 7 + 10 * op;
  std::vector<char> mine(stubmpi::width(t) * n);
  memcpy(mine.data(), s == MPI_IN_PLACE ? r : s, mine.size());
  stubmpi::put(k, what, n, t, mine.data());
  stubmpi::log("allreduce");
  stubmpi::reduceinto(k, what, s, r, n, t, op);
  return 0;
}
inline int MPI_Barrier(MPI_Comm) {
  int k = stubmpi::step()++;
  stubmpi::put(k, 5, 0, MPI_INT, 0);
  for (int r = 0; r < stubmpi::size(); r++) stubmpi::get(k, r, 5, 0, MPI_INT, 0);
  return 0;
}
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm) {
  int k = stubmpi::step()++;
  if (stubmpi::rank() == root) stubmpi::put(k, 6, n, t, b); else stubmpi::get(k, root, 6, n, t, b);
  return 0;
}
inline int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype, int root, MPI_Comm) {
  int k = stubmpi::step()++;
  stubmpi::put(k, 8, n, t, s);
  if (stubmpi::rank() == root) for (int q = 0; q < stubmpi::size(); q++) stubmpi::get(k, q, 8, n, t, (char *)r + q * n * stubmpi::width(t));
  return 0;
}
#endif
