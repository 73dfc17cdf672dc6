// Native replay runtime: inputs come from the file $VERIF_INPUT, MPI ranks are
// forked processes over a shared arena.
#include "verif.h"
#include "mpi.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <algorithm>

static std::map<std::string, std::string> inputs;
static std::map<std::string, int> count_;
static int my_rank = -1, n_ranks = 1;
static int failed = 0;

extern "C" void verif_load(const char * path) {
  FILE * f = fopen(path, "r");
  if(!f) return;
  char a[512], b[8], c[512];
  while(fscanf(f, "%511s %7s %511s", a, b, c) == 3)
    inputs[a] = c;
  fclose(f);
}
extern "C" int verif_failed() { return failed; }
static const char * look(const char * name) {
  std::string k = name;
  for(auto & c : k) if(c == ' ') c = '_';
  if(my_rank >= 0) k += "@" + std::to_string(my_rank);
  int n = count_[k]++;
  k += "#" + std::to_string(n);
  auto it = inputs.find(k);
  if(it == inputs.end()) return nullptr;
  return it->second.c_str();
}
static double getd(const char * n) { const char * s = look(n); return s ? strtod(s, 0) : 0.5; }
static uint64_t getu(const char * n, uint64_t d = 0) { const char * s = look(n); return s ? strtoull(s, 0, 10) : d; }
extern "C" {
double v_real(const char * n) { return getd(n); }
float v_float(const char * n) { return getd(n); }
double v_fix(const char * n, int, int) { return getd(n); }
uint64_t v_u64(const char * n) { return getu(n); }
uint32_t v_u32(const char * n) { return getu(n); }
uint16_t v_u16(const char * n) { return getu(n); }
uint8_t v_u8(const char * n) { return getu(n); }
int32_t v_i32(const char * n) { return (int32_t)getu(n); }
int64_t v_i64(const char * n) { return (int64_t)getu(n); }
bool v_bool(const char * n) { return getu(n); }
int64_t v_pick(const char * n, int64_t lo, int64_t hi) { (void)hi; return (int64_t)getu(n, lo); }
uint64_t v_conc(uint64_t x) { return x; }
void v_assume(bool b) {
  if(!b) { printf("ASSUME_FAIL\n"); fflush(stdout); _exit(failed ? 1 : 77); }
}
static void fail(const char * l) { failed = 1; printf("VCHECK_FAIL %s\n", l); fflush(stdout); }
void v_check(bool b, const char * l) { if(!b) fail(l); }
void v_check_eq(double a, double b, const char * l) {
  double d = std::fabs(a - b), m = std::max(std::fabs(a), std::fabs(b));
  if(!(d <= 1e-6 * m + 1e-7) && !(a == b)) { printf("  %.17g != %.17g\n", a, b); fail(l); }
}
void v_check_near(double a, double b, double t, const char * l) {
  double d = std::fabs(a - b);
  if(!(d <= t * (1 + 1e-6) + 1e-12) && !(a == b)) { printf("  |%.17g - %.17g| > %.17g\n", a, b, t); fail(l); }
}
void v_check_le(double a, double b, const char * l) {
  double m = std::max(std::fabs(a), std::fabs(b));
  if(!(a <= b + 1e-9 * m + 1e-300)) { printf("  %.17g > %.17g\n", a, b); fail(l); }
}
void v_reach(const char * l) { printf("REACH %s\n", l); fflush(stdout); }
bool v_isnan(double x) { return !std::isfinite(x); }
bool v_defined(const void *, size_t) { return true; }
bool v_symbolic(void) { return false; }

// ---- MPI ------------------------------------------------------------------
struct Msg { int src, dst, tag, n, taken; size_t off; };
struct Arena {
  pthread_mutex_t mu; pthread_cond_t cv;
  int nmsg; size_t top; int done; int failed; int deadlock;
  Msg msgs[200000];
  char data[256u << 20];
};
static Arena * A;
static int coll_seq;
void * v_shared(size_t n) {
  void * p = mmap(0, n ? n : 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(p, 0, n);
  return p;
}
void v_ranks(int n, void (*fn)(int, void *), void * arg) {
  A = (Arena *)mmap(0, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&A->mu, &ma);
  pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED);
  pthread_cond_init(&A->cv, &ca);
  fflush(stdout);
  n_ranks = n;
  std::vector<pid_t> pids;
  for(int r = 0; r < n; ++r) {
    pid_t p = fork();
    if(p == 0) {
      my_rank = r;
      alarm(20);
      fn(r, arg);
      fflush(stdout);
      _exit(failed ? 1 : 0);
    }
    pids.push_back(p);
  }
  for(auto p : pids) {
    int st = 0;
    waitpid(p, &st, 0);
    if(WIFSIGNALED(st)) { printf("RANK_SIGNAL %d\n", WTERMSIG(st)); failed = 1; for(auto q : pids) if(q != p) kill(q, SIGALRM); }
    else if(WEXITSTATUS(st) == 77) { for(auto q : pids) kill(q, SIGKILL); fflush(stdout); _exit(77); }
    else if(WEXITSTATUS(st)) { failed = 1; printf("RANK_EXIT %d\n", WEXITSTATUS(st)); }
  }
  fflush(stdout);
  munmap(A, sizeof(Arena));
  A = 0; n_ranks = 1; my_rank = -1;
}
static int me() { return my_rank < 0 ? 0 : my_rank; }
static int tsz(MPI_Datatype t) { static std::map<int,int> z; (void)z; return t & (1 << 30) ? t & 0xfffff : t & 255; }
static void post(int dst, int tag, const void * p, int n) {
  static Arena * self = 0;
  if(!A) { if(!self) { self = (Arena *)mmap(0, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pthread_mutex_init(&self->mu, 0); pthread_cond_init(&self->cv, 0);} A = self; }
  pthread_mutex_lock(&A->mu);
  Msg & m = A->msgs[A->nmsg];
  m.src = me(); m.dst = dst; m.tag = tag; m.n = n; m.taken = 0; m.off = A->top;
  if(n) memcpy(A->data + A->top, p, n);
  A->top += n; A->nmsg++;
  pthread_cond_broadcast(&A->cv);
  pthread_mutex_unlock(&A->mu);
}
static int fetch(int src, int tag, void * p, int cap, MPI_Status * st, bool take = true, bool wait = true) {
  pthread_mutex_lock(&A->mu);
  while(1) {
    for(int i = 0; i < A->nmsg; ++i) {
      Msg & m = A->msgs[i];
      if(m.taken || m.dst != me() || (src != -1 && m.src != src)) continue;
      if(tag == -2 ? m.tag < -900 : m.tag != tag) continue;
      if(take) {
        m.taken = 1;
        if(m.n > cap) { printf("MPI_TRUNCATE\n"); fflush(stdout); _exit(1); }
        if(m.n) memcpy(p, A->data + m.off, m.n);
      }
      if(st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->count_bytes = m.n; }
      int n = m.n;
      pthread_mutex_unlock(&A->mu);
      return n;
    }
    if(!wait) { pthread_mutex_unlock(&A->mu); return -1; }
    pthread_cond_wait(&A->cv, &A->mu);
  }
}
#define CT (-1000 - coll_seq)
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int, int *) { return 0; }
int MPI_Initialized(int * f) { *f = 1; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int) { abort(); }
int MPI_Comm_rank(MPI_Comm, int * r) { *r = me(); return 0; }
int MPI_Comm_size(MPI_Comm, int * n) { *n = n_ranks; return 0; }
extern "C++" {
static std::vector<std::vector<char>> xchg(const std::vector<std::pair<const void *, int>> & out) {
  ++coll_seq;
  for(int q = 0; q < n_ranks; ++q) post(q, CT, out[q].first, out[q].second);
  std::vector<std::vector<char>> in(n_ranks);
  for(int q = 0; q < n_ranks; ++q) {
    MPI_Status s;
    fetch(q, CT, 0, 0, &s, false);
    in[q].resize(s.count_bytes);
    fetch(q, CT, in[q].data(), s.count_bytes, 0);
  }
  return in;
}
static std::vector<std::vector<char>> allg(const void * p, int n) {
  return xchg(std::vector<std::pair<const void *, int>>(n_ranks, {p, n}));
}
}
int MPI_Barrier(MPI_Comm) { allg(0, 0); return 0; }
int MPI_Bcast(void * b, int c, MPI_Datatype t, int root, MPI_Comm) {
  auto in = allg(b, c * tsz(t));
  if(me() != root && c) memcpy(b, in[root].data(), c * tsz(t));
  return 0;
}
extern "C++" {
template<class T> static void red(std::vector<std::vector<char>> & in, int q0, int q1, void * r, int c, MPI_Op op) {
  if(q0 >= q1) return;
  for(int i = 0; i < c; ++i) {
    T v; memcpy(&v, in[q0].data() + i * sizeof(T), sizeof(T));
    for(int q = q0 + 1; q < q1; ++q) {
      T w; memcpy(&w, in[q].data() + i * sizeof(T), sizeof(T));
      switch(op) {
        case MPI_SUM: v = v + w; break;
        case MPI_PROD: v = v * w; break;
        case MPI_MIN: v = w < v ? w : v; break;
        case MPI_MAX: v = v < w ? w : v; break;
        case MPI_LAND: v = v && w; break;
        case MPI_LOR: v = v || w; break;
      }
    }
    memcpy((char *)r + i * sizeof(T), &v, sizeof(T));
  }
}
}
static void redt(std::vector<std::vector<char>> & in, int q0, int q1, void * r, int c, MPI_Datatype t, MPI_Op op) {
  switch(t) {
    case MPI_DOUBLE: red<double>(in, q0, q1, r, c, op); break;
    case MPI_FLOAT: red<float>(in, q0, q1, r, c, op); break;
    case MPI_INT: red<int32_t>(in, q0, q1, r, c, op); break;
    case MPI_UNSIGNED: red<uint32_t>(in, q0, q1, r, c, op); break;
    case MPI_INT64_T: red<int64_t>(in, q0, q1, r, c, op); break;
    case MPI_UINT64_T: red<uint64_t>(in, q0, q1, r, c, op); break;
    case MPI_CHAR: red<int8_t>(in, q0, q1, r, c, op); break;
    case MPI_UNSIGNED_CHAR: red<uint8_t>(in, q0, q1, r, c, op); break;
    case MPI_SHORT: red<int16_t>(in, q0, q1, r, c, op); break;
    case MPI_UNSIGNED_SHORT: red<uint16_t>(in, q0, q1, r, c, op); break;
    default: abort();
  }
}
int MPI_Allreduce(const void * s, void * r, int c, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  auto in = allg(s == MPI_IN_PLACE ? r : s, c * tsz(t));
  redt(in, 0, n_ranks, r, c, t, op);
  return 0;
}
int MPI_Reduce(const void * s, void * r, int c, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
  auto in = allg(s == MPI_IN_PLACE ? r : s, c * tsz(t));
  if(me() == root) redt(in, 0, n_ranks, r, c, t, op);
  return 0;
}
int MPI_Scan(const void * s, void * r, int c, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  auto in = allg(s == MPI_IN_PLACE ? r : s, c * tsz(t));
  redt(in, 0, me() + 1, r, c, t, op);
  return 0;
}
int MPI_Exscan(const void * s, void * r, int c, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  auto in = allg(s == MPI_IN_PLACE ? r : s, c * tsz(t));
  redt(in, 0, me(), r, c, t, op);
  return 0;
}
static void place(void * r, size_t off, const std::vector<char> & v, int expect) {
  if((int)v.size() != expect) { printf("MPI_COUNT_MISMATCH %d %d\n", (int)v.size(), expect); fflush(stdout); _exit(1); }
  if(expect) memcpy((char *)r + off, v.data(), expect);
}
int MPI_Allgather(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, MPI_Comm) {
  int n = rc * tsz(rt);
  auto in = s == MPI_IN_PLACE ? allg((char *)r + me() * n, n) : allg(s, sc * tsz(st));
  for(int q = 0; q < n_ranks; ++q) place(r, (size_t)q * n, in[q], n);
  return 0;
}
int MPI_Allgatherv(const void * s, int sc, MPI_Datatype st, void * r, const int * rc, const int * d, MPI_Datatype rt, MPI_Comm) {
  int z = tsz(rt);
  auto in = s == MPI_IN_PLACE ? allg((char *)r + d[me()] * z, rc[me()] * z) : allg(s, sc * tsz(st));
  for(int q = 0; q < n_ranks; ++q) place(r, (size_t)d[q] * z, in[q], rc[q] * z);
  return 0;
}
int MPI_Gather(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, int root, MPI_Comm) {
  auto in = allg(s, sc * tsz(st));
  if(me() == root) for(int q = 0; q < n_ranks; ++q) place(r, (size_t)q * rc * tsz(rt), in[q], rc * tsz(rt));
  return 0;
}
int MPI_Gatherv(const void * s, int sc, MPI_Datatype st, void * r, const int * rc, const int * d, MPI_Datatype rt, int root, MPI_Comm) {
  auto in = allg(s, sc * tsz(st));
  if(me() == root) for(int q = 0; q < n_ranks; ++q) place(r, (size_t)d[q] * tsz(rt), in[q], rc[q] * tsz(rt));
  return 0;
}
int MPI_Alltoall(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, MPI_Comm) {
  int n = sc * tsz(st);
  std::vector<std::pair<const void *, int>> o;
  for(int q = 0; q < n_ranks; ++q) o.push_back({(const char *)s + (size_t)q * n, n});
  auto in = xchg(o);
  for(int q = 0; q < n_ranks; ++q) place(r, (size_t)q * rc * tsz(rt), in[q], rc * tsz(rt));
  return 0;
}
int MPI_Alltoallv(const void * s, const int * sc, const int * sd, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, MPI_Comm) {
  std::vector<std::pair<const void *, int>> o;
  for(int q = 0; q < n_ranks; ++q) o.push_back({(const char *)s + (long)sd[q] * tsz(st), sc[q] * tsz(st)});
  auto in = xchg(o);
  for(int q = 0; q < n_ranks; ++q) place(r, (long)rd[q] * tsz(rt), in[q], rc[q] * tsz(rt));
  return 0;
}
int MPI_Send(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm) { post(d, tag, b, c * tsz(t)); return 0; }
int MPI_Ssend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm) { post(d, tag, b, c * tsz(t)); return 0; }
int MPI_Isend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r) { post(d, tag, b, c * tsz(t)); *r = 0; return 0; }
int MPI_Issend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r) { post(d, tag, b, c * tsz(t)); *r = 0; return 0; }
int MPI_Recv(void * b, int c, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status * st) { fetch(s, tag, b, c * tsz(t), st); return 0; }
struct Req { void * b; int cap, src, tag; bool done; };
static std::vector<Req> reqs;
int MPI_Irecv(void * b, int c, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request * r) {
  reqs.push_back({b, c * tsz(t), s, tag, false}); *r = reqs.size(); return 0;
}
int MPI_Wait(MPI_Request * r, MPI_Status * st) {
  if(*r < 0 || *r > (int)reqs.size()) { printf("MPI_BAD_REQUEST\n"); fflush(stdout); _exit(1); }
  if(*r) { Req & q = reqs[*r - 1]; if(!q.done) { fetch(q.src, q.tag, q.b, q.cap, st); q.done = true; } *r = 0; }
  return 0;
}
int MPI_Waitall(int n, MPI_Request * r, MPI_Status * st) { for(int i = 0; i < n; ++i) MPI_Wait(r + i, st ? st + i : 0); return 0; }
int MPI_Test(MPI_Request * r, int * f, MPI_Status * st) { MPI_Wait(r, st); *f = 1; return 0; }
int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status * st) { fetch(s, tag, 0, 0, st, false); return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm, int * f, MPI_Status * st) {
  if(const char * c = look("iprobe")) { // the recorded schedule says whether the message is already visible
    *f = strtol(c, 0, 10);
    static bool off = false; // several senders may be served in another order than the recorded one
    for(int i = 0; *f && !off; ++i) {
      if(fetch(s, tag, 0, 0, st, false, false) >= 0) return 0;
      off = i == 400;
      usleep(1000);
    }
    if(!*f && !off) return 0;
  }
  *f = A && fetch(s, tag, 0, 0, st, false, false) >= 0; return 0; }
int MPI_Get_count(const MPI_Status * s, MPI_Datatype t, int * c) { *c = s->count_bytes / tsz(t); return 0; }
int MPI_Sendrecv(const void * sb, int sc, MPI_Datatype st, int d, int stag, void * rb, int rc, MPI_Datatype rt, int s, int rtag, MPI_Comm, MPI_Status * stt) {
  post(d, stag, sb, sc * tsz(st));
  fetch(s, rtag, rb, rc * tsz(rt), stt);
  return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype * o) { *o = (1 << 30) | (n * tsz(t)); return 0; }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *) { return 0; }
int MPI_Type_size(MPI_Datatype t, int * s) { *s = tsz(t); return 0; }
double MPI_Wtime(void) { return 0; }
}
