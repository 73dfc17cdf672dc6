// Snapshot input and output (mpisph/io.h) over an in-memory HDF5 model.
#include "h5mem.h"
#include "user.h"
#include "params.h"
#include "default_physics.h"
#include "io.h"
static const int D = gdimension;
#ifndef NB
#define NB 2
#endif
#ifndef NR
#define NR 2
#endif
enum { MAXP = NR * NB };
static point_t vec(const char * n) {
  point_t p;
  for(int i = 0; i < D; ++i) p[i] = v_real(n);
  return p;
}
struct out_t { // what the readers found
  int64_t total[4], local[4];
  double time[4], dt[4];
  body b[4][MAXP];
};
static body in[2][MAXP];
static double time_of[2], dt_of[2];
static int64_t iter_of[2];
static int wranks, rranks, count[2][4], steps, start_at, total;
static bool separate, no_id;
static const char *in_prefix, *out_prefix;
static out_t * out;
static void fill(body & b, int id) {
  b.set_coordinates(vec("x"));
  b.setVelocity(vec("v"));
  b.setAcceleration(vec("a"));
  b.setGAcceleration(vec("ga"));
  b.setGradV(v_real("gradv"));
  b.set_mass(v_real("m"));
  b.set_radius(v_real("h"));
  b.setDensity(v_real("rho"));
  b.setPressure(v_real("P"));
  b.setInternalenergy(v_real("u"));
  b.setDt(v_real("dt"));
  b.setTraceSS(v_real("tr"));
  b.setAlpha(v_real("alpha"));
  b.setDivergenceV(v_real("div"));
  b.setDdivvdt(v_real("ddiv"));
  b.setTrigger(v_real("trig"));
  b.setXi(v_real("xi"));
  b.set_id(v_i64("id"));
  b.setType(particle_type_t(v_u8("type") & 1));
  b.set_state(state_t(v_u8("state") & 3));
  b.setNeighbors(id);
}
static void writer(int r, void *) {
  for(int s = 0; s < steps; ++s) {
    int at = 0;
    for(int k = 0; k < r; ++k) at += count[s][k];
    std::vector<body> v(in[s] + at, in[s] + at + count[s][r]);
    physics::totaltime = time_of[s];
    physics::dt = dt_of[s];
    io::outputDataHDF5(v, in_prefix, iter_of[s], time_of[s]);
  }
}
static void reader(int r, void *) {
  std::vector<body> v;
  int64_t total = -1, local = -1;
  io::inputDataHDF5(v, in_prefix, out_prefix, total, local, start_at);
  out->total[r] = total;
  out->local[r] = local;
  v_check((int64_t)v.size() == local, "the number reported is the number read");
  out->time[r] = physics::totaltime;
  out->dt[r] = physics::dt;
  for(int64_t i = 0; i < local; ++i) out->b[r][i] = v[i];
}
static void setup(int nsteps) {
  steps = nsteps;
  h5mem::disk = (h5mem::disk_t *)v_shared(sizeof(h5mem::disk_t));
  out = (out_t *)v_shared(sizeof(out_t));
  for(int s = 0; s < steps; ++s) {
    total = 0;
    for(int r = 0; r < wranks; ++r) {
      count[s][r] = v_pick("count", 0, NB);
      total += count[s][r];
    }
    v_assume(total > 0);
    for(int i = 0; i < total; ++i) fill(in[s][i], i);
    time_of[s] = v_real("time");
    dt_of[s] = v_real("dtglob");
    iter_of[s] = 10 * s;
  }
}
static void same_point(const point_t & a, const point_t & b, const char * l) {
  for(int d = 0; d < D; ++d) v_check_eq(a[d], b[d], l);
}
static void compare(int s) {
  int n = 0, total = 0;
  for(int r = 0; r < wranks; ++r) total += count[s][r];
  for(int r = 0; r < rranks; ++r) {
    v_check(out->total[r] == total, "every rank knows the total number of particles");
    v_check(out->local[r] == total / rranks || out->local[r] == total / rranks + 1, "the particles are spread evenly");
    for(int i = 0; i < out->local[r]; ++i, ++n) {
      body &a = out->b[r][i], &b = in[s][n];
      same_point(a.coordinates(), b.coordinates(), "position");
      same_point(a.getVelocity(), b.getVelocity(), "velocity");
      v_check_eq(a.mass(), b.mass(), "mass");
      v_check_eq(a.radius(), b.radius(), "smoothing length");
      v_check_eq(a.getDensity(), b.getDensity(), "density");
      v_check_eq(a.getPressure(), b.getPressure(), "pressure");
      v_check_eq(a.getInternalenergy(), b.getInternalenergy(), "internal energy");
      v_check_eq(a.getDt(), b.getDt(), "time step of the particle");
      v_check(a.id() == b.id(), "identity");
      v_check(a.getType() == b.getType(), "type");
      v_check(a.state() == b.state(), "state");
    }
  }
  v_check(n == total, "every particle is read exactly once");
}
ENTRY(roundtrip) { // one file, one step, any number of writers and readers
  wranks = v_pick("writers", 1, NR);
  rranks = v_pick("readers", 1, NR);
  in_prefix = "sim";
  out_prefix = "out";
  setup(1);
  start_at = 0;
  v_ranks(wranks, writer, nullptr);
  v_ranks(rranks, reader, nullptr);
  compare(0);
  v_reach("end");
}

// ------------------------------------------------- identities, names, restarts
static void no_ids(int r, void *) {
  for(int i = 0; i < h5mem::NDSET; ++i) {
    h5mem::dset_t & d = h5mem::disk->file[0].group[0].dset[i];
    if(h5mem::same(d.name, "id")) d.name[0] = '?';
  }
}
ENTRY(make_ids) { // a file without identities
  wranks = 1;
  rranks = v_pick("readers", 1, NR);
  in_prefix = "sim";
  out_prefix = "out";
  steps = 1;
  h5mem::disk = (h5mem::disk_t *)v_shared(sizeof(h5mem::disk_t));
  out = (out_t *)v_shared(sizeof(out_t));
  count[0][0] = total = v_pick("particles", 1, MAXP);
  for(int i = 0; i < total; ++i) fill(in[0][i], i);
  start_at = 0;
  v_ranks(wranks, writer, nullptr);
  no_ids(0, nullptr);
  v_ranks(rranks, reader, nullptr);
  bool seen[MAXP + 1] = {};
  for(int r = 0; r < rranks; ++r)
    for(int i = 0; i < out->local[r]; ++i) {
      int64_t id = out->b[r][i].id();
      bool ok = id >= 1 && id <= total && !seen[id];
      v_check(ok, "generated identities are 1..N, each once");
      if(ok) seen[id] = true;
    }
  v_reach("end");
}
// a file name from the digits of a number
static void snapshot_name(char * d, const char * prefix, int n) {
  while(*prefix) *d++ = *prefix++;
  *d++ = '_';
  for(int k = 10000; k; k /= 10) *d++ = '0' + n / k % 10;
  for(const char * e = ".h5part"; *e; ++e) *d++ = *e;
  *d = 0;
}
ENTRY(snapshot) { // any file name of up to NL characters, any short prefix
#ifndef NL
#define NL 16
#endif
  char name[NL + 1], prefix[4];
  int len = v_pick("length", 0, NL), pl = v_pick("prefix length", 0, 2);
  for(int i = 0; i < len; ++i) {
    name[i] = v_u8("name");
    v_assume(name[i] != 0 && name[i] != '/');
  }
  name[len] = 0;
  for(int i = 0; i < pl; ++i) {
    prefix[i] = v_u8("prefix");
    v_assume(prefix[i] != 0 && prefix[i] != '/');
  }
  prefix[pl] = 0;
  bool is = len == pl + 13;
  int n = 0;
  if(is) {
    for(int i = 0; i < pl; ++i) is &= name[i] == prefix[i];
    is &= name[pl] == '_';
    for(int i = 0; i < 5; ++i) {
      is &= (name[pl + 1 + i] >= '0') & (name[pl + 1 + i] <= '9');
      n = 10 * n + name[pl + 1 + i] - '0';
    }
    for(int i = 0; i < 7; ++i) is &= name[pl + 6 + i] == ".h5part"[i];
  }
  int got = io::H5P_isPrefixSnapshot(prefix, name);
  v_check(is ? got == n : got == -1, "snapshot number of <prefix>_NNNNN.h5part, otherwise -1");
  v_reach("end");
}
static void disk_file(int slot, const char * name, int step, int64_t iteration) {
  h5mem::file_t & f = h5mem::disk->file[slot];
  std::strcpy(f.name, name);
  f.exists = true;
  f.made.want = f.made.got = 1;
  char g[32];
  std::sprintf(g, "/Step#%lu", (unsigned long)step);
  std::strcpy(f.group[0].name, g);
  f.group[0].made = f.made;
  h5mem::attr_t & a = f.group[0].attr[0];
  std::strcpy(a.name, "iteration");
  a.made = f.made;
  a.type = H5T_NATIVE_LLONG;
  std::memcpy(a.data, &iteration, 8);
}
#ifndef NF
#define NF 2
#endif
static int num[3];
static int64_t itr[3];
static bool in_dir, odd;
static int *found_step, threshold;
static const char * prefix() { return in_dir ? "dir/sim" : "sim"; }
static void some_files() {
  in_dir = v_pick("directory", 0, 1);
  h5mem::disk = (h5mem::disk_t *)v_shared(sizeof(h5mem::disk_t));
  h5mem::first_entry = v_pick("first entry", 0, h5mem::NFILE - 1);
  int files = v_pick("files", 0, NF);
  char name[64];
  for(int i = 0; i < 3; ++i) num[i] = -1;
  for(int i = 0; i < files; ++i) {
    num[i] = v_pick("snapshot", 0, 3) + 8;
    for(int k = 0; k < i; ++k) v_assume(num[k] != num[i]);
    itr[i] = v_i64("iteration");
    snapshot_name(name, prefix(), num[i]);
    disk_file(i, name, num[i], itr[i]);
  }
  // a file of somebody else
  odd = v_pick("other file", 0, 1);
  if(odd) disk_file(3, in_dir ? "sim_00009.h5part" : "simx_00009.h5part", 9, v_i64("iteration"));
}
static int wanted;
static void finder(int r, void *) {
  found_step[r] = io::H5P_findIterationSnapshot(prefix(), wanted);
}
ENTRY(find_iteration) {
  some_files();
  wanted = v_i32("wanted");
  rranks = v_pick("ranks", 1, NR);
  found_step = (int *)v_shared(4 * sizeof(int));
  v_ranks(rranks, finder, nullptr);
  for(int r = 0; r < rranks; ++r) {
    bool any = false, ok = false;
    for(int i = 0; i < 3; ++i)
      if(num[i] >= 0) {
        any |= itr[i] == wanted;
        ok |= (itr[i] == wanted) & (found_step[r] == num[i]);
      }
    v_check(any ? ok : found_step[r] == -1, "the snapshot found holds the wanted iteration, -1 if there is none");
  }
  v_reach("end");
}
static void remover(int r, void *) {
  param::_out_h5data_separate_iterations = true;
  io::H5P_removePrefix(prefix(), threshold);
}
ENTRY(remove_prefix) {
  some_files();
  threshold = v_pick("threshold", 6, 11);
  if(threshold == 6) threshold = -1;
  rranks = v_pick("ranks", 1, NR);
  v_ranks(rranks, remover, nullptr);
  for(int i = 0; i < 3; ++i)
    if(num[i] >= 0) v_check(h5mem::disk->file[i].exists == (num[i] <= threshold), "later snapshots are removed, the others stay");
  if(odd) v_check(h5mem::disk->file[3].exists, "files of another prefix or directory stay");
  v_reach("end");
}
static body more[MAXP];
static int nmore;
static int64_t next_iter;
static void restart(int r, void *) {
  param::_out_h5data_separate_iterations = separate;
  param::_initial_iteration = start_at;
  reader(r, nullptr);
  // the run goes on: it writes the step it started from again, then the next
  std::vector<body> v(more, more + (r ? 0 : nmore));
  std::vector<body> old(out->b[r], out->b[r] + out->local[r]);
  if(next_iter < 0) return;
  io::outputDataHDF5(old, out_prefix, start_at, physics::totaltime);
  physics::totaltime = time_of[1];
  io::outputDataHDF5(v, out_prefix, next_iter, time_of[1]);
}
static void writer2(int r, void *) {
  param::_out_h5data_separate_iterations = separate;
  writer(r, nullptr);
}
static void after(int r, void *) {
  param::_out_h5data_separate_iterations = separate;
  param::_initial_iteration = start_at;
  in_prefix = out_prefix;
  out_prefix = "other";
  reader(r, nullptr);
}
ENTRY(read_iteration) { // two steps on disk, start from either
  wranks = v_pick("writers", 1, NR);
  rranks = v_pick("readers", 1, NR);
  separate = v_pick("separate", 0, 1);
  in_prefix = "sim";
  out_prefix = "out";
  setup(2);
  iter_of[0] = 7;
  iter_of[1] = 9;
  int s = v_pick("start", 0, 1);
  start_at = iter_of[s];
  next_iter = -1;
  v_ranks(wranks, writer2, nullptr);
  v_ranks(rranks, restart, nullptr);
  compare(s);
  for(int r = 0; r < rranks; ++r) {
    v_check_eq(out->time[r], time_of[s], "simulation time of the step");
    v_check_eq(out->dt[r], dt_of[s], "time step of the step");
  }
  v_reach("end");
}
ENTRY(continue_run) { // restart in place: the old step stays, the new one follows
  wranks = v_pick("writers", 1, NR);
  rranks = v_pick("readers", 1, NR);
  separate = v_pick("separate", 0, 1);
  in_prefix = "sim";
  out_prefix = "sim";
  setup(1);
  iter_of[0] = 7;
  start_at = 7;
  nmore = v_pick("more", 1, 2);
  for(int i = 0; i < nmore; ++i) fill(more[i], 50 + i);
  next_iter = 9;
  time_of[1] = v_real("time");
  v_ranks(wranks, writer2, nullptr);
  v_ranks(rranks, restart, nullptr);
  compare(0);
  // what is on disk now
  int s = v_pick("check", 0, 1);
  start_at = s ? 9 : 7;
  v_ranks(rranks, after, nullptr);
  if(s)
    for(int i = 0; i < nmore; ++i) in[1][i] = more[i];
  count[1][0] = nmore;
  for(int r = 1; r < wranks; ++r) count[1][r] = 0;
  compare(s);
  for(int r = 0; r < rranks; ++r) v_check_eq(out->time[r], time_of[s], "simulation time of the step");
  v_reach("end");
}
