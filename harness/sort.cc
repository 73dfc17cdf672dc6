// Distributed sort (mpisph/psort.h).
#include "verif.h"
#include <mpi.h>
#include <algorithm>
#include <cassert>
#include <climits>
#include <cstdint>
#include <iterator>
#include <numeric>
#include <stdexcept>
#include <vector>
#include "psort.h"
#ifndef NB
#define NB 3
#endif
struct item {
  uint32_t key;
  int32_t id;
};
struct shared_t {
  int64_t n[4];
  int64_t key[4][4 * NB], id[4][4 * NB];
};
static item in[4 * NB];
static int ranks, count[4];
static void rank_main(int r, void * a) {
  shared_t * sh = (shared_t *)a;
  int at = 0, dist[4];
  for(int k = 0; k < r; ++k) at += count[k];
  for(int k = 0; k < ranks; ++k) dist[k] = count[k];
  std::vector<item> v(in + at, in + at + count[r]);
  psort::psort(v,
    [](auto & l, auto & r) {
      if(l.key < r.key) return true;
      if(l.key == r.key) return l.id < r.id;
      return false;
    },
    dist);
  v_check((int)v.size() == count[r], "every rank keeps its number of particles");
  sh->n[r] = v.size();
  for(size_t i = 0; i < v.size(); ++i) {
    sh->key[r][i] = v[i].key;
    sh->id[r][i] = v[i].id;
  }
  for(int k = 0; k < ranks; ++k) v_check(dist[k] == count[k], "the given distribution is not changed");
  MPI_Barrier(MPI_COMM_WORLD);
  if(r) return;
  int n = 0, total = 0;
  int64_t lk = -1, li = -1;
  bool seen[4 * NB] = {};
  for(int k = 0; k < ranks; ++k) total += count[k];
  for(int k = 0; k < ranks; ++k)
    for(int i = 0; i < sh->n[k]; ++i, ++n) {
      int64_t key = sh->key[k][i], id = sh->id[k][i];
      v_check((lk < key) | ((lk == key) & (li < id)), "sorted within and across the ranks");
      lk = key;
      li = id;
      bool ok = false;
      for(int j = 0; j < total; ++j)
        if(id == in[j].id && !seen[j]) {
          seen[j] = true;
          ok = true;
          v_check(key == in[j].key, "particles keep their data");
          break;
        }
      v_check(ok, "no particle is invented or doubled");
    }
  v_check(n == total, "no particle is lost");
  v_reach("sorted");
}
// particles that the order does not tell apart
static void ties_main(int r, void * a) {
  shared_t * sh = (shared_t *)a;
  int at = 0, dist[4];
  for(int k = 0; k < r; ++k) at += count[k];
  for(int k = 0; k < ranks; ++k) dist[k] = count[k];
  std::vector<item> v(in + at, in + at + count[r]);
  psort::psort(v, [](auto & l, auto & r) { return l.key < r.key; }, dist);
  v_check((int)v.size() == count[r], "every rank keeps its number of particles");
  sh->n[r] = v.size();
  for(size_t i = 0; i < v.size(); ++i) {
    sh->key[r][i] = v[i].key;
    sh->id[r][i] = v[i].id;
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if(r) return;
  int n = 0, total = 0;
  int64_t lk = -1;
  bool seen[4 * NB] = {};
  for(int k = 0; k < ranks; ++k) total += count[k];
  for(int k = 0; k < ranks; ++k)
    for(int i = 0; i < sh->n[k]; ++i, ++n) {
      v_check(lk <= sh->key[k][i], "sorted within and across the ranks");
      lk = sh->key[k][i];
      bool ok = false;
      for(int j = 0; j < total; ++j)
        if(sh->id[k][i] == in[j].id && !seen[j]) {
          seen[j] = true;
          ok = true;
          v_check(lk == in[j].key, "particles keep their data");
          break;
        }
      v_check(ok, "no particle is invented or doubled");
    }
  v_check(n == total, "no particle is lost");
  v_reach("sorted");
}
ENTRY(ties) {
  ranks = v_pick("ranks", 2, 4);
  int n = 0, c = v_pick("count", 1, NB), k = v_pick("keys", 2, 3);
  for(int r = 0; r < ranks; ++r) {
    count[r] = c;
    for(int i = 0; i < c; ++i, ++n) {
      in[n].key = v_u8("key");
      v_assume(in[n].key < k);
      in[n].id = 100 - n;
    }
  }
  v_ranks(ranks, ties_main, v_shared(sizeof(shared_t)));
  v_reach("end");
}
ENTRY(sorts) {
  ranks = v_pick("ranks", 1, 4);
  int n = 0;
  for(int r = 0; r < ranks; ++r) {
    count[r] = v_pick("count", 1, NB);
    for(int i = 0; i < count[r]; ++i, ++n) {
      in[n].key = v_u8("key");
      v_assume(in[n].key < 16);
      in[n].id = 100 - n;
    }
  }
  v_ranks(ranks, rank_main, v_shared(sizeof(shared_t)));
  v_reach("end");
}
