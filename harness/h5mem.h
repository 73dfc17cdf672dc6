// An in-memory HDF5 / directory model for mpisph/io.h.  The "disk" lives in
// memory shared by the ranks; handles are plain numbers; every call returns what
// the HDF5 manual gives for it (a negative handle or status on failure).
// Include before io.h.
#ifndef VERIF_H5MEM_H
#define VERIF_H5MEM_H
#include "verif.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <libgen.h>
#include <mpi.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include <hdf5.h>
#ifndef H5_PARTS
#define H5_PARTS 8
#endif
namespace h5mem {
enum { NFILE = 4, NGROUP = 4, NATTR = 6, NDSET = 32, NSPACE = 64 };
struct made_t { // collective creation: complete once every rank has called
  int want, got;
};
struct attr_t {
  char name[16];
  made_t made;
  hid_t type;
  unsigned char data[8];
  bool set;
};
struct dset_t {
  char name[16];
  made_t made;
  hid_t type;
  hsize_t n;
  unsigned char data[8 * H5_PARTS];
};
struct group_t {
  char name[16];
  made_t made;
  attr_t attr[NATTR];
  dset_t dset[NDSET];
};
struct file_t {
  char name[64];
  bool exists;
  made_t made;
  group_t group[NGROUP];
  attr_t attr[NATTR];
};
struct disk_t {
  file_t file[NFILE];
  int busy;
};
static disk_t * disk;
struct lock_t { // the ranks are processes under native replay
  lock_t() {
    while(__sync_lock_test_and_set(&disk->busy, 1)) {}
  }
  ~lock_t() { __sync_lock_release(&disk->busy); }
};
static int first_entry; // the directory is listed from this entry on
struct space_t {
  hsize_t n, off, count;
};
static space_t space[NSPACE];
static int nspace;
static inline bool same(const char * a, const char * b) { return std::strcmp(a, b) == 0; }
static inline void put(char * d, const char * s, size_t n) {
  v_check(std::strlen(s) < n, "model: name fits");
  std::strcpy(d, s);
}
static inline int ranks() {
  int n;
  MPI_Comm_size(MPI_COMM_WORLD, &n);
  return n;
}
// 1: created (or joined), 0: it was already there
static inline bool make(made_t & m) {
  if(m.want && m.got >= m.want) return false;
  if(!m.want) m.want = ranks();
  ++m.got;
  return true;
}
static inline file_t * find(const char * n) {
  for(int i = 0; i < NFILE; ++i)
    if(disk->file[i].exists && same(disk->file[i].name, n)) return &disk->file[i];
  return nullptr;
}
static inline hid_t id_of(file_t * f) { return 1000 + (f - disk->file); }
static inline file_t * file(hid_t h) { return h >= 1000 && h < 1000 + NFILE ? &disk->file[h - 1000] : nullptr; }
static inline group_t * group(hid_t h) {
  if(h < 2000 || h >= 2000 + NFILE * NGROUP) return nullptr;
  return &disk->file[(h - 2000) / NGROUP].group[(h - 2000) % NGROUP];
}
static inline attr_t * attrs(hid_t h) {
  if(file(h)) return file(h)->attr;
  if(group(h)) return group(h)->attr;
  return nullptr;
}
static inline int owner(hid_t h) { return file(h) ? h - 1000 : NFILE + (h - 2000); }
static inline attr_t * attr(hid_t h) {
  if(h < 4000 || h >= 4000 + (NFILE + NFILE * NGROUP) * NATTR) return nullptr;
  int o = (h - 4000) / NATTR;
  return &(o < NFILE ? disk->file[o].attr : group(2000 + o - NFILE)->attr)[(h - 4000) % NATTR];
}
static inline dset_t * dset(hid_t h) {
  if(h < 8000 || h >= 8000 + NFILE * NGROUP * NDSET) return nullptr;
  return &group(2000 + (h - 8000) / NDSET)->dset[(h - 8000) % NDSET];
}
static inline space_t * sp(hid_t h) { return h >= 100 && h < 100 + NSPACE ? &space[h - 100] : nullptr; }
inline int size_of(hid_t t) { return t == H5T_NATIVE_INT ? 4 : 8; }
static inline hid_t new_space(hsize_t n) {
  space_t & s = space[nspace++ % NSPACE];
  s.n = n;
  s.off = 0;
  s.count = n;
  return 100 + (&s - space);
}
// kept apart so that they stay whole-word copies
static __attribute__((noinline)) void copy8(const unsigned char * f, unsigned char * t) { std::memcpy(t, f, 8); }
static __attribute__((noinline)) void copy4(const unsigned char * f, unsigned char * t) { std::memcpy(t, f, 4); }
// element of type t as another type
static inline void conv(hid_t ft, const unsigned char * f, hid_t tt, unsigned char * t) {
  if(ft == tt) {
    if(size_of(ft) == 8) copy8(f, t);
    else copy4(f, t);
    return;
  }
  if(ft == H5T_NATIVE_DOUBLE || tt == H5T_NATIVE_DOUBLE) {
    v_check(false, "model: the type in the file is the type in memory");
    return;
  }
  int64_t x = 0;
  if(ft == H5T_NATIVE_INT) {
    int32_t y;
    std::memcpy(&y, f, 4);
    x = y;
  }
  else std::memcpy(&x, f, 8);
  if(tt == H5T_NATIVE_INT) {
    int32_t y = x > INT32_MAX ? INT32_MAX : x < INT32_MIN ? INT32_MIN : (int32_t)x;
    std::memcpy(t, &y, 4);
  }
  else std::memcpy(t, &x, 8);
}
} // namespace h5mem
extern "C" {
static inline int h5_access(const char * n, int) {
  int r;
  MPI_Comm_rank(MPI_COMM_WORLD, &r);
  if(!v_symbolic()) usleep(30000 * r); // one possible timing
  h5mem::lock_t lock;
  return h5mem::find(n) ? 0 : -1;
}
static inline int h5_remove(const char * n) {
  h5mem::lock_t lock;
  h5mem::file_t * f = h5mem::find(n);
  if(!f) return -1;
  f->exists = false;
  f->name[0] = 0;
  return 0;
}
struct h5_dir {
  char name[64];
  int at;
  struct dirent e;
};
static inline DIR * h5_opendir(const char * n) {
  h5_dir * d = (h5_dir *)std::malloc(sizeof(h5_dir));
  h5mem::put(d->name, n, sizeof d->name);
  d->at = 0;
  return (DIR *)d;
}
static inline struct dirent * h5_readdir(DIR * p) {
  h5_dir * d = (h5_dir *)p;
  while(d->at < h5mem::NFILE) {
    h5mem::file_t & f = h5mem::disk->file[(d->at++ + h5mem::first_entry) % h5mem::NFILE];
    if(!f.exists) continue;
    const char * s = f.name;
    int cut = -1;
    for(int i = 0; s[i]; ++i)
      if(s[i] == '/') cut = i;
    if(cut < 0) {
      if(!h5mem::same(d->name, ".")) continue;
    }
    else {
      bool in = (int)std::strlen(d->name) == cut;
      for(int i = 0; i < cut && in; ++i) in = d->name[i] == s[i];
      if(!in) continue;
    }
    std::strcpy(d->e.d_name, s + cut + 1);
    return &d->e;
  }
  return nullptr;
}
static inline int h5_closedir(DIR * p) {
  std::free(p);
  return 0;
}
inline hid_t H5Pcreate(hid_t k) { return 50 + k; }
inline herr_t H5Pclose(hid_t) { return 0; }
inline herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info) { return 0; }
inline herr_t H5Pset_dxpl_mpio(hid_t, int) { return 0; }
inline herr_t H5Eset_auto(hid_t, void *, void *) { return 0; }
inline hid_t H5Fopen(const char * n, unsigned, hid_t) {
  h5mem::lock_t lock;
  h5mem::file_t * f = h5mem::find(n);
  if(!f) return -1;
  v_check(f->made.got >= f->made.want, "no rank opens a file that others are creating in the same collective call");
  return h5mem::id_of(f);
}
inline hid_t H5Fcreate(const char * n, unsigned, hid_t, hid_t) {
  h5mem::lock_t lock;
  h5mem::file_t * f = h5mem::find(n);
  if(f && f->made.got < f->made.want) {
    ++f->made.got;
    return h5mem::id_of(f);
  }
  if(!f)
    for(int i = 0; i < h5mem::NFILE && !f; ++i)
      if(!h5mem::disk->file[i].exists) f = &h5mem::disk->file[i];
  if(!f) return -1;
  std::memset(f, 0, sizeof *f);
  h5mem::put(f->name, n, sizeof f->name);
  f->exists = true;
  f->made.want = h5mem::ranks();
  f->made.got = 1;
  return h5mem::id_of(f);
}
inline herr_t H5Fclose(hid_t h) { return h5mem::file(h) ? 0 : -1; }
static inline h5mem::group_t * h5_group(hid_t h, const char * n) {
  h5mem::file_t * f = h5mem::file(h);
  if(!f) return nullptr;
  for(int i = 0; i < h5mem::NGROUP; ++i)
    if(f->group[i].made.want && h5mem::same(f->group[i].name, n)) return &f->group[i];
  return nullptr;
}
static inline hid_t h5_group_id(hid_t h, h5mem::group_t * g) { return 2000 + (h - 1000) * h5mem::NGROUP + (g - h5mem::file(h)->group); }
inline hid_t H5Gopen(hid_t h, const char * n, hid_t) {
  h5mem::lock_t lock;
  h5mem::group_t * g = h5_group(h, n);
  return g ? h5_group_id(h, g) : -1;
}
inline hid_t H5Gcreate(hid_t h, const char * n, hid_t, hid_t, hid_t) {
  h5mem::lock_t lock;
  h5mem::file_t * f = h5mem::file(h);
  if(!f) return -1;
  h5mem::group_t * g = h5_group(h, n);
  for(int i = 0; i < h5mem::NGROUP && !g; ++i)
    if(!f->group[i].made.want) {
      g = &f->group[i];
      h5mem::put(g->name, n, sizeof g->name);
    }
  if(!g || !h5mem::make(g->made)) return -1;
  return h5_group_id(h, g);
}
inline herr_t H5Gclose(hid_t h) { return h5mem::group(h) ? 0 : -1; }
inline herr_t H5Gget_objinfo(hid_t h, const char * n, int, void *) {
  h5mem::lock_t lock;
  h5mem::group_t * g = h5_group(h, n);
  // not there for this rank before the (collective) creation is complete
  return g && g->made.got >= g->made.want ? 0 : -1;
}
inline hid_t H5Screate_simple(int k, const hsize_t * d, const hsize_t *) {
  v_check(k == 1, "model: one dimension");
  return h5mem::new_space(d[0]);
}
inline herr_t H5Sclose(hid_t h) { return h5mem::sp(h) ? 0 : -1; }
inline herr_t H5Sselect_hyperslab(hid_t h, int, const hsize_t * o, const hsize_t *, const hsize_t * c, const hsize_t *) {
  h5mem::space_t * s = h5mem::sp(h);
  if(!s) return -1;
  s->off = *o;
  s->count = *c;
  return 0;
}
inline int H5Sget_simple_extent_dims(hid_t h, hsize_t * d, hsize_t *) {
  h5mem::space_t * s = h5mem::sp(h);
  if(!s) return -1;
  *d = s->n;
  return 1;
}
static inline h5mem::dset_t * h5_dset(hid_t h, const char * n) {
  h5mem::group_t * g = h5mem::group(h);
  if(!g) return nullptr;
  for(int i = 0; i < h5mem::NDSET; ++i)
    if(g->dset[i].made.want && h5mem::same(g->dset[i].name, n)) return &g->dset[i];
  return nullptr;
}
static inline hid_t h5_dset_id(hid_t h, h5mem::dset_t * d) { return 8000 + (h - 2000) * h5mem::NDSET + (d - h5mem::group(h)->dset); }
inline hid_t H5Dcreate(hid_t h, const char * n, hid_t t, hid_t s, hid_t, hid_t, hid_t) {
  h5mem::lock_t lock;
  h5mem::group_t * g = h5mem::group(h);
  if(!g || !h5mem::sp(s)) return -1;
  h5mem::dset_t * d = h5_dset(h, n);
  bool join = d;
  for(int i = 0; i < h5mem::NDSET && !d; ++i)
    if(!g->dset[i].made.want) {
      d = &g->dset[i];
      h5mem::put(d->name, n, sizeof d->name);
      d->type = t;
      d->n = h5mem::sp(s)->n;
    }
  if(!d || !h5mem::make(d->made)) return -1;
  if(join) v_check(d->type == t && d->n == h5mem::sp(s)->n, "every rank creates the same dataset");
  v_check(d->n <= H5_PARTS, "model: dataset size");
  return h5_dset_id(h, d);
}
inline hid_t H5Dopen(hid_t h, const char * n, hid_t) {
  h5mem::lock_t lock;
  h5mem::dset_t * d = h5_dset(h, n);
  return d ? h5_dset_id(h, d) : -1;
}
inline herr_t H5Dclose(hid_t h) { return h5mem::dset(h) ? 0 : -1; }
inline hid_t H5Dget_space(hid_t h) { return h5mem::dset(h) ? h5mem::new_space(h5mem::dset(h)->n) : -1; }
inline herr_t H5Dwrite(hid_t h, hid_t t, hid_t ms, hid_t fs, hid_t, const void * p) {
  h5mem::dset_t * d = h5mem::dset(h);
  h5mem::space_t *m = h5mem::sp(ms), *f = h5mem::sp(fs);
  if(!d || !m || !f) return -1;
  if(m->count != f->count || f->off + f->count > f->n || m->off + m->count > m->n) return -1;
  const unsigned char * b = (const unsigned char *)p;
  for(hsize_t i = 0; i < f->count; ++i)
    h5mem::conv(t, b + (m->off + i) * h5mem::size_of(t), d->type, d->data + (f->off + i) * h5mem::size_of(d->type));
  return 0;
}
inline herr_t H5Dread(hid_t h, hid_t t, hid_t ms, hid_t fs, hid_t, void * p) {
  h5mem::dset_t * d = h5mem::dset(h);
  h5mem::space_t *m = h5mem::sp(ms), *f = h5mem::sp(fs);
  if(!d || !m || !f) return -1;
  if(m->count != f->count || f->off + f->count > f->n || m->off + m->count > m->n) return -1;
  unsigned char * b = (unsigned char *)p;
  for(hsize_t i = 0; i < f->count; ++i)
    h5mem::conv(d->type, d->data + (f->off + i) * h5mem::size_of(d->type), t, b + (m->off + i) * h5mem::size_of(t));
  return 0;
}
static inline h5mem::attr_t * h5_attr(hid_t h, const char * n) {
  h5mem::attr_t * a = h5mem::attrs(h);
  for(int i = 0; a && i < h5mem::NATTR; ++i)
    if(a[i].made.want && h5mem::same(a[i].name, n)) return a + i;
  return nullptr;
}
static inline hid_t h5_attr_id(hid_t h, h5mem::attr_t * a) { return 4000 + h5mem::owner(h) * h5mem::NATTR + (a - h5mem::attrs(h)); }
inline hid_t H5Aopen(hid_t h, const char * n, hid_t) {
  h5mem::lock_t lock;
  h5mem::attr_t * a = h5_attr(h, n);
  return a ? h5_attr_id(h, a) : -1;
}
inline hid_t H5Acreate(hid_t h, const char * n, hid_t t, hid_t s, hid_t, hid_t) {
  h5mem::lock_t lock;
  h5mem::attr_t * t0 = h5mem::attrs(h);
  if(!t0 || !h5mem::sp(s)) return -1;
  h5mem::attr_t * a = h5_attr(h, n);
  for(int i = 0; i < h5mem::NATTR && !a; ++i)
    if(!t0[i].made.want) {
      a = &t0[i];
      h5mem::put(a->name, n, sizeof a->name);
      a->type = t;
    }
  if(!a || !h5mem::make(a->made)) return -1;
  return h5_attr_id(h, a);
}
inline herr_t H5Aread(hid_t h, hid_t t, void * p) {
  h5mem::attr_t * a = h5mem::attr(h);
  if(!a) return -1;
  h5mem::conv(a->type, a->data, t, (unsigned char *)p);
  return 0;
}
inline herr_t H5Awrite(hid_t h, hid_t t, const void * p) {
  h5mem::attr_t * a = h5mem::attr(h);
  if(!a) return -1;
  h5mem::conv(t, (const unsigned char *)p, a->type, a->data);
  return 0;
}
inline herr_t H5Aclose(hid_t h) { return h5mem::attr(h) ? 0 : -1; }
}
namespace std {
using ::h5_remove;
}
#define access h5_access
#define remove h5_remove
#define opendir h5_opendir
#define readdir h5_readdir
#define closedir h5_closedir
#endif
