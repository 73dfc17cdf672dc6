#pragma once
// Sequential OpenMP stub (checks compile without -fopenmp).
extern "C" {
inline int omp_get_thread_num() { return 0; }
inline int omp_get_num_threads() { return 1; }
inline int omp_get_max_threads() { return 1; }
inline double omp_get_wtime() { return 0.; }
inline void omp_set_num_threads(int) {}
typedef struct { int x; } omp_lock_t;
inline void omp_init_lock(omp_lock_t *) {}
inline void omp_set_lock(omp_lock_t *) {}
inline void omp_unset_lock(omp_lock_t *) {}
inline void omp_destroy_lock(omp_lock_t *) {}
}
