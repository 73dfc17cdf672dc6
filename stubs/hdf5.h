// Stub HDF5 interface (parallel HDF5 cannot be executed symbolically).  The
// functions are declared only; harness/h5mem.h gives an in-memory model.
#ifndef VERIF_HDF5_H
#define VERIF_HDF5_H
#include <cstdint>
#include <unistd.h>
#include <mpi.h>
typedef long hid_t;
typedef int herr_t;
typedef unsigned long hsize_t;
typedef long hssize_t;
#define H5T_NATIVE_INT 11L
#define H5T_NATIVE_DOUBLE 12L
#define H5T_NATIVE_LLONG 13L
#define H5T_NATIVE_ULLONG 14L
#define H5P_DEFAULT 0L
#define H5P_FILE_ACCESS 1L
#define H5P_DATASET_XFER 2L
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5FD_MPIO_COLLECTIVE 1
#define H5S_SELECT_SET 0
extern "C" {
hid_t H5Pcreate(hid_t);
herr_t H5Pclose(hid_t);
herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info);
herr_t H5Pset_dxpl_mpio(hid_t, int);
hid_t H5Fopen(const char *, unsigned, hid_t);
hid_t H5Fcreate(const char *, unsigned, hid_t, hid_t);
herr_t H5Fclose(hid_t);
hid_t H5Gopen(hid_t, const char *, hid_t);
hid_t H5Gcreate(hid_t, const char *, hid_t, hid_t, hid_t);
herr_t H5Gclose(hid_t);
herr_t H5Gget_objinfo(hid_t, const char *, int, void *);
herr_t H5Eset_auto(hid_t, void *, void *);
hid_t H5Screate_simple(int, const hsize_t *, const hsize_t *);
herr_t H5Sclose(hid_t);
herr_t H5Sselect_hyperslab(hid_t, int, const hsize_t *, const hsize_t *, const hsize_t *, const hsize_t *);
int H5Sget_simple_extent_dims(hid_t, hsize_t *, hsize_t *);
hid_t H5Dcreate(hid_t, const char *, hid_t, hid_t, hid_t, hid_t, hid_t);
hid_t H5Dopen(hid_t, const char *, hid_t);
herr_t H5Dclose(hid_t);
hid_t H5Dget_space(hid_t);
herr_t H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, const void *);
herr_t H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void *);
hid_t H5Aopen(hid_t, const char *, hid_t);
hid_t H5Acreate(hid_t, const char *, hid_t, hid_t, hid_t, hid_t);
herr_t H5Aread(hid_t, hid_t, void *);
herr_t H5Awrite(hid_t, hid_t, const void *);
herr_t H5Aclose(hid_t);
}
#endif
