// initialisation of the espreso process environment (MPI groups, threads) in harnesses
#pragma once
#include "sym.h"
#include "esinfo/mpiinfo.h"
#include "esinfo/envinfo.h"
#include "wrappers/mpi/communication.h"
extern "C" void mpi_run(int n, void (*fn)(int));
extern "C" { extern int mpi_sync_send, mpi_choose_any; }
static inline void es_mpi() { espreso::info::mpi::init(MPI_COMM_WORLD); espreso::MPITools::init(); }
static inline void es_threads(int t) { espreso::info::env::threads = t; espreso::info::env::OMP_NUM_THREADS = t; }
