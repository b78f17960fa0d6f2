#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(); int omp_get_thread_num(); int omp_get_num_threads(); int omp_in_parallel(); double omp_get_wtime(); void omp_set_num_threads(int); int omp_get_level();
#ifdef __cplusplus
}
#endif
