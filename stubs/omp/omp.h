// declarations only: clang 18 is installed without its OpenMP runtime headers
#pragma once
extern "C" { void omp_set_num_threads(int); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void); }
