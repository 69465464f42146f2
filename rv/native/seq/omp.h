/* Sequential stand-in for the OpenMP runtime, for the build under MemorySanitizer. */
#ifndef RV_OMP_H
#define RV_OMP_H
#include <time.h>
static inline void omp_set_num_threads(int n) { (void) n; }
static inline int omp_get_num_threads(void) { return 1; }
static inline int omp_get_max_threads(void) { return 1; }
static inline int omp_get_thread_num(void) { return 0; }
static inline double omp_get_wtime(void) { return (double) clock() / CLOCKS_PER_SEC; }
#endif
