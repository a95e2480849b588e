#ifndef stub_omp_h
#define stub_omp_h
extern "C" { int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_max_threads(void); void omp_set_num_threads(int); double omp_get_wtime(void); }
#endif
