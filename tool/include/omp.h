/* stub: only the declarations the repository uses; the analysed program is parsed, never linked */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
#ifdef __cplusplus
}
#endif
