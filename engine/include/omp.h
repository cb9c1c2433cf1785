/* Declarations only: gcc's omp.h uses attributes clang does not parse. */
#ifdef __cplusplus
extern "C" {
#endif
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
void omp_set_nested(int);
double omp_get_wtime(void);
typedef struct { unsigned char _x[4]; } omp_lock_t;
void omp_init_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
