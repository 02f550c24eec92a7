/* forced include of the library: locks, mappings and memory requests go to the scheduler of the explorer */
#include "rec_sys.h"
#include <pthread.h>
extern int verif_lock(pthread_mutex_t *m);
extern int verif_trylock(pthread_mutex_t *m);
extern int verif_unlock(pthread_mutex_t *m);
#define pthread_mutex_lock verif_lock
#define pthread_mutex_trylock verif_trylock
#define pthread_mutex_unlock verif_unlock
