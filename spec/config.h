/* what cmake writes here: C11 threads and pthreads are both present */
#ifndef __GRACHT_CONFIG_H__
#define __GRACHT_CONFIG_H__
#define HAVE_C11_THREADS
#define HAVE_PTHREAD
#endif
