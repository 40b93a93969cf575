/* Forced into every file of the "sched" build: gives the atomic operations that are written in
   assembler a scheduling point, as the compiler's instrumentation gives all other accesses one. */
#ifndef VERIF_SCHED_SHIM_H
#define VERIF_SCHED_SHIM_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <stdint.h>
#include <limits.h>
#include <math.h>
#ifdef __cplusplus
#include <map>
#include <set>
#include <vector>
#include <string>
#include <atomic>
#include <algorithm>
#include <memory>
#include <functional>
#include <new>
#include <iostream>
extern "C" {
#endif
void verif_sched_asm(void);
#ifdef __cplusplus
}
#endif
#define __asm__ verif_sched_asm(); __asm__
#include "sasatom.h"
#undef __asm__
#endif
