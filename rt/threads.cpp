// riptide-headers
// Thread start for single-threaded executions: workers report themselves as started and never run, so the calling
// thread processes every work block that rt_share does not give to a worker. C24's harness replaces this file.
#include "RipTide.h"
#include "MathThreads.h"
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <stdarg.h>
// Which worker cores process how many blocks before the calling thread continues with the rest. Each entry is a schedule the real
// workers can produce: the item is shown to the worker with only that many blocks left.
static int shareCore[8];
static int64_t shareBlocks[8];
static int shares;
void rt_share(int core, int64_t blocks)
{
    shareCore[shares] = core;
    shareBlocks[shares++] = blocks;
}
static stWorkerRing * ring;
extern "C" long syscall(long nr, ...) noexcept
{
    va_list ap;
    va_start(ap, nr);
    va_arg(ap, int *);
    int op = va_arg(ap, int);
    va_end(ap);
    if (nr != SYS_futex || (op & 127) != FUTEX_WAKE || ! ring)
        return 0;
    stMATH_WORKER_ITEM * w = ring->GetExistingWorkItem();
    for (int i = 0; i < shares; i++)
    {
        int64_t last = w->BlockLast, total = w->TotalElements, first = w->BlockNext;
        if (first + shareBlocks[i] >= last)
            break;
        w->BlockLast = first + shareBlocks[i];
        w->TotalElements = 0;
        w->DoWork(shareCore[i], ring->WorkIndex - 1);
        w->BlockNext = first + shareBlocks[i];
        w->BlockLast = last;
        w->TotalElements = total;
    }
    return 0;
}
extern "C" int pthread_create(pthread_t * h, const pthread_attr_t *, void * (*fn)(void *), void * arg) noexcept
{
    ring = (stWorkerRing *)arg;
    ring->ThreadsRunning++;
    *h = 1;
    return 0;
}
extern "C" int sched_getaffinity(pid_t, size_t n, cpu_set_t * s) noexcept
{
    memset(s, 0, n);
    *(unsigned char *)s = 0xf;
    return 0;
}
