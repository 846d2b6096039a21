// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C"
{
    void sym_make(void * p, uint32_t elemSize, uint64_t n, const char * name); // n fresh values of elemSize bytes
    void sym_make_bool(void * p, uint64_t n, const char * name);               // n fresh bytes in {0,1}
    uint64_t sym_u64(const char * name);
    void sym_assume(int c);
    void sym_assert(int c, const char * msg);
    int64_t sym_choose(const char * name, int64_t lo, int64_t hi); // every value in lo..hi, one path each
    int64_t sym_concretize(int64_t v);
    int sym_known(int c); // c is true for reasons of form alone (a hint: 0 when a query would be needed)
    void sym_observe(const char * name, const void * p, uint32_t elemSize, uint64_t n);
    int64_t sym_arg(int i); // job parameter
    void sym_reach(const char * name);
    int sym_symbolic(void); // 1 in the executor, 0 in native replay
    void sym_print(const char * name, uint64_t v);
    uint64_t sym_size(const void * p); // bytes from p to the end of its allocation (executor), 0 native
    void sym_unsupported(const char * why);
    uint64_t sym_thread(void * (*fn)(void *), void * arg);
    void sym_wait_eq(volatile int32_t * p, int32_t v);
    void sym_join(uint64_t id);
}
