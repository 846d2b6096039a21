// Native replay of a counterexample (or of a sampled path): the real code, compiled with g++, on the solver's values.
// usage: native FUNCTION REPLAYFILE [arg...]; environment RT_MODE = end | slack | start, RT_FILL = byte
// exit 0: ran to the end; 10: assertion failed; 11: memory error; 12: assumption not met; 13: unsupported
#include <cxxabi.h>
#include <initializer_list>
#include <dlfcn.h>
#include <exception>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "sym.h"

// ------------------------------------------------------------------ guarded heap
static int g_mode = 0; // 0 end (natural alignment), 1 slack (16-byte aligned, canary), 2 start (guard page in front)
static unsigned char g_fill = 0x5a;
static bool g_ready = false;
static const size_t PG = 4096;
struct Hdr // kept in its own page before the data pages
{
    uint64_t magic;
    size_t size, data; // data address
    char * base;
    size_t total;
    bool freed;
    Hdr * next;
};
static Hdr * g_all;
static const uint64_t MAGIC = 0x1badb002cafef00d;
static void err(const char * m)
{
    write(1, m, strlen(m));
}
static void memoryError(const char * m)
{
    err("MEMORY ERROR: ");
    err(m);
    err("\n");
    _exit(11);
}
static void setup()
{
    if (g_ready)
        return;
    g_ready = true;
    const char * m = getenv("RT_MODE");
    if (m && ! strcmp(m, "slack"))
        g_mode = 1;
    if (m && ! strcmp(m, "start"))
        g_mode = 2;
    const char * f = getenv("RT_FILL");
    if (f)
        g_fill = (unsigned char)strtol(f, nullptr, 0);
}
static void * galloc(size_t n, size_t align)
{
    setup();
    size_t al = 16;
    if (g_mode == 0)
    {
        al = 1;
        while (al < 16 && n % (al * 2) == 0 && n)
            al *= 2;
        if (! n)
            al = 16;
    }
    if (align > al)
        al = align;
    size_t body = (n + al + PG - 1) / PG * PG;
    if (al <= 16 && n)
        body = (n + PG - 1) / PG * PG + ((n + 15) / 16 * 16 > (n + PG - 1) / PG * PG ? PG : 0);
    size_t front = g_mode == 2 ? 2 * PG : PG;
    size_t total = front + body + PG;
    char * b = (char *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED)
    {
        err("native: out of mappings\n");
        _exit(13);
    }
    uint64_t d;
    if (g_mode == 2)
    {
        d = (uint64_t)b + front;
        d = (d + al - 1) & ~(al - 1);
    }
    else
        d = ((uint64_t)b + front + body - n) & ~(uint64_t)(al - 1);
    if (g_mode == 2)
        mprotect(b + PG, PG, PROT_NONE);
    mprotect(b + total - PG, PG, PROT_NONE);
    // header must be found from the data address: data lies in the first body page or later
    Hdr * h = (Hdr *)b;
    h->magic = MAGIC;
    h->size = n;
    h->data = d;
    h->base = b;
    h->total = total;
    h->freed = false;
    h->next = g_all;
    g_all = h;
    memset((void *)d, g_fill, n);
    if (g_mode == 1)
    {
        char * e = (char *)d + n;
        memset(e, 0xc5, b + total - PG - e);
    }
    return (void *)d;
}
static Hdr * find(void * p)
{
    for (Hdr * h = g_all; h; h = h->next)
        if (h->data == (uint64_t)p)
            return h;
    return nullptr;
}
static void checkSlack(Hdr * h)
{
    if (g_mode != 1 || h->freed)
        return;
    for (char * e = (char *)h->data + h->size; e < h->base + h->total - PG; e++)
        if ((unsigned char)*e != 0xc5)
            memoryError("write past the end of an allocation");
}
static void gfree(void * p)
{
    if (! p)
        return;
    Hdr * h = find(p);
    if (! h)
        memoryError("free of a pointer that was not allocated");
    if (h->freed)
        memoryError("double free");
    checkSlack(h);
    h->freed = true;
    mprotect(h->base + PG, h->total - PG, PROT_NONE);
}
extern "C"
{
    void * malloc(size_t n) noexcept
    {
        return galloc(n, 1);
    }
    void free(void * p) noexcept
    {
        gfree(p);
    }
    void * calloc(size_t a, size_t b) noexcept
    {
        void * p = galloc(a * b, 1);
        memset(p, 0, a * b);
        return p;
    }
    void * realloc(void * p, size_t n) noexcept
    {
        void * q = galloc(n, 1);
        if (p)
        {
            Hdr * h = find(p);
            if (! h)
                memoryError("realloc of a pointer that was not allocated");
            memcpy(q, p, h->size < n ? h->size : n);
            gfree(p);
        }
        return q;
    }
    void * aligned_alloc(size_t a, size_t n) noexcept
    {
        return galloc(n, a);
    }
    void * memalign(size_t a, size_t n) noexcept
    {
        return galloc(n, a);
    }
    int posix_memalign(void ** p, size_t a, size_t n) noexcept
    {
        *p = galloc(n, a);
        return 0;
    }
}

// ------------------------------------------------------------------ symbolic values
struct V
{
    char name[120];
    unsigned __int128 v;
};
static V * g_vals;
static int g_nvals;
static int64_t g_args[32];
struct C
{
    char name[120];
    int n;
};
static C g_cnt[20000];
static int g_ncnt;
static bool g_observe;
static unsigned __int128 value(const char * base)
{
    int i;
    for (i = 0; i < g_ncnt; i++)
        if (! strcmp(g_cnt[i].name, base))
            break;
    if (i == g_ncnt)
    {
        strncpy(g_cnt[g_ncnt++].name, base, 119);
    }
    int k = g_cnt[i].n++;
    char full[160];
    if (k)
        snprintf(full, sizeof full, "%s#%d", base, k);
    else
        strcpy(full, base);
    for (int j = 0; j < g_nvals; j++)
        if (! strcmp(g_vals[j].name, full))
            return g_vals[j].v;
    return 0;
}
extern "C"
{
    void sym_make(void * p, uint32_t es, uint64_t n, const char * name)
    {
        char b[120];
        for (uint64_t i = 0; i < n; i++)
        {
            snprintf(b, sizeof b, "%s[%lu]", name, i);
            unsigned __int128 v = value(b);
            memcpy((char *)p + i * es, &v, es);
        }
    }
    void sym_make_bool(void * p, uint64_t n, const char * name)
    {
        char b[120];
        for (uint64_t i = 0; i < n; i++)
        {
            snprintf(b, sizeof b, "%s[%lu]", name, i);
            ((char *)p)[i] = (char)(value(b) & 1);
        }
    }
    uint64_t sym_u64(const char * name)
    {
        return (uint64_t)value(name);
    }
    void sym_assume(int c)
    {
        if (! c)
        {
            err("ASSUME\n");
            _exit(12);
        }
    }
    void sym_assert(int c, const char * msg)
    {
        if (! c)
        {
            err("ASSERT: ");
            err(msg);
            err("\n");
            _exit(10);
        }
    }
    int64_t sym_choose(const char * name, int64_t lo, int64_t hi)
    {
        int64_t v = (int64_t)value(name);
        if (v < lo || v > hi)
            sym_assume(0);
        return v;
    }
    int64_t sym_concretize(int64_t v)
    {
        return v;
    }
    void sym_observe(const char * name, const void * p, uint32_t es, uint64_t n)
    {
        char b[200];
        for (uint64_t i = 0; i < n; i++)
        {
            unsigned __int128 v = 0;
            memcpy(&v, (const char *)p + i * es, es);
            if ((uint64_t)(v >> 64))
                snprintf(b, sizeof b, "OBS %s[%lu] %lx%016lx\n", name, i, (uint64_t)(v >> 64), (uint64_t)v);
            else
                snprintf(b, sizeof b, "OBS %s[%lu] %lx\n", name, i, (uint64_t)v);
            err(b);
        }
    }
    int64_t sym_arg(int i)
    {
        return g_args[i];
    }
    void sym_reach(const char *) {}
    int sym_known(int c)
    {
        return c != 0;
    }
    int sym_symbolic(void)
    {
        return 0;
    }
    int sym_is_const(const void *, uint64_t)
    {
        return 1;
    }
    void sym_print(const char * n, uint64_t v)
    {
        printf("PRINT %s %lx\n", n, v);
        fflush(stdout);
    }
    uint64_t sym_size(const void *)
    {
        return 0;
    }
    void sym_unsupported(const char * w)
    {
        err("UNSUPPORTED: ");
        err(w);
        err("\n");
        _exit(13);
    }
    uint64_t sym_thread(void * (*)(void *), void *)
    {
        sym_unsupported("threads");
        return 0;
    }
    void rt_missing()
    {
        sym_unsupported("function outside the linked translation units");
    }
    void sym_wait_eq(volatile int32_t *, int32_t)
    {
        sym_unsupported("threads");
    }
    void sym_join(uint64_t)
    {
        sym_unsupported("threads");
    }
    void rt_init();
}
static void onsig(int s, siginfo_t * i, void *)
{
    char b[160];
    snprintf(b, sizeof b, "MEMORY ERROR: signal %d at %p\n", s, i->si_addr);
    err(b);
    _exit(s == SIGABRT ? 14 : s == SIGFPE ? 15 : 11);
}
int main(int argc, char ** argv)
{
    setup();
    static char stack[65536];
    stack_t ss{};
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa
    {
    };
    sa.sa_sigaction = onsig;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT })
        sigaction(s, &sa, nullptr);
    alarm(60);
    if (argc < 3)
        return 2;
    FILE * f = fopen(argv[2], "r");
    if (! f)
        return 2;
    g_vals = (V *)mmap(nullptr, sizeof(V) * 100000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char line[512];
    while (fgets(line, sizeof line, f))
    {
        if (line[0] == '#')
            continue;
        char hex[256];
        if (sscanf(line, "%119s %255s", g_vals[g_nvals].name, hex) != 2)
            continue;
        unsigned __int128 v = 0;
        for (char * c = hex; *c; c++)
            v = v << 4 | (unsigned)(*c <= '9' ? *c - '0' : (*c | 32) - 'a' + 10);
        g_vals[g_nvals++].v = v;
    }
    fclose(f);
    for (int i = 3; i < argc && i < 35; i++)
        g_args[i - 3] = strtoll(argv[i], nullptr, 0);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (! fn)
    {
        err("native: no such function\n");
        return 2;
    }
    rt_init();
    try
    {
        fn();
    }
    catch (...)
    {
        err("EXCEPTION escaped\n");
        _exit(16);
    }
    for (Hdr * h = g_all; h; h = h->next)
        checkSlack(h);
    fflush(stdout);
    err("END\n");
    _exit(0);
}
