// C library functions for the symbolic executor only (native replays use the real ones).
#include <ctype.h>
#include <errno.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <wchar.h>
#include "sym.h"
static unsigned short ctab[384];
static const unsigned short * ctabp = nullptr;
static int errno_;
extern "C"
{
    int * __errno_location() noexcept
    {
        return &errno_;
    }
    const unsigned short ** __ctype_b_loc() noexcept
    {
        if (! ctabp)
        {
            for (int c = 0; c < 128; c++)
            {
                unsigned short f = 0;
                bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9', sp = c == ' ' || (c >= 9 && c <= 13);
                if (up)
                    f |= _ISupper | _ISalpha | _ISalnum;
                if (lo)
                    f |= _ISlower | _ISalpha | _ISalnum;
                if (dg)
                    f |= _ISdigit | _ISalnum;
                if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))
                    f |= _ISxdigit;
                if (sp)
                    f |= _ISspace;
                if (c == ' ' || c == 9)
                    f |= _ISblank;
                if (c >= 32 && c < 127)
                    f |= _ISprint;
                if (c > 32 && c < 127)
                {
                    f |= _ISgraph;
                    if (! (up | lo | dg))
                        f |= _ISpunct;
                }
                if (c < 32 || c == 127)
                    f |= _IScntrl;
                ctab[128 + c] = f;
            }
            ctabp = ctab + 128;
        }
        return &ctabp;
    }
    int stub_isspace(int c) noexcept
    {
        return (c == ' ') | ((c >= 9) & (c <= 13));
    }
    int stub_toupper(int c) noexcept
    {
        return (c >= 'a') & (c <= 'z') ? c - 32 : c;
    }
    int stub_tolower(int c) noexcept
    {
        return (c >= 'A') & (c <= 'Z') ? c + 32 : c;
    }
    int strncasecmp(const char * a, const char * b, size_t n) noexcept
    {
        for (size_t i = 0; i < n; i++)
        {
            int x = stub_tolower((unsigned char)a[i]), y = stub_tolower((unsigned char)b[i]);
            if (x != y)
                return x - y;
            if (! x)
                return 0;
        }
        return 0;
    }
    char * strncpy(char * d, const char * s, size_t n) noexcept
    {
        size_t i = 0;
        for (; i < n && s[i]; i++)
            d[i] = s[i];
        for (; i < n; i++)
            d[i] = 0;
        return d;
    }
    char * strcat(char * d, const char * s) noexcept
    {
        strcpy(d + strlen(d), s);
        return d;
    }
    void * stub_memchr(const void * p, int c, size_t n) noexcept
    {
        const unsigned char * s = (const unsigned char *)p;
        for (size_t i = 0; i < n; i++)
            if (s[i] == (unsigned char)c)
                return (void *)(s + i);
        return nullptr;
    }
    int wmemcmp(const wchar_t * a, const wchar_t * b, size_t n) noexcept
    {
        for (size_t i = 0; i < n; i++)
            if (a[i] != b[i])
                return a[i] < b[i] ? -1 : 1;
        return 0;
    }
    char * strerror(int) noexcept
    {
        return (char *)"error";
    }
    int clock_gettime(clockid_t, struct timespec * t) noexcept
    {
        static int64_t now = 1000;
        now += 1000;
        t->tv_sec = 1600000000 + now / 1000000000;
        t->tv_nsec = now % 1000000000;
        return 0;
    }
    int sched_setaffinity(pid_t, size_t, const cpu_set_t *) noexcept
    {
        return 0;
    }
    void (*signal(int, void (*)(int)))(int)
    {
        return nullptr;
    }
    double ldexp(double x, int e) noexcept
    {
        while (e > 1000)
            x *= 0x1p1000, e -= 1000;
        while (e < -1000)
            x *= 0x1p-1000, e += 1000;
        uint64_t u = (uint64_t)(e + 1023) << 52;
        double p;
        memcpy(&p, &u, 8);
        return x * p;
    }
    int __libc_current_sigrtmin() noexcept
    {
        return 34;
    }
}
