// Copy-on-write byte memory: objects made of pages whose bytes are concrete, symbolic (byte of an Expr) or uninitialised.
#pragma once
#include "expr.h"
#include <string>
#include <vector>

constexpr u32 PS = 1024;
constexpr u64 REGION = 1ull << 44;
constexpr u32 SLOT = 26;
constexpr u64 OBJOFF = 1ull << 24;
constexpr u64 FNBASE = 0x400000000000ull >> 3; // function addresses

struct ByteRef
{
    Expr * e;
    u32 off;
};
struct Page
{
    int rc = 1;
    bool anyUninit = false;
    ByteRef * sym = nullptr; // per byte; e == nullptr -> concrete
    unsigned char data[PS];
    u64 uninit[PS / 64];
};
enum ObjKind : unsigned char
{
    OK_Heap,
    OK_Stack,
    OK_Global,
    OK_Const
};
struct Obj
{
    int rc = 1;
    u32 id = 0;
    u64 base = 0, size = 0;
    ObjKind kind = OK_Heap;
    bool zero = false; // untouched pages read as zero, else uninitialised
    bool freed = false;
    const char * name = "";
    std::vector<Page *> pages;
};
struct Chunk
{
    int rc = 1;
    Obj * o[64] = {};
};

struct Val
{
    Expr * e;
    u64 c;
};

struct Mem
{
    std::vector<Chunk *> ch;
    u32 next = 1;
    Mem() = default;
    Mem(const Mem & m) : ch(m.ch), next(m.next)
    {
        for (auto c : ch)
            c->rc++;
    }
    Mem & operator=(const Mem &) = delete;
    ~Mem();
    Obj * find(u64 addr); // may be null / freed
    Obj * byId(u32 id);
    Obj * writable(u32 id);
    Obj * alloc(u64 size, ObjKind k, bool zero, const char * name);
    void dropPages(u32 id); // free contents, mark freed
    // raw byte operations; caller has checked bounds
    static Page * rpage(Obj * o, u64 off)
    {
        return o->pages[off / PS];
    }
    Page * wpage(Obj * o, u64 off); // o must be writable
};
