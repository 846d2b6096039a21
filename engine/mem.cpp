#include "mem.h"
#include <cstdlib>

static void dropPage(Page * p)
{
    if (p && --p->rc == 0)
    {
        delete[] p->sym;
        delete p;
    }
}
static void dropObj(Obj * o)
{
    if (o && --o->rc == 0)
    {
        for (auto p : o->pages)
            dropPage(p);
        delete o;
    }
}
Mem::~Mem()
{
    for (auto c : ch)
        if (--c->rc == 0)
        {
            for (auto o : c->o)
                dropObj(o);
            delete c;
        }
}
Obj * Mem::byId(u32 id)
{
    if (id / 64 >= ch.size())
        return nullptr;
    return ch[id / 64]->o[id % 64];
}
Obj * Mem::find(u64 addr)
{
    if (addr < REGION)
        return nullptr;
    u64 id = (addr - REGION) >> SLOT;
    if (id >= next)
        return nullptr;
    return byId((u32)id);
}
Obj * Mem::writable(u32 id)
{
    Chunk *& c = ch[id / 64];
    if (c->rc > 1)
    {
        Chunk * n = new Chunk;
        for (int i = 0; i < 64; i++)
        {
            n->o[i] = c->o[i];
            if (n->o[i])
                n->o[i]->rc++;
        }
        c->rc--;
        c = n;
    }
    Obj *& o = c->o[id % 64];
    if (o->rc > 1)
    {
        Obj * n = new Obj(*o);
        n->rc = 1;
        for (auto p : n->pages)
            if (p)
                p->rc++;
        o->rc--;
        o = n;
    }
    return o;
}
Obj * Mem::alloc(u64 size, ObjKind k, bool zero, const char * name)
{
    if (size > (1ull << SLOT) - 2 * OBJOFF)
        return nullptr;
    u32 id = next++;
    while (id / 64 >= ch.size())
        ch.push_back(new Chunk);
    Chunk *& c = ch[id / 64];
    if (c->rc > 1)
    {
        Chunk * n = new Chunk;
        for (int i = 0; i < 64; i++)
        {
            n->o[i] = c->o[i];
            if (n->o[i])
                n->o[i]->rc++;
        }
        c->rc--;
        c = n;
    }
    Obj * o = new Obj;
    o->id = id;
    o->base = REGION + ((u64)id << SLOT) + OBJOFF;
    o->size = size;
    o->kind = k;
    o->zero = zero;
    o->name = name;
    o->pages.resize((size + PS - 1) / PS);
    c->o[id % 64] = o;
    return o;
}
void Mem::dropPages(u32 id)
{
    Obj * o = writable(id);
    for (auto & p : o->pages)
        dropPage(p);
    o->pages.clear();
    o->freed = true;
}
Page * Mem::wpage(Obj * o, u64 off)
{
    Page *& p = o->pages[off / PS];
    if (! p)
    {
        p = new Page;
        memset(p->data, 0, PS);
        if (o->zero)
            memset(p->uninit, 0, sizeof p->uninit);
        else
        {
            memset(p->uninit, 0xff, sizeof p->uninit);
            p->anyUninit = true;
        }
    }
    else if (p->rc > 1)
    {
        Page * n = new Page(*p);
        n->rc = 1;
        if (p->sym)
        {
            n->sym = new ByteRef[PS];
            memcpy(n->sym, p->sym, sizeof(ByteRef) * PS);
        }
        p->rc--;
        p = n;
    }
    return p;
}
