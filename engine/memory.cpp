#include "state.h"
#include <algorithm>
static Agg theAgg;
Expr aggExpr;
Expr *const AGG = &aggExpr;

Chunk *Memory::wchunk(size_t i) {
  if (chunks.size() <= i) chunks.resize(i + 1);
  if (!chunks[i].p) { chunks[i].p = new Chunk; chunks[i].p->rc = 1; }
  else if (chunks[i].p->rc > 1) { Chunk *c = new Chunk(*chunks[i].p); c->rc = 1; chunks[i].p->rc--; chunks[i].p = c; }
  return chunks[i].p;
}
u64 Memory::alloc(u64 size, u64 align, ObjKind k, bool zero) {
  if (align < 16) align = 16;
  u64 a = (next + align - 1) & ~(align - 1);
  u64 end = a + size + 16;
  if ((a >> CHUNK_BITS) != (end >> CHUNK_BITS)) {  // small objects do not cross chunks; large ones start at a chunk
    a = ((a >> CHUNK_BITS) + 1) << CHUNK_BITS;
    end = a + size + 16;
  }
  next = end;
  MemObj *o = new MemObj;
  o->base = a; o->size = size; o->kind = k;
  o->data.assign(size, 0);
  o->tag.assign(size, zero ? TAG_C : TAG_U);
  Ref r(o);
  size_t c0 = (a - MEM_BASE) >> CHUNK_BITS, c1 = (end - 1 - MEM_BASE) >> CHUNK_BITS;
  for (size_t c = c0; c <= c1; c++) wchunk(c)->objs.push_back(r);
  return a;
}
static MemObj *lookup(const Chunk *c, u64 addr) {
  if (!c || c->objs.empty()) return nullptr;
  size_t lo = 0, hi = c->objs.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (c->objs[m].o->base <= addr) lo = m + 1; else hi = m; }
  if (!lo) return nullptr;
  MemObj *o = c->objs[lo - 1].o;
  if (addr <= o->base + o->size) return o;
  return nullptr;
}
MemObj *Memory::find(u64 addr) const {
  if (addr < MEM_BASE) return nullptr;
  size_t i = (addr - MEM_BASE) >> CHUNK_BITS;
  if (i >= chunks.size()) return nullptr;
  return lookup(chunks[i].p, addr);
}
MemObj *Memory::writable(u64 addr) {
  size_t i = (addr - MEM_BASE) >> CHUNK_BITS;
  MemObj *o = find(addr);
  size_t c0 = (o->base - MEM_BASE) >> CHUNK_BITS, c1 = (o->base + o->size + 15 - MEM_BASE) >> CHUNK_BITS;
  bool shared = false;
  for (size_t c = c0; c <= c1; c++) if (chunks[c].p->rc > 1) shared = true;
  (void)i;
  if (shared) for (size_t c = c0; c <= c1; c++) wchunk(c);
  if (o->rc > (int)(c1 - c0 + 1)) {
    MemObj *n = new MemObj(*o);
    n->rc = 0;
    Ref r(n);
    for (size_t c = c0; c <= c1; c++) for (Ref &x : wchunk(c)->objs) if (x.o == o) { x = r; break; }
    return n;
  }
  return o;
}
void Memory::erase(u64 base) {
  MemObj *o = find(base);
  size_t c0 = (o->base - MEM_BASE) >> CHUNK_BITS, c1 = (o->base + o->size + 15 - MEM_BASE) >> CHUNK_BITS;
  for (size_t c = c0; c <= c1; c++) {
    auto &v = wchunk(c)->objs;
    for (size_t i = v.size(); i-- > 0;) if (v[i].o == o) { Ref keep = v[i]; v.erase(v.begin() + i); break; }
  }
}
