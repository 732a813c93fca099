// P03 memory blocks and the generic vector as histories of operations against a reference model
// MAXLEN: 400
#include "common.hpp"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_keypoint_vector.h"
#include "virg/nexus/nx_alloc.h"
struct M { NXMemBlock *b; std::vector<int> v; /* -1: unspecified */ size_t cap; uint8_t *lent = nullptr; std::vector<uint8_t> lent0; bool owned = false; };
static void check(const M &m) {
  CHECK(m.b->size == m.v.size(), "size %zu want %zu", m.b->size, m.v.size());
  CHECK(m.b->capacity >= m.b->size);
  CHECK(m.b->capacity == m.cap, "capacity %zu want %zu", m.b->capacity, m.cap);
  for (size_t i = 0; i < m.v.size(); ++i) if (m.v[i] >= 0) CHECK(((uint8_t *)m.b->ptr)[i] == m.v[i], "byte %zu", i);
}
static void blocks(In &in) {
  LiveBlocks live;
  M m[2]; std::vector<uint8_t *> lent;
  for (auto &x : m) { if (in.coin()) { x.b = nx_mem_block_alloc(); x.cap = 0; CHECK(!x.b->ptr && !x.b->size && !x.b->capacity); } else { size_t n = in.range(0, 40); x.b = nx_mem_block_new(n); x.v.assign(n, -1); x.cap = n; } check(x); }
  for (int ops = in.range(0, 40); ops > 0; --ops) {
    M &x = m[in.pick(2)], &y = m[in.pick(2)];
    switch (in.pick(9)) {
    case 0: { size_t n = in.range(0, 80); void *old = x.b->ptr; bool grow = n > x.cap; void *p = nx_mem_block_reserve(x.b, n); CHECK(p == x.b->ptr); if (grow) { x.cap = n; x.lent = nullptr; } else CHECK(p == old); break; }
    case 1: { size_t n = in.range(0, 80); void *old = x.b->ptr; bool grow = n > x.cap; void *p = nx_mem_block_resize(x.b, n); CHECK(p == x.b->ptr); if (grow) { x.cap = n; x.lent = nullptr; } else CHECK(p == old);
              size_t o = x.v.size(); x.v.resize(n, -1); (void)o; break; }
    case 2: nx_mem_block_release(x.b); x.v.clear(); x.cap = 0; x.lent = nullptr; CHECK(!x.b->ptr && !x.b->own_memory); break;
    case 3: { size_t c = in.range(1, 60), n = in.range(0, (int)c); bool own = in.coin(); uint8_t *p = (uint8_t *)malloc(c); for (size_t i = 0; i < c; ++i) p[i] = (uint8_t)(i * 7 + n);
              if (!own) lent.push_back(p);
              void *r = nx_mem_block_wrap(x.b, p, n, c, own ? NX_TRUE : NX_FALSE); CHECK(r == p && x.b->ptr == p); x.v.clear(); for (size_t i = 0; i < n; ++i) x.v.push_back(p[i]); x.cap = c; x.lent = own ? nullptr : p; break; }
    case 4: if (x.b != y.b) { void *p0 = x.b->ptr, *p1 = y.b->ptr; nx_mem_block_swap(x.b, y.b); CHECK(x.b->ptr == p1 && y.b->ptr == p0); std::swap(x.v, y.v); std::swap(x.cap, y.cap); std::swap(x.lent, y.lent); } break;
    case 5: { NXMemBlock *c = nx_mem_block_copy0(x.b); CHECK(c->size == x.v.size()); if (c->size) CHECK(c->ptr != x.b->ptr && c->own_memory); for (size_t i = 0; i < x.v.size(); ++i) if (x.v[i] >= 0) CHECK(((uint8_t *)c->ptr)[i] == x.v[i]); nx_mem_block_free(c); break; }
    case 6: if (x.b != y.b) { size_t n = x.v.size(); bool grow = n > y.cap; void *r = nx_mem_block_copy(y.b, x.b); CHECK(r == y.b->ptr); y.v = x.v; if (grow) { y.cap = n; y.lent = nullptr; } } break;
    case 7: nx_mem_block_set_zero(x.b); for (auto &c : x.v) c = 0; break;
    case 8: for (auto &c : x.v) { size_t i = &c - &x.v[0]; uint8_t b = in.u8(); ((uint8_t *)x.b->ptr)[i] = b; c = b; } break;
    }
    check(m[0]); check(m[1]);
  }
  for (auto &x : m) nx_mem_block_free(x.b);
  nx_mem_block_free(NULL);
  for (auto p : lent) { volatile uint8_t t = p[0]; (void)t; free(p); }   // lent memory is still alive and still ours
}
static bool same(const NXKeypoint &a, const NXKeypoint &b) { return a.id == b.id && a.level == b.level && a.x == b.x && a.y == b.y && a.xs == b.xs && a.ys == b.ys && a.sigma == b.sigma && a.scale == b.scale && a.score == b.score; }
static NXKeypoint mk(In &in) { NXKeypoint k; memset(&k, 0, sizeof k); k.x = in.range(0, 255); k.y = in.range(0, 255); k.xs = k.x * 2; k.ys = k.y - 3; k.level = in.range(0, 5); k.sigma = 1 + in.u8(); k.scale = 2; k.score = in.u8(); k.id = in.u8(); return k; }
static void cmp(const NXKeypointVector *v, const std::vector<NXKeypoint> &r) { CHECK(v->size == r.size(), "size %zu want %zu", v->size, r.size()); CHECK(v->capacity >= v->size); for (size_t i = 0; i < r.size(); ++i) CHECK(same(v->data[i], r[i]), "item %zu", i); }
static void vectors(In &in) {
  NXKeypointVector *v = in.coin() ? nx_keypoint_vector_alloc() : nx_keypoint_vector_new(in.range(0, 9)); std::vector<NXKeypoint> r;
  CHECK(v->size == 0);
  std::vector<NXKeypoint *> lent;
  for (int ops = in.range(0, 30); ops > 0; --ops) {
    switch (in.pick(8)) {
    case 0: case 1: { NXKeypoint k = mk(in); NXKeypoint *p = nx_keypoint_vector_push_back(v); CHECK(p == v->data + v->size - 1); *p = k; r.push_back(k); break; }
    case 2: { size_t n = in.range(0, 40), c0 = v->capacity; nx_keypoint_vector_reserve(v, n); CHECK(v->capacity >= n && v->capacity >= c0); break; }
    case 3: { size_t n = in.range(0, 20), o = r.size(); nx_keypoint_vector_resize(v, n); r.resize(n); CHECK(v->size == n); for (size_t i = o; i < n; ++i) r[i] = v->data[i] = mk(in); break; }
    case 4: nx_keypoint_vector_clear(v); r.clear(); break;
    case 5: nx_keypoint_vector_release(v); r.clear(); CHECK(!v->data && !v->capacity); break;
    case 6: { size_t c = in.range(1, 6), n = in.range(0, (int)c); bool own = in.coin(); NXKeypoint *a = (NXKeypoint *)malloc(c * sizeof *a); r.clear(); for (size_t i = 0; i < c; ++i) { a[i] = mk(in); if (i < n) r.push_back(a[i]); }
              if (!own) lent.push_back(a); nx_keypoint_vector_wrap(v, a, n, c, own ? NX_TRUE : NX_FALSE); CHECK(v->data == a && v->capacity == c); break; }
    case 7: { NXKeypointVector *c = in.coin() ? nx_keypoint_vector_copy0(v) : nullptr; if (!c) { c = nx_keypoint_vector_new(in.range(0, 5)); nx_keypoint_vector_copy(c, v); } cmp(c, r); if (c->size) CHECK(c->data != v->data); nx_keypoint_vector_free(c); break; }
    }
    cmp(v, r);
  }
  nx_keypoint_vector_free(v);
  for (auto p : lent) { volatile float t = p[0].x; (void)t; free(p); }
}
ENTRY {
  In in(data, size);
  bool b = in.coin();
  long l0 = g_live;
  if (b) blocks(in); else vectors(in);
  CHECK(g_live == l0, "%ld heap blocks leaked", g_live - l0);
  return 0;
}
