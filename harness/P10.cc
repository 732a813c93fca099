// P10 graphs: histories of insertions into both representations against a reference map
// MAXLEN: 300
#include "common.hpp"
#include "virg/nexus/nx_graph.h"
ENTRY {
  In in(data, size);
  LiveBlocks live;
  {
    int n = in.range(0, 9); std::string nm = in.str(6); bool named = in.coin();
    NXGraphAdjMat *m = nx_graph_new_adj_mat(named ? nm.c_str() : nullptr, n); NXGraphAdjLst *l = nx_graph_new_adj_lst(named ? nm.c_str() : nullptr, n);
    CHECK(std::string(m->name) == (named ? nm : "G") && std::string(l->name) == (named ? nm : "G")); CHECK(m->name != nm.c_str() && l->name != nm.c_str());
    std::map<std::pair<int, int>, double> ref;
    for (int ops = n ? in.range(0, 60) : 0; ops >= 0; --ops) {
      CHECK(m->n_v == n && l->n_v == n);
      CHECK(m->n_e == (int)ref.size(), "matrix edge count %d want %zu", m->n_e, ref.size()); CHECK(l->n_e == (int)ref.size(), "list edge count %d want %zu", l->n_e, ref.size());
      for (int i = 0; i < n; ++i) {
        int deg = 0;
        for (int j = 0; j < n; ++j) { auto it = ref.find({std::min(i, j), std::max(i, j)}); bool has = it != ref.end(); deg += has;
          CHECK(m->weights[i * n + j] == (has ? it->second : NX_ABSENT_EDGE_WEIGHT), "matrix %d %d", i, j);
          NXGraphEdge *e = nx_graph_edge_list_seach(l->edges[i], j); CHECK((e != nullptr) == has, "list %d %d", i, j); if (e) CHECK(e->v == j && e->weight == it->second); }
        int c = 0; for (NXGraphEdge *e = l->edges[i]; e; e = e->next) ++c; CHECK(c == deg, "vertex %d has %d nodes want %d", i, c, deg);
      }
      if (!ops) break;
      int v = in.pick(n), w = in.pick(n); double x = in.f64();
      nx_graph_insert_adj_mat(m, v, w, x); nx_graph_insert_adj_lst(l, v, w, x);
      if (v != w) ref[{std::min(v, w), std::max(v, w)}] = x;
    }
    nx_graph_free_adj_mat(m); nx_graph_free_adj_lst(l); nx_graph_free_adj_mat(nullptr); nx_graph_free_adj_lst(nullptr);
    NXGraphEdge *h = nullptr; std::vector<int> vs; for (int k = in.range(0, 8); k > 0; --k) { int v = in.pick(5); h = nx_graph_edge_new(v, k, h); vs.insert(vs.begin(), v); CHECK(h->v == v && h->weight == k); }
    for (int v = 0; v < 5; ++v) { NXGraphEdge *e = h, *r = nx_graph_edge_list_seach(h, v); while (e && e->v != v) e = e->next; CHECK(r == e, "first node of vertex"); }
    nx_graph_edge_list_free(h); nx_graph_edge_list_free(nullptr);
  }
  CHECK(live.now() <= 0, "%ld blocks leaked", live.now());
  return 0;
}
