// The structures below the search: the priority queue (spec/QueueJudge) and the graphs
// with their components (spec/ComponentsJudge).
#include <algorithm>
#include <stdexcept>
#include <type_traits>
#include <find_embedding/util.hpp>
#include <find_embedding/graph.hpp>
#include <find_embedding/pairing_queue.hpp>
#include "hcpp.hpp"

using std::string;
using std::vector;
typedef vector<vector<int>> vvi;
using namespace find_embedding;

template <typename tag>
static void queue_history(h::Rng& r, int k, std::ofstream& out, int sign) {
    typedef priority_node<int, tag> node;
    int n = r.chance(20) ? r.in(1, 4) : r.in(5, 60);
    int spread = r.chance(30) ? 2 : r.chance(50) ? 8 : 1000000000;
    int dirts = r.chance(50) ? 1 : r.chance(50) ? 3 : 1000000000;
    int greed = r.in(20, 70);
    auto fresh = [&]() { return pairing_queue<node>(n); };
    pairing_queue<node> pq(fresh());
    int room = n, inside = 0, id = 0;
    string ops = "[";
    auto op = [&](int code, int a, int b, int c) {
        ops += (ops.size() > 1 ? "," : "") + string("[") + std::to_string(code) + ",[" + std::to_string(a) + "," +
               std::to_string(b) + "," + std::to_string(c) + "]]";
    };
    for (int step = r.in(n, 3 * n); step--;) {
        op(5, pq.empty(), 0, 0);
        if (r.chance(2)) {
            pq.reset();
            op(4, 0, 0, 0);
            room = n;
            inside = 0;
        } else if (room && (!inside || r.chance(greed))) {
            int d = r.chance(5) ? 2147483647 : r.below(spread) - (r.chance(30) ? spread / 2 : 0);
            int t = r.below(dirts);
            pq.emplace(++id, t, d);
            op(1, d, t, id);
            room--;
            inside++;
        } else if (inside) {
            node x = pq.top();
            op(2, x.dist, x.dirt, x.node);
            if (r.chance(90)) {
                pq.pop();
                op(3, 0, 0, 0);
                inside--;
            }
        }
    }
    while (!pq.empty() && inside > 0) {
        node x = pq.top();
        op(2, x.dist, x.dirt, x.node);
        pq.pop();
        op(3, 0, 0, 0);
        inside--;
    }
    op(5, pq.empty(), 0, 0);
    out << h::Obj()("case", k)("sign", sign).raw("ops", ops + "]").str() << "\n";
}

static void queue_case(h::Rng& r, int k, std::ofstream& out) {
    if (r.chance(60)) queue_history<min_heap_tag>(r, k, out, 1);
    else queue_history<max_heap_tag>(r, k, out, -1);
}

static vvi up(vvi x) {
    for (auto& r : x)
        for (auto& e : r) e++;
    return x;
}
static vector<int> up(vector<int> x) {
    for (auto& e : x) e++;
    return x;
}

static void graph_case(h::Rng& r, int k, std::ofstream& out) {
    int n = r.in(1, 14);
    h::Edges es;
    int wish = r.chance(30) ? r.below(4) : r.below(2 * n);
    for (int j = 0; j < wish; j++) es.push_back({r.below(n), r.below(n)});
    if (r.chance(30) && es.size()) es.push_back({es[0].second, es[0].first});
    if (r.chance(30))
        for (int x = 0; x < n; x++) es.push_back({x, x});
    r.shuffle(es);
    graph::input_graph g;
    bool pushed = r.chance(50);
    vector<int> as, bs;
    for (auto& e : es) { as.push_back(e.first); bs.push_back(e.second); }
    if (!pushed) g = graph::input_graph(n, as, bs);
    else {
        if (r.chance(20)) { g.push_back(40, 2); g.clear(); }
        int top = 0;
        for (auto& e : es) { g.push_back(e.first, e.second); top = std::max({top, e.first + 1, e.second + 1}); }
        n = top;
    }
    vector<int> mark(n, 0), reserved;
    int how = r.below(4);
    if (how)
        for (int x = 0; x < n; x++)
            if (r.chance(how == 1 ? 20 : how == 2 ? 50 : 90)) { mark[x] = 1; reserved.push_back(x); }
    h::Obj row;
    row("case", k)("n", n)("edges", h::plus1(es))("reserved", up(reserved));
    row("nodes", static_cast<int>(g.num_nodes()))("num_edges", static_cast<int>(g.num_edges()));
    graph::components comps = how ? graph::components(g, mark) : graph::components(g);
    string cs = "[";
    int nc = static_cast<int>(comps.size());
    for (int c = 0; c < nc; c++) {
        const graph::input_graph& cg = comps.component_graph(c);
        h::Edges ce;
        for (size_t e = 0; e < cg.num_edges(); e++) ce.push_back({cg.a(e), cg.b(e)});
        cs += (c ? "," : "") + h::Obj()("nodes", up(comps.nodes(c)))("reserved", static_cast<int>(comps.num_reserved(c)))(
                                       "size", static_cast<int>(comps.size(c)))("edges", h::plus1(ce))(
                                       "nbrs", up(comps.component_neighbors(c))).str();
    }
    row.raw("comps", cs + "]");
    string ms = "[";
    for (int t = nc ? 4 : 0; t--;) {
        int c = r.below(nc);
        vector<int> asked, labels, back;
        for (int j = r.below(5); j--;)
            asked.push_back(r.chance(70) ? comps.nodes(c)[r.below(comps.nodes(c).size())] : r.in(-2, n + 2));
        bool ok = comps.into_component(c, asked, labels);
        if (ok) comps.from_component(c, labels, back);
        ms += (ms.size() > 1 ? "," : "") + h::Obj()("c", c + 1)("asked", up(asked))("ok", ok)("labels", up(labels))(
                                                   "back", up(back)).str();
    }
    row.raw("maps", ms + "]");
    string qs = "[";
    for (int t = 3; t--;) {
        vector<int> marked(n, 0), mk, rel(n), mask(n, 0), on;
        for (int x = 0; x < n; x++) {
            if (r.chance(35)) { marked[x] = 1; mk.push_back(x); }
            rel[x] = x;
        }
        bool relabelled = r.chance(60), masked = relabelled && r.chance(60);
        if (relabelled) r.shuffle(rel);
        // a mask is a union of components
        for (int c = 0; c < nc; c++)
            if (r.chance(60))
                for (int x : comps.nodes(c)) { mask[x] = 1; on.push_back(x); }
        int kind = r.below(3);
        // sources may also be given as a bound: nodes from b on
        int bound = -1;
        if (kind && r.chance(30)) {
            bound = r.in(0, n);
            mk.clear();
            for (int x = bound; x < n; x++) mk.push_back(x);
        }
        if (!kind) mk.clear();
        vvi nb;
        if (bound >= 0) {
            if (kind == 1) nb = masked ? g.get_neighbors_sources(bound, rel, mask) : relabelled ? g.get_neighbors_sources(bound, rel) : g.get_neighbors_sources(bound);
            else nb = masked ? g.get_neighbors_sinks(bound, rel, mask) : relabelled ? g.get_neighbors_sinks(bound, rel) : g.get_neighbors_sinks(bound);
        } else if (kind == 1) nb = masked ? g.get_neighbors_sources(marked, rel, mask) : relabelled ? g.get_neighbors_sources(marked, rel) : g.get_neighbors_sources(marked);
        else if (kind == 2) nb = masked ? g.get_neighbors_sinks(marked, rel, mask) : relabelled ? g.get_neighbors_sinks(marked, rel) : g.get_neighbors_sinks(marked);
        else nb = masked ? g.get_neighbors(rel, mask) : relabelled ? g.get_neighbors(rel) : g.get_neighbors();
        qs += (qs.size() > 1 ? "," : "") + h::Obj()("kind", kind)("marked", up(mk))("masked", masked)("mask", up(on))(
                                                   "relabel", up(rel))("nbrs", up(nb)).str();
    }
    row.raw("asks", qs + "]");
    out << row.str() << "\n";
}

int main(int argc, char** argv) { return case_main(argc, argv, {{"queue", queue_case}, {"graph", graph_case}}); }
