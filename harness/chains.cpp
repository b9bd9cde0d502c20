// The chains of an embedding: random histories of the operations of embedding.hpp and
// chain.hpp, and what the search does to them.  Every state is recorded in full
// (spec/ChainJudge, spec/SearchJudge).
#include <cstdlib>
#include <find_embedding/find_embedding.hpp>
#include "hcpp.hpp"

using namespace find_embedding;
using std::string;
using std::vector;
typedef vector<vector<int>> vvi;

class Silent : public LocalInteraction {
    void displayOutputImpl(int, const string&) const override {}
    void displayErrorImpl(int, const string&) const override {}
    bool cancelledImpl() const override { return false; }
};

// one chain as [[node, parent, refs]...], [[variable, node]...], all ids from 1
template <typename E>
static string chain_js(const E& emb, int u, int nv) {
    vector<vector<int>> data, links;
    const chain& c = emb.get_chain(u);
    for (auto& q : c) data.push_back({q + 1, c.parent(q) + 1, c.refcount(q)});
    for (int v = 0; v < nv; v++)
        if (c.get_link(v) >= 0) links.push_back({v + 1, c.get_link(v) + 1});
    return h::Obj()("data", data)("links", links).str();
}
template <typename E>
static string emb_js(const E& emb, int nv) {
    string s = "[";
    for (int u = 0; u < nv; u++) s += (u ? "," : "") + chain_js(emb, u, nv);
    return s + "]";
}
static vvi up(const vvi& x) {
    vvi y = x;
    for (auto& r : y)
        for (auto& e : r) e++;
    return y;
}

struct Setup {
    int ns, nt;
    h::Edges se, te;
    optional_parameters params;
    graph::input_graph S, T;
    explicit Setup(h::Rng& r, bool big) {
        ns = r.in(2, big ? 7 : 5);
        se = h::random_graph(r, ns, r.chance(50) ? 30 : 60);
        switch (r.below(4)) {
            case 0: nt = 3 * r.in(3, big ? 6 : 4); te = h::grid(nt / 3, 3, r.chance(50)); break;
            case 1: nt = r.in(5, 12); te = h::random_graph(r, nt, 30); break;
            case 2: nt = r.in(6, big ? 16 : 10); te = h::grid(1, nt); te.push_back({0, nt - 1});
                    if (r.chance(50)) te.push_back({0, nt / 2}); break;
            default: nt = r.in(5, big ? 16 : 10); te = h::random_graph(r, nt, 15);
        }
        for (auto& e : se) S.push_back(e.first, e.second);
        for (auto& e : te) T.push_back(e.first, e.second);
        params.localInteractionPtr.reset(new Silent());
        params.seed(r.next());
        params.verbose = 0;
    }
    vector<int> ball(h::Rng& r, int size, const std::set<int>& avoid = {}) {
        vvi a = h::adj1(nt, te);
        vector<int> c;
        int q = r.below(nt);
        if (avoid.count(q)) return c;
        c.push_back(q);
        for (int i = 0; i < 4 * size && static_cast<int>(c.size()) < size; i++) {
            auto& n = a[c[r.below(static_cast<int>(c.size()))]];
            if (n.empty()) break;
            int w = n[r.below(static_cast<int>(n.size()))] - 1;
            bool have = avoid.count(w);
            for (int x : c) have |= x == w;
            if (!have) c.push_back(w);
        }
        return c;
    }
    void hints(h::Rng& r) {
        std::set<int> used;
        if (r.chance(40))
            for (int v = 0; v < ns - 1; v++)
                if (r.chance(35) && static_cast<int>(params.fixed_chains.size()) < ns - 1) {
                    auto c = ball(r, r.in(1, 2), used);
                    if (c.empty()) continue;
                    // leave something to search in
                    if (static_cast<int>(used.size() + c.size()) > nt - 3) break;
                    params.fixed_chains[v] = c;
                    used.insert(c.begin(), c.end());
                }
        if (r.chance(60))
            for (int v = 0; v < ns; v++)
                if (r.chance(60)) params.initial_chains[v] = ball(r, r.in(1, 3));
        if (r.chance(35))
            for (int v = 0; v < ns; v++)
                if (r.chance(60)) params.restrict_chains[v] = ball(r, r.in(2, nt));
    }
};

template <typename ep_t>
static void context(h::Obj& o, ep_t& ep, const vvi& var_nbrs, const vvi& qubit_nbrs) {
    int nv = ep.num_vars() + ep.num_fixed(), nq = ep.num_qubits() + ep.num_reserved();
    vvi dom(nv);
    vector<int> fixed, reserved;
    for (int v = 0; v < nv; v++) {
        if (ep.fixed(v)) fixed.push_back(v + 1);
        for (int q = 0; q < nq; q++)
            if (ep.accepts_qubit(v, q)) dom[v].push_back(q + 1);
    }
    for (int q = 0; q < nq; q++)
        if (ep.reserved(q)) reserved.push_back(q + 1);
    o("nv", nv)("nq", nq)("dom", dom)("fixed", fixed)("reserved", reserved);
    o("nbrs", up(var_nbrs))("tadj", up(qubit_nbrs));
}
static string hints_js(const std::map<int, vector<int>>& m) {
    string s = "[";
    for (auto& kv : m) {
        vector<int> c;
        for (int q : kv.second) c.push_back(q + 1);
        s += (s.size() > 1 ? "," : "") + string("[") + h::js(kv.first + 1) + "," + h::js(c) + "]";
    }
    return s + "]";
}

// a tree that leads to the chain of v: breadth first, depth first, or in between
template <typename ep_t, typename E>
static void lead(h::Rng& r, ep_t& ep, const E& emb, int v, vector<int>& par, vector<distance_t>& dist,
                 vector<int>& vis) {
    int nq = ep.num_qubits() + ep.num_reserved();
    par.assign(nq, -1);
    dist.assign(nq, 0);
    vis.assign(nq, 0);
    vector<std::pair<int, int>> open;   // (node, parent)
    for (auto& q : emb.get_chain(v)) {
        vis[q] = 1;
        for (auto& p : ep.qubit_neighbors(q)) open.push_back({p, q});
    }
    r.shuffle(open);
    int mode = r.below(3);
    size_t head = 0;
    while (head < open.size()) {
        size_t at = mode == 0 ? head : mode == 1 ? open.size() - 1 : head + r.below(static_cast<int>(open.size() - head));
        auto e = open[at];
        if (mode == 0) head++;
        else { open[at] = open.back(); open.pop_back(); }
        if (vis[e.first] || ep.reserved(e.first)) continue;
        vis[e.first] = 1;
        par[e.first] = e.second;
        dist[e.first] = dist[e.second] + 1;
        for (auto& p : ep.qubit_neighbors(e.first)) open.push_back({p, e.first});
    }
}

template <bool fixed, bool restricted>
static void ops(h::Rng& r, Setup& s, std::ofstream& out, int k) {
    parameter_processor pp(s.S, s.T, s.params);
    typedef typename pathfinder_type<false, fixed, restricted, false>::embedding_problem_t ep_t;
    ep_t ep(pp.params, pp.num_vars - pp.num_fixed, pp.num_fixed, pp.problem_qubits - pp.problem_reserved,
            pp.problem_reserved, pp.var_nbrs, pp.qubit_nbrs);
    typedef embedding<ep_t> emb_t;
    int nl = ep.num_vars(), nv = nl + ep.num_fixed(), nq = ep.num_qubits() + ep.num_reserved();
    h::Obj row;
    row("case", k)("what", "ops");
    context(row, ep, pp.var_nbrs, pp.qubit_nbrs);
    row.raw("fixchains", hints_js(pp.params.fixed_chains)).raw("initial", hints_js(pp.params.initial_chains));
    emb_t emb(ep, pp.params.fixed_chains, pp.params.initial_chains);
    row.raw("start", emb_js(emb, nv));
    string steps = "[";
    int frozen = -1, n = r.in(4, 14);
    vvi parents(nv, vector<int>(nq, -1)), vis(nv, vector<int>(nq, 0));
    vector<vector<distance_t>> dist(nv, vector<distance_t>(nq, 0));
    for (int i = 0; i < n; i++) {
        int u = r.below(nl), t = 0, q = -1;
        string op;
        h::Obj x;
        // what was put away has to come back before others change
        if (frozen >= 0) u = frozen;
        if (r.chance(20)) {    // the neighbours are visited in another order
            vector<int>& nb = const_cast<vector<int>&>(ep.var_neighbors(u));
            r.shuffle(nb);
        }
        switch (r.below(9)) {
            case 0: case 1: case 2: op = "construct"; break;
            case 3: op = "steiner"; break;
            case 4: op = "steal"; break;
            case 5: case 6: op = "flip"; break;
            case 7: op = "freeze"; break;
            default: op = "tear";
        }
        bool laid = emb.chainsize(u) > 0 && emb.get_chain(u).get_link(u) >= 0;
        // freezing discards what was frozen before
        if (frozen >= 0 && emb.chainsize(u) == 0 && r.chance(40)) op = "thaw";
        else if (frozen >= 0 && emb.chainsize(u) > 0) op = "tear";
        else if (frozen >= 0 && op != "construct" && op != "steiner") op = "thaw";
        if (frozen < 0 && (op == "steal" || op == "flip" || op == "freeze") && !laid) op = "construct";
        if (op == "flip") {
            // needs links to every neighbour with a chain
            for (auto& v : ep.var_neighbors(u))
                if (emb.chainsize(v) && (emb.get_chain(u).get_link(v) < 0 || emb.get_chain(v).get_link(u) < 0)) op = "steal";
        }
        if (op == "construct" || op == "steiner") {
            if (frozen < 0) {
                emb.tear_out(u);
                steps += (steps.size() > 1 ? "," : "") +
                         h::Obj()("op", "tear")("u", u + 1)("order", up({ep.var_neighbors(u)})[0]).raw("emb", emb_js(emb, nv)).str();
            }
            vector<int> roots;
            for (int c = 0; c < ep.num_qubits(); c++)
                if (ep.accepts_qubit(u, c)) roots.push_back(c);
            for (auto& v : ep.var_neighbors(u)) {
                if (!emb.chainsize(v)) continue;
                lead(r, ep, emb, v, parents[v], dist[v], vis[v]);
                vector<int> keep;
                for (int c : roots)
                    if (vis[v][c]) keep.push_back(c);
                roots = keep;
            }
            if (roots.empty()) continue;
            q = roots[r.below(static_cast<int>(roots.size()))];
            vvi par1, d1;
            for (int v = 0; v < nv; v++) {
                vector<int> p(nq), d(nq);
                for (int c = 0; c < nq; c++) {
                    p[c] = parents[v][c] + 1;
                    d[c] = vis[v][c] == 1 ? static_cast<int>(dist[v][c]) : -1;
                }
                par1.push_back(p);
                d1.push_back(d);
            }
            x("parents", par1)("q", q + 1);
            if (op == "steiner") {
                x("dist", d1);
                emb.construct_chain_steiner(u, q, parents, dist, vis);
            } else
                emb.construct_chain(u, q, parents);
        } else if (op == "steal") emb.steal_all(u);
        else if (op == "flip") {
            t = r.chance(40) ? 0 : r.in(1, 5);
            emb.flip_back(u, t);
        } else if (op == "tear") emb.tear_out(u);
        else if (op == "freeze") {
            int size = emb.freeze_out(u);
            x("size", size);
            frozen = u;
        } else {
            emb.thaw_back(u);
            frozen = -1;
        }
        vector<int> stats, weights, linked;
        int flag = emb.statistics(stats);
        for (int c = 0; c < nq; c++) weights.push_back(emb.weight(c));
        for (int v = 0; v < nl; v++)
            if (emb.linked(v)) linked.push_back(v + 1);
        x("op", op)("u", u + 1)("t", t)("order", up({ep.var_neighbors(u)})[0]);
        x("stats", stats)("flag", flag)("weights", weights)("linked", linked)("all", emb.linked());
        x("maxw", emb.max_weight());
        x.raw("emb", emb_js(emb, nv));
        steps += (steps.size() > 1 ? "," : "") + x.str();
    }
    // copies are independent of the original
    emb_t copy(ep), other(ep);
    copy = emb;
    string cj = emb_js(copy, nv);
    int u = r.below(nl);
    emb.tear_out(u);
    vector<int> w;
    for (int c = 0; c < nq; c++) w.push_back(copy.weight(c));
    row.raw("copy", cj).raw("copy2", emb_js(copy, nv))("copyw", w);
    row.raw("steps", steps + "]");
    out << row.str() << "\n";
}

static void ops_case(h::Rng& r, int k, std::ofstream& out) {
    Setup s(r, false);
    s.hints(r);
    try {
        bool f = s.params.fixed_chains.size(), d = s.params.restrict_chains.size();
        if (f && d) ops<true, true>(r, s, out, k);
        else if (f) ops<true, false>(r, s, out, k);
        else if (d) ops<false, true>(r, s, out, k);
        else ops<false, false>(r, s, out, k);
    } catch (const CorruptParametersException&) {
        // chains outside of the component that is searched
    } catch (const MinorMinerException& e) {
        out << h::Obj()("case", k)("error", e.what()).str() << "\n";
    }
}

// ------------------------------------------------------------- what a search does
template <typename PF, typename ep_t>
class Watched : public PF {
  public:
    vector<string> shots;
    size_t limit = 40;
    int skip;
    const vvi &vn, &qn;
    Watched(optional_parameters& p, int a, int b, int c, int d, vvi& v, vvi& q, int skip_)
            : PF(p, a, b, c, d, v, q), skip(skip_), vn(v), qn(q) {}
    virtual void prepare_root_distances(const embedding<ep_t>& emb, const int u) override {
        PF::prepare_root_distances(emb, u);
        if (skip-- > 0 || shots.size() >= limit) return;
        int nv = this->num_vars + this->num_fixed, nq = this->num_qubits + this->num_reserved;
        h::Obj o;
        o("u", u + 1)("bound", std::min(this->ep.weight_bound, 1000))("embedded", this->ep.embedded)(
                "id", static_cast<int>((reinterpret_cast<size_t>(&emb) >> 4) & 0xffff))("order", up({this->ep.var_neighbors(u)})[0]);
        o.raw("emb", emb_js(emb, nv));
        vector<int> w, weights, total;
        bool fits = true;
        auto num = [&fits](distance_t d) {
            if (d == max_distance) return -1;
            if (d < 0 || d > 1000000000) { fits = false; return -2; }
            return static_cast<int>(d);
        };
        for (int q = 0; q < nq; q++) weights.push_back(emb.weight(q));
        for (int q = 0; q < this->num_qubits; q++) {
            w.push_back(num(this->qubit_weight[q]));
            total.push_back(num(this->total_distance[q]));
        }
        vvi d, par;
        vector<int> seen;
        for (int v : this->ep.var_neighbors(u)) {
            vector<int> dv, pv;
            if (!emb.chainsize(v)) continue;
            for (int q = 0; q < nq; q++) {
                dv.push_back(q < this->num_qubits && this->visited_list[v][q] == 1 ? num(this->distances[v][q]) : -1);
                pv.push_back(this->parents[v][q] + 1);
            }
            seen.push_back(v + 1);
            d.push_back(dv);
            par.push_back(pv);
        }
        o("fits", fits)("weights", weights)("w", w)("total", total)("seen", seen)("d", d)("par", par);
        shots.push_back(o.str());
    }
};

template <bool parallel, bool fixed, bool restricted>
static void search(h::Rng& r, Setup& s, std::ofstream& out, int k) {
    parameter_processor pp(s.S, s.T, s.params);
    typedef pathfinder_type<parallel, fixed, restricted, false> types;
    typedef typename types::embedding_problem_t ep_t;
    Watched<typename types::pathfinder_t, ep_t> pf(pp.params, pp.num_vars - pp.num_fixed, pp.num_fixed,
                                                   pp.problem_qubits - pp.problem_reserved, pp.problem_reserved,
                                                   pp.var_nbrs, pp.qubit_nbrs, r.chance(60) ? 0 : r.below(30));
    ep_t ep(pp.params, pp.num_vars - pp.num_fixed, pp.num_fixed, pp.problem_qubits - pp.problem_reserved,
            pp.problem_reserved, pp.var_nbrs, pp.qubit_nbrs);
    h::Obj row;
    row("case", k)("what", "search")("parallel", parallel);
    context(row, ep, pp.var_nbrs, pp.qubit_nbrs);
    int ret = -1;
    try {
        ret = pf.heuristicEmbedding();
    } catch (const BadInitializationException&) {
        ret = -2;
    }
    string a = "[";
    for (auto& x : pf.shots) a += (a.size() > 1 ? "," : "") + x;
    row("ret", ret).raw("shots", a + "]");
    out << row.str() << "\n";
}

static void search_case(h::Rng& r, int k, std::ofstream& out) {
    Setup s(r, true);
    s.hints(r);
    auto& p = s.params;
    // weights small enough to be numbers of the specification
    double betas[] = {1, 1.5, 2, 2.5, 3};
    p.max_beta = betas[r.below(5)];
    p.tries = r.in(1, 2);
    p.max_no_improvement = r.in(1, 3);
    p.inner_rounds = r.in(1, 8);
    p.chainlength_patience = r.in(0, 2);
    p.threads = r.chance(30) ? r.in(2, 4) : 1;
    if (r.chance(20)) p.max_fill = r.in(1, 4);
    try {
        bool f = p.fixed_chains.size(), d = p.restrict_chains.size();
        if (p.threads > 1) {
            if (f && d) search<true, true, true>(r, s, out, k);
            else if (f) search<true, true, false>(r, s, out, k);
            else if (d) search<true, false, true>(r, s, out, k);
            else search<true, false, false>(r, s, out, k);
        } else {
            if (f && d) search<false, true, true>(r, s, out, k);
            else if (f) search<false, true, false>(r, s, out, k);
            else if (d) search<false, false, true>(r, s, out, k);
            else search<false, false, false>(r, s, out, k);
        }
    } catch (const CorruptParametersException&) {
    } catch (const MinorMinerException& e) {
        out << h::Obj()("case", k)("error", e.what()).str() << "\n";
    }
}

int main(int argc, char** argv) { return case_main(argc, argv, {{"ops", ops_case}, {"search", search_case}}); }
