// Runs the heuristic through its entry point and records what it says and asks, in order:
// every message and every poll.  Polls are answered by a plan (go on, out of time,
// cancelled), so a stop can be placed at any of them.  One row per run (spec/DriverTrace).
#include <cstdlib>
#include <cstring>
#include <find_embedding/find_embedding.hpp>
#include "hcpp.hpp"

using namespace find_embedding;
using std::string;
using std::vector;

struct Tape {
    vector<string> events;     // JSON of the events
    vector<int> levels;
    int polls = 0, stop_at = -1, kind = 0;
    bool sticky = false;
    void ev(const char* k, int a, int b, int level) {
        events.push_back("[" + h::js(k) + "," + h::js(a) + "," + h::js(b) + "]");
        levels.push_back(level);
    }
    int answer() {
        int n = polls++;
        return (stop_at >= 0 && (n == stop_at || (sticky && n > stop_at))) ? kind : 0;
    }
};

class Recorder : public LocalInteraction {
    Tape& t;
    mutable int pending = -1;

  public:
    explicit Recorder(Tape& tape) : t(tape) {}

  private:
    void displayOutputImpl(int level, const string& msg) const override {
        int a, b;
        const char* m = msg.c_str();
        if (!strncmp(m, "initialized", 11)) t.ev("init", 0, 0, level);
        else if (!strncmp(m, "embedding found.", 16)) t.ev("found", 0, 0, level);
        else if (sscanf(m, "max qubit fill %d; num maxfull qubits=%d", &a, &b) == 2) t.ev("fill", a, b, level);
        else if (sscanf(m, "max chain length %d; num max chains=%d", &a, &b) == 2) t.ev("chain", a, b, level);
        else if (sscanf(m, " num max qubits=%d", &a) == 1) t.ev("minor", a, 0, level);
        else if (sscanf(m, " num max chains=%d", &a) == 1) t.ev("minor", a, 0, level);
        else if (sscanf(m, "embedding trial %d", &a) == 1) t.ev("trial", a, 0, level);
        else if (sscanf(m, "overfill improvement pass (%d more", &a) == 1) t.ev("pass", a, 0, level);
        else if (sscanf(m, "max qubit fill %d, num max qubits %d", &a, &b) == 2) t.ev("passq", a, b, level);
        else if (!strncmp(m, "reducing chain lengths", 22)) t.ev("reduce", 0, 0, level);
        else if (sscanf(m, "chainlength improvement pass (%d more", &a) == 1) t.ev("cpass", a, 0, level);
        else if (sscanf(m, "max chain length %d, num of max chains %d", &a, &b) == 2) t.ev("cpassq", a, b, level);
        else if (!strncmp(m, "problem timed out", 17)) t.ev("stop", 1, 0, level);
        else if (!strncmp(m, "problem cancelled", 17)) t.ev("stop", 2, 0, level);
        else t.ev("unknown", 0, 0, level);
    }
    void displayErrorImpl(int level, const string& msg) const override { t.ev("error", 0, 0, level); }
    bool cancelledImpl() const override {
        pending = t.answer();
        t.ev("poll", pending, 0, 0);
        return pending == 2;
    }
    bool timedOutImpl(const find_embedding::clock::time_point) const override { return pending == 1; }
};

struct Problem {
    int ns, nt;
    h::Edges se, te;
    int tries, mni, inner, cp, skip, interactive, threads, max_fill;
    uint64_t seed;
    std::map<int, vector<int>> init;
};

struct Result {
    int ret = -1, exc = 0;
    vector<vector<int>> chains;
};

static Result run(const Problem& p, Tape& t, int verbose, bool overlap) {
    graph::input_graph S, T;
    for (auto& e : p.se) S.push_back(e.first, e.second);
    for (auto& e : p.te) T.push_back(e.first, e.second);
    optional_parameters o;
    o.localInteractionPtr.reset(new Recorder(t));
    o.rng.seed(static_cast<unsigned>(p.seed));
    o.tries = p.tries;
    o.max_no_improvement = p.mni;
    o.inner_rounds = p.inner;
    o.chainlength_patience = p.cp;
    o.skip_initialization = p.skip;
    o.interactive = p.interactive;
    o.threads = p.threads;
    o.verbose = verbose;
    o.timeout = 1000;
    o.return_overlap = overlap;
    if (p.max_fill) o.max_fill = p.max_fill;
    o.initial_chains = p.init;
    Result r;
    try {
        r.ret = findEmbedding(S, T, o, r.chains);
        t.ev("end", r.ret, 0, 0);
    } catch (const BadInitializationException&) {
        r.exc = 1;
        t.ev("exc", 1, 0, 0);
    } catch (const ProblemCancelledException&) {
        r.exc = 2;
        t.ev("exc", 2, 0, 0);
    } catch (const TimeoutException&) {
        r.exc = 4;
        t.ev("exc", 4, 0, 0);
    } catch (const std::exception&) {
        r.exc = 3;
        t.ev("exc", 3, 0, 0);
    }
    return r;
}

static string events(const Tape& t, int upto = 9) {
    string o = "[";
    bool first = true;
    for (size_t i = 0; i < t.events.size(); i++)
        if (t.levels[i] <= upto) {
            o += (first ? "" : ",") + t.events[i];
            first = false;
        }
    return o + "]";
}

static Problem make(h::Rng& r) {
    Problem p;
    p.ns = r.in(2, 9);
    switch (r.below(4)) {
        case 0: p.se = h::random_graph(r, p.ns, 100); break;
        case 1: p.se = h::random_graph(r, p.ns, 30); break;
        default: p.se = h::random_graph(r, p.ns, r.in(10, 70)); break;
    }
    switch (r.below(4)) {
        case 0: { int a = r.in(2, 5), b = r.in(3, 6); p.te = h::grid(a, b); p.nt = a * b; break; }
        case 1: { int a = r.in(2, 5), b = r.in(3, 5); p.te = h::grid(a, b, true); p.nt = a * b; break; }
        case 2: p.nt = r.in(4, 20); p.te = h::random_graph(r, p.nt, r.in(5, 30)); break;
        default: p.nt = r.in(4, 30); p.te = h::random_graph(r, p.nt, 8); break;
    }
    p.tries = r.in(0, 4);
    if (p.tries == 0 && r.chance(70)) p.tries = 2;
    p.mni = r.in(0, 4);
    p.inner = r.chance(50) ? 2147483647 : r.in(1, 6);
    p.cp = r.in(0, 4);
    p.skip = 0;
    p.interactive = r.below(2);
    p.threads = r.chance(85) ? 1 : r.in(2, 3);
    p.max_fill = r.chance(85) ? 0 : r.in(1, 4);
    p.seed = r.next() & 0x7fffffff;
    return p;
}

static void emit(std::ofstream& out, int k, const Problem& p, const Tape& t, const Result& r,
                 const vector<string>& quiet, bool overlap) {
    vector<vector<int>> emb;
    for (auto& c : r.chains) {
        vector<int> d;
        for (int q : c) d.push_back(q + 1);
        emb.push_back(d);
    }
    vector<vector<int>> init(p.ns);
    for (auto& kv : p.init)
        for (int q : kv.second) init[kv.first].push_back(q + 1);
    h::Obj o;
    o("case", k)("ns", p.ns)("nt", p.nt)("sedges", h::plus1(p.se))("tadj", h::adj1(p.nt, p.te));
    o("tries", p.tries)("mni", p.mni)("inner", p.inner)("cp", p.cp)("skip", p.skip)("interactive", p.interactive);
    o("overlap", overlap)("ret", r.ret)("exc", r.exc)("stopat", t.stop_at)("kind", t.kind)("polls", t.polls);
    o.raw("events", events(t))("emb", emb)("init", init);
    string q = "[";
    for (size_t i = 0; i < quiet.size(); i++) q += (i ? "," : "") + quiet[i];
    o.raw("quiet", q + "]");
    o.raw("levels", quiet.size() ? "[" + events(t, 0) + "," + events(t, 1) + "," + events(t, 2) + "]" : "[]");
    out << o.str() << "\n";
}

// every run, then the same run stopped at (some of) its polls
static void stops(h::Rng& r, int k, std::ofstream& out) {
    Problem p = make(r);
    bool overlap = r.chance(60);
    Tape t;
    Result res = run(p, t, 3, overlap);
    vector<string> quiet;
    if (r.chance(30))
        for (int v = 0; v < 3; v++) {
            Tape tv;
            Result rv = run(p, tv, v, overlap);
            quiet.push_back(events(tv));
            if (rv.chains != res.chains) quiet.back() = "[[\"different\",0,0]]";
        }
    emit(out, k, p, t, res, quiet, overlap);
    vector<int> at;
    for (int i = 0; i < t.polls; i++) at.push_back(i);
    r.shuffle(at);
    if (at.size() > 5) at.resize(5);
    for (int i : at) {
        Problem q = p;
        q.interactive = r.below(2);
        Tape s;
        s.stop_at = i;
        s.kind = r.in(1, 2);
        s.sticky = s.kind == 1;
        Result rs = run(q, s, 3, overlap);
        emit(out, k, q, s, rs, {}, overlap);
    }
    // go on from what was found: the whole search starts from its own result
    if (res.chains.size() && res.ret == 1) {
        Problem q = p;
        q.seed = r.next() & 0x7fffffff;
        for (int v = 0; v < p.ns; v++) q.init[v] = res.chains[v];
        q.skip = r.below(2);
        q.cp = r.in(0, 3);
        q.max_fill = 0;
        Tape s;
        if (r.chance(30)) { s.stop_at = r.below(4); s.kind = r.in(1, 2); s.sticky = s.kind == 1; }
        Result rs = run(q, s, 3, overlap);
        emit(out, k, q, s, rs, {}, overlap);
    } else if (res.chains.size() && res.exc == 0) {
        Problem q = p;
        for (int v = 0; v < p.ns; v++) q.init[v] = res.chains[v];
        q.skip = r.below(2);
        if (r.chance(30)) q.init.erase(r.below(p.ns));
        Tape s;
        Result rs = run(q, s, 3, overlap);
        for (auto& kv : q.init) (void)kv;
        emit(out, k, q, s, rs, {}, overlap);
    }
}

int main(int argc, char** argv) { return case_main(argc, argv, {{"stops", stops}}); }
