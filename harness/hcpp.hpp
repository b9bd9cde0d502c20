// What the C++ harnesses share: a reproducible generator and JSON output.
#pragma once
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace h {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull;
    }
    int below(int n) { return n <= 0 ? 0 : static_cast<int>((next() >> 33) % n); }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool chance(int percent) { return below(100) < percent; }
    template <typename T>
    void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(static_cast<int>(i))]);
    }
};

inline std::string js(int x) { return std::to_string(x); }
inline std::string js(size_t x) { return std::to_string(x); }
inline std::string js(bool x) { return x ? "true" : "false"; }
inline std::string js(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if (static_cast<unsigned char>(c) < 32) { o += ' '; continue; }
        o += c;
    }
    return o + "\"";
}
inline std::string js(const char* s) { return js(std::string(s)); }
template <typename A, typename B>
std::string js(const std::pair<A, B>& p) { return "[" + js(p.first) + "," + js(p.second) + "]"; }
template <typename T>
std::string js(const std::vector<T>& v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + js(v[i]);
    return o + "]";
}

struct Obj {
    std::string o = "{";
    template <typename T>
    Obj& operator()(const std::string& k, const T& v) {
        o += (o.size() > 1 ? "," : "") + js(k) + ":" + js(v);
        return *this;
    }
    Obj& raw(const std::string& k, const std::string& v) {
        o += (o.size() > 1 ? "," : "") + js(k) + ":" + v;
        return *this;
    }
    std::string str() const { return o + "}"; }
};

typedef std::vector<std::pair<int, int>> Edges;

// a random graph on nodes 0..n-1, connected unless `loose'
inline Edges random_graph(Rng& r, int n, int percent, bool loose = false) {
    std::set<std::pair<int, int>> es;
    for (int i = 1; i < n; i++)
        if (!loose || r.chance(80)) es.insert({r.below(i), i});
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
            if (r.chance(percent)) es.insert({i, j});
    Edges v(es.begin(), es.end());
    r.shuffle(v);
    return v;
}
inline Edges grid(int a, int b, bool king = false) {
    Edges v;
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++) {
            if (i + 1 < a) v.push_back({i * b + j, (i + 1) * b + j});
            if (j + 1 < b) v.push_back({i * b + j, i * b + j + 1});
            if (king && i + 1 < a && j + 1 < b) v.push_back({i * b + j, (i + 1) * b + j + 1});
        }
    return v;
}
// adjacency lists with 1-based ids, as the specifications take them
inline std::vector<std::vector<int>> adj1(int n, const Edges& es) {
    std::vector<std::vector<int>> a(n);
    for (auto& e : es)
        if (e.first != e.second) {
            a[e.first].push_back(e.second + 1);
            a[e.second].push_back(e.first + 1);
        }
    return a;
}
inline Edges plus1(const Edges& es) {
    Edges v;
    for (auto& e : es) v.push_back({e.first + 1, e.second + 1});
    return v;
}
}  // namespace h

// main loop of the cases, the protocol of hlib.main / vlib.run_cases:
//   OUT PROFILE SHARD NSHARDS START END
typedef std::function<void(h::Rng&, int, std::ofstream&)> CaseFn;
inline int case_main(int argc, char** argv, const std::map<std::string, CaseFn>& profiles) {
    if (argc < 7) return 2;
    std::ofstream out(argv[1], std::ios::app);
    auto it = profiles.find(argv[2]);
    if (it == profiles.end()) return 2;
    int shard = atoi(argv[3]), n = atoi(argv[4]), a = atoi(argv[5]), b = atoi(argv[6]);
    const char* sd = getenv("VERIF_SEED");
    uint64_t seed = sd ? strtoull(sd, nullptr, 10) : 1;
    for (int k = a; k < b; k++) {
        if (k % n != shard) continue;
        out << "{\"begin\":" << k << "}" << std::endl;
        h::Rng r(seed * 1000003ull + k * 7919ull + 17);
        it->second(r, k, out);
        out.flush();
    }
    out << "{\"end\":1}" << std::endl;
    return 0;
}
