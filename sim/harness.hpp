// Plans, seeded search, gate, minimisation, replay.  See DESIGN.md.
#pragma once
#include "rt.hpp"
#include <cstdint>
#include <map>
#include <string>
#include <vector>

struct Op {
    int k = 0;
    std::vector<int64_t> a;
    // total access: missing arguments read as 0
    int64_t at(size_t i) const { return i < a.size() ? a[i] : 0; }
    // argument folded into lo..hi
    int64_t in(size_t i, int64_t lo, int64_t hi) const {
        int64_t v = at(i), n = hi - lo + 1;
        if (v >= lo && v <= hi) return v;
        v %= n;
        if (v < 0) v += n;
        return lo + v;
    }
};
struct Plan {
    std::map<std::string, int64_t> args;
    std::vector<Op> ops;
    int64_t get(const char* k, int64_t d = 0) const {
        auto it = args.find(k);
        return it == args.end() ? d : it->second;
    }
    int64_t in(const char* k, int64_t lo, int64_t hi) const {
        Op o;
        o.a.push_back(get(k, lo));
        return o.in(0, lo, hi);
    }
    void set(const char* k, int64_t v) { args[k] = v; }
    void op(int k, std::initializer_list<int64_t> a = {}) { Op o; o.k = k; o.a = a; ops.push_back(o); }
};

struct Known { std::string key, what; Plan plan; };

// Each property's driver provides these.
struct Scenario {
    const char* prop;
    std::vector<const char*> opnames;
    void (*gen)(Rng&, Plan&);
    void (*run)(const Plan&);
    std::vector<Known> (*directed)() = nullptr;    // directed regression / known-finding cases
    const char* rule = "";
    const char* real = "";
    const char* stub = "";
};
extern Scenario scenario();

// Environment swarm.  what: bit 0 parallel teams, 1 allocator variety, 2 alloc fill garbage
enum { ENV_TEAM = 1, ENV_ALLOC = 2, ENV_FILL = 4, ENV_ALL = 7 };
void gen_env(Rng& r, Plan& p, int what);

std::string scratch_dir();   // created by the parent, removed at the end
