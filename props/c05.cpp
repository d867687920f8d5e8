// C05: every parameter an optimizer updates follows that optimizer's rule applied to its own history.
#include "kernels.hpp"
#include <memory>
#include <set>

enum { P_NEW, P_DEL, P_STEP, P_ASSIGN, P_COPYOPT, P_MOVEOPT, P_BADSTEP, P_STEALVAL, P_LONG, P_CROWD, NP };
static const char* const NM[NP] = {"new", "del", "step", "assign", "copyopt", "moveopt", "badstep", "moveinto", "steps", "crowd"};
static constexpr int NSLOT = 5, NOPT = 3;

struct Ref {                       // one parameter as one optimizer knows it
    vector<double> a, b, c;        // buffers
    int it = 0;
};
struct Slot {
    TF* t = nullptr;
    vector<double> w;
    uint64_t life = 0;
    bool vague = false;            // a failed update left two possible histories
    double slack = 1;              // rounding builds up over long histories
};
struct Opt {
    std::unique_ptr<Optimizer<float>> o;
    int kind = 0;
    SGDOptions<float> s;
    RMSPropOptions<float> r;
    AdamOptions<float> ad;
    std::map<uint64_t, Ref> st;    // by parameter lifetime
};
static void options(Opt& o, int64_t v) {
    Rng r((uint64_t)v);
    o.kind = (int)(v % 3);
    static const float lrs[] = {0.5f, 0.1f, 0.01f, 0.001f};
    o.s.learningRate = o.r.learningRate = o.ad.learningRate = r.pick(lrs);
    if (o.r.learningRate > 0.1f) o.r.learningRate = 0.1f;
    { static const float mo[] = {0, 0.1f, 0.5f, 0.75f, 0.9f, 0.9f, 0.99f}; o.s.momentum = r.pick(mo); }
    { static const float da[] = {0.1f, 0.25f, 0.6f, 0.9f, 1.0f}; if (r.chance(1, 3)) o.s.dampening = r.pick(da); }
    { static const float de[] = {0.001f, 0.05f, 0.05f, 0.5f}; if (r.chance(1, 3)) o.s.weightDecay = o.r.weightDecay = r.pick(de); }
    if (r.chance(1, 3)) { o.s.nesterov = true; if (r.chance(1, 2)) o.s.dampening = 0; }
    { static const float al[] = {0.99f, 0.75f, 0.5f}; o.r.alpha = r.pick(al); }
    if (r.chance(1, 2)) o.r.momentum = r.chance(1, 2) ? 0.5f : r.chance(1, 2) ? 0.9f : 0.1f;
    if (r.chance(1, 3)) o.r.epsilon = r.chance(1, 2) ? 1e-3f : 0.5f;
    // centered: the variance is a difference of near-equal numbers, and epsilon decides
    // how precisely the step is known; with the default only its finiteness is
    if (r.chance(1, 2)) { o.r.centered = true; o.r.epsilon = r.chance(1, 2) ? 1e-8f : 1e-2f; }
    if (r.chance(1, 3)) { static const float b[] = {0, 0.1f, 0.5f, 0.8f, 0.95f}; o.ad.beta1 = r.pick(b); }
    if (r.chance(1, 3)) { static const float b[] = {0.5f, 0.9f, 0.99f}; o.ad.beta2 = r.pick(b); }
    if (r.chance(1, 4)) { static const float e[] = {1e-6f, 1e-3f, 0.1f}; o.ad.epsilon = r.pick(e); }
    if (r.chance(1, 3)) o.ad.l1Strength = r.chance(1, 2) ? 0.03f : r.chance(1, 2) ? 0.3f : 0.002f;
    if (r.chance(1, 3)) o.ad.l2Strength = r.chance(1, 2) ? 0.07f : r.chance(1, 2) ? 0.7f : 0.004f;
    if (r.chance(1, 3)) o.ad.decay = r.chance(1, 2) ? 0.1f : r.chance(1, 2) ? 1.0f : 0.001f;
    if (r.chance(1, 3)) o.ad.batchSize = r.chance(2, 3) ? (int)r.range(2, 4) : (int)r.range(5, 300);
}
static void build(Opt& o) {
    if (o.kind == 0) o.o.reset(new SGDOptimizer<float>(o.s));
    else if (o.kind == 1) o.o.reset(new RMSPropOptimizer<float>(o.r));
    else o.o.reset(new AdamOptimizer<float>(o.ad));
}
// the rule, in double precision
static vector<double> rule(const Opt& o, Ref& s, vector<double> w, const Snap& g, double over) {
    size_t n = w.size();
    s.it++;
    if (s.a.empty()) { s.a.assign(n, 0); s.b.assign(n, 0); s.c.assign(n, 0); }
    for (size_t i = 0; i < n; i++) {
        double d = g.v[i];
        if (o.kind == 0) {
            double lr = over > 0 ? over : o.s.learningRate;
            d += (double)o.s.weightDecay * w[i];
            if (o.s.momentum != 0) {
                s.a[i] = (double)o.s.momentum * s.a[i] + (1.0 - o.s.dampening) * d;
                d = o.s.nesterov ? d + (double)o.s.momentum * s.a[i] : s.a[i];
            }
            w[i] -= lr * d;
        } else if (o.kind == 1) {
            double lr = over > 0 ? over : o.r.learningRate, al = o.r.alpha;
            d += (double)o.r.weightDecay * w[i];
            s.a[i] = al * s.a[i] + (1 - al) * d * d;
            double den = s.a[i];
            if (o.r.centered) { s.b[i] = al * s.b[i] + (1 - al) * d; den -= s.b[i] * s.b[i]; }
            d /= std::sqrt(den + o.r.epsilon);
            if (o.r.momentum > 0) { s.c[i] = (double)o.r.momentum * s.c[i] + d; d = s.c[i]; }
            w[i] -= lr * d;
        } else {
            double lr = over > 0 ? over : (double)o.ad.learningRate / (o.ad.decay > 0 ? 1 + (double)o.ad.decay * s.it : 1.0);
            double b1 = o.ad.beta1, b2 = o.ad.beta2;
            d /= o.ad.batchSize;
            s.a[i] = b1 * s.a[i] + (1 - b1) * d;
            s.b[i] = b2 * s.b[i] + (1 - b2) * d * d;
            double u = lr * (s.a[i] / (1 - std::pow(b1, s.it))) / (std::sqrt(s.b[i] / (1 - std::pow(b2, s.it))) + o.ad.epsilon);
            if (o.ad.l1Strength > 0) u += lr * o.ad.l1Strength * (w[i] > 0 ? 1 : w[i] < 0 ? -1 : 0);
            if (o.ad.l2Strength > 0) u += lr * (double)o.ad.l2Strength * w[i];
            w[i] -= u;
        }
    }
    return w;
}
static long off(const Snap& got, const vector<double>& want, double slack = 1) {
    for (size_t i = 0; i < want.size(); i++) if (!near1(got.v[i], want[i], 4e-4 * slack)) return (long)i;
    return -1;
}

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    for (int i = 0; i < NOPT; i++) p.set(("opt" + std::to_string(i)).c_str(), (int64_t)r.below(100000));
    if (r.chance(1, 150)) {
        // a training run of many steps on very few numbers
        p.set("team", 1);
        p.op(P_NEW, {0, 2 * (int64_t)r.below(500), 1, 1, 0});
        int64_t n = r.chance(1, 2) ? r.range(65500, 70000) : r.range(3000, 40000);
        p.op(P_LONG, {0, 1, (int64_t)r.below(1000), n, (int64_t)r.below(4) * 2 + 1});
        return;
    }
    int n = (int)r.range(3, 26);
    bool del = r.chance(2, 3), copy = r.chance(1, 2), fault = r.chance(1, 3);
    int nopt = r.chance(1, 2) ? 1 : 2;
    bool big = r.chance(1, 8);
    for (int i = 0; i < 2; i++) p.op(P_NEW, {i, (int64_t)r.below(1000), big ? i == 0 && r.chance(1, 8) ? r.range(2000, 30000) : r.range(990, 1100) : r.range(1, 6), r.range(1, 3), 0});
    for (int i = 0; i < n; i++) {
        int w = (int)r.below(20);
        int64_t s = (int64_t)r.below(NSLOT);
        if (w < 2 && del) p.op(P_DEL, {s});
        else if (w < 5) p.op(P_NEW, {s, (int64_t)r.below(1000), r.range(1, 6), r.range(1, 3), (int64_t)r.below(2)});
        else if (w < 7) p.op(r.chance(1, 2) ? P_ASSIGN : P_STEALVAL, {s, (int64_t)r.below(1000)});
        else if (w < 8 && copy) p.op(r.chance(2, 3) ? P_COPYOPT : P_MOVEOPT, {(int64_t)r.below(NOPT), (int64_t)r.below(NOPT)});
        else if (w < 9 && r.chance(1, 2)) p.op(P_LONG, {(int64_t)r.below((uint64_t)nopt), (int64_t)1 << r.below(NSLOT), (int64_t)r.below(1000), r.chance(1, 2) ? r.range(8, 60) : r.chance(2, 3) ? r.range(60, 600) : r.range(600, 2500), (int64_t)r.below(8)});
        else if (w < 9 && r.chance(1, 3)) p.op(P_CROWD, {(int64_t)r.below(100000), r.chance(1, 2) ? r.range(6, 40) : r.chance(2, 3) ? r.range(40, 140) : r.range(140, 300), r.range(2, 6), (int64_t)r.below(1000), (int64_t)r.below(8)});
        else if (w < 9) p.op(P_BADSTEP, {(int64_t)r.below(nopt), (int64_t)r.below(1 << NSLOT), (int64_t)r.below(1000), (int64_t)r.below(4)});
        // optimizer, slots, gradient seed, rate override (hundredths), order, failing allocation
        else p.op(P_STEP, {(int64_t)r.below((uint64_t)nopt), r.range(1, (1 << NSLOT) - 1), (int64_t)r.below(1000), r.chance(1, 4) ? r.range(-1, 20) : -1, (int64_t)r.below(4), fault && r.chance(1, 3) ? r.range(1, 6) : 0});
    }
}
static void run(const Plan& p) {
    Quiet q;
    Opt opt[NOPT];
    for (int i = 0; i < NOPT; i++) { options(opt[i], p.get(("opt" + std::to_string(i)).c_str(), i)); Loud l; build(opt[i]); }
    Slot slot[NSLOT];
    // storage for tensor objects; an address is given out again only to a shape it never had
    struct Place { void* p; std::set<vector<int>> had; bool used; };
    vector<Place> places;
    uint64_t life = 0;
    bool allow_same = p.get("recycle_same") != 0;
    uint64_t steps = 0;
    auto check = [&](int i, const char* when) {
        if (!slot[i].t || slot[i].vague) return;
        Snap g = snap(*slot[i].t);
        long k = off(g, slot[i].w, slot[i].slack);
        if (k >= 0) RT_FAIL("wrong-trajectory", "%s: element %ld of parameter %d %s is %.9g, its own history gives %.9g", when, k, i, dim_str(g.d).c_str(), (double)g.v[(size_t)k], slot[i].w[(size_t)k]);
    };
    auto drop = [&](int i) {
        if (!slot[i].t) return;
        for (auto& pl : places) if (pl.p == (void*)slot[i].t) pl.used = false;
        { Loud l; slot[i].t->~TF(); }
        slot[i] = Slot();
    };
    auto jumps = [&](const Opt& o, const Slot& s) {
        if (o.kind == 2 && o.ad.l1Strength > 0) for (double w : s.w) if (w != 0 && std::fabs(w) < 1e-3) return true;
        return false;
    };
    for (auto& o : p.ops) {
        int i = (int)o.in(0, 0, NSLOT - 1);
        switch (o.k) {
            case P_LONG: {
                // many updates: the same gradient over and over, or another one each time
                Opt& A = opt[(int)o.in(0, 0, NOPT - 1)];
                int n = (int)o.in(3, 1, 80000);
                bool same = o.at(4) & 1;
                for (int k = 0; k < NSLOT; k++) {
                    Slot& s = slot[k];
                    if (!s.t || !(o.at(1) >> k & 1) || s.w.size() > 40) continue;
                    vector<int> d = snap(*s.t).d;
                    // A centered variance is a difference of near-equal numbers; with decay a weight settles
                    // where its gradient vanishes, and an adaptive step then divides rounding by rounding.
                    bool blur = A.kind == 1 ? A.r.centered || A.r.weightDecay != 0 : A.kind == 2 && (A.ad.l1Strength > 0 || A.ad.l2Strength > 0);
                    Snap g = make_snap(d, (uint64_t)o.at(2), 1);
                    if (o.at(4) & 2) for (auto& x : g.v) x *= o.at(4) & 4 ? 300 : 12;
                    TF* gt = nullptr;
                    { Loud l; gt = new TF(make(g)); }
                    // a second execution of the rule from values a rounding away: where the two part, rounding decides
                    Ref near_st = A.st[s.life];
                    vector<double> near_w = s.w;
                    for (auto& x : near_w) x *= 1 + 2e-6;
                    for (int j = 0; j < n; j++) {
                        if (!same) { g = make_snap(d, (uint64_t)o.at(2) + 1000u * (uint64_t)j, 1); Loud l; *gt = make(g); }
                        { Loud l; A.o->optimize({std::ref(*s.t)}, {std::ref(*gt)}); }
                        if (jumps(A, s)) s.vague = true;
                        s.w = rule(A, A.st[s.life], s.w, g, -1);
                        Snap gn = g;
                        for (auto& x : gn.v) x *= j % 2 ? 1 + 1e-6f : 1 - 1e-6f;
                        near_w = rule(A, near_st, near_w, gn, -1);
                        s.slack += 0.02;
                    }
                    { Loud l; delete gt; }
                    Snap now = snap(*s.t);
                    for (size_t j = 0; j < now.v.size(); j++)
                        if (!std::isfinite(now.v[j])) RT_FAIL("not-finite", "after %d updates with finite gradients element %zu of a parameter is %g", n, j, (double)now.v[j]);
                    for (size_t j = 0; j < near_w.size(); j++) if (!near1(near_w[j], s.w[j], 1e-4)) s.vague = true;
                    rt::count(s.vague || blur ? "hist.long_ill_conditioned" : "hist.long_compared");
                    if (blur) s.vague = true;
                    rt::count("hist.long_histories");
                    steps += (uint64_t)n;
                }
                break;
            }
            case P_CROWD: {
                // one optimizer for the many parameters of a deep network
                Opt A;
                options(A, o.at(0));
                A.r.centered = false;
                A.ad.l1Strength = 0;
                int n = (int)o.in(1, 1, 400), rounds = (int)o.in(2, 1, 10);
                vector<vector<double>> want((size_t)n);
                vector<Snap> now((size_t)n);
                vector<Ref> st((size_t)n);
                vector<TF> w;
                w.reserve((size_t)n);
                for (int k = 0; k < n; k++) {
                    Snap s = make_snap({1 + k % 3, 1 + k % 2}, (uint64_t)o.at(3) + (uint64_t)k, 1);
                    want[(size_t)k].assign(s.v.begin(), s.v.end());
                    Loud l;
                    w.push_back(make(s));
                }
                { Loud l; build(A); }
                for (int round = 0; round < rounds; round++) {
                    vector<int> ix;
                    for (int k = 0; k < n; k++) if (!(o.at(4) & 4) || (k + round) % 3) ix.push_back(o.at(4) & 2 ? n - 1 - k : k);
                    vector<TF> g;
                    g.reserve(ix.size());
                    for (int k : ix) {
                        Snap s = make_snap(snap(w[(size_t)k]).d, (uint64_t)o.at(3) * 17 + (uint64_t)(k + 1000 * round), 1);
                        if ((k + round) % 7 == 3) for (auto& x : s.v) x = 0;
                        want[(size_t)k] = rule(A, st[(size_t)k], want[(size_t)k], s, -1);
                        Loud l;
                        g.push_back(make(s));
                    }
                    size_t per = o.at(4) & 1 ? 2 : ix.size();       // one call for each layer, or for all
                    for (size_t k = 0; k < ix.size(); k += per) {
                        Loud l;
                        vector<std::reference_wrapper<TF>> wr, gr;
                        for (size_t j = k; j < std::min(k + per, ix.size()); j++) { wr.push_back(std::ref(w[(size_t)ix[j]])); gr.push_back(std::ref(g[j])); }
                        A.o->optimize(wr, gr);
                    }
                    for (int k = 0; k < n; k++) {
                        Snap s = snap(w[(size_t)k]);
                        long bad = off(s, want[(size_t)k], 2);
                        if (bad >= 0) RT_FAIL("wrong-trajectory", "element %ld of parameter %d of %d is %.9g after %d rounds, its own history gives %.9g", bad, k, n, (double)s.v[(size_t)bad], round + 1, want[(size_t)k][(size_t)bad]);
                    }
                    { Loud l; g.clear(); }
                    steps++;
                }
                { Loud l; A.o.reset(); w.clear(); }
                rt::count("hist.crowds");
                break;
            }
            case P_NEW: {
                drop(i);
                vector<int> d = {(int)o.in(2, 1, 30000), (int)o.in(3, 1, 3)};
                if (o.at(1) & 1) d.push_back((int)o.in(2, 1, 3));
                Snap s = make_snap(d, (uint64_t)o.at(1), 1);
                Place* pl = nullptr;
                if (o.at(4)) for (auto& x : places) if (!x.used && (allow_same || !x.had.count(d))) pl = &x;
                if (pl) rt::count("hist.object_address_reused");
                else { places.push_back({malloc(sizeof(TF)), {}, false}); pl = &places.back(); }
                pl->used = true;
                pl->had.insert(d);
                { Loud l; slot[i].t = new (pl->p) TF(make(s)); }
                slot[i].life = ++life;
                slot[i].w.assign(s.v.begin(), s.v.end());
                break;
            }
            case P_DEL: drop(i); break;
            case P_ASSIGN: case P_STEALVAL:
                if (slot[i].t) {
                    Snap s = snap(*slot[i].t);
                    s = make_snap(s.d, (uint64_t)o.at(1) + 77, 1);
                    { Loud l; TF t = make(s); if (o.k == P_ASSIGN) *slot[i].t = t; else *slot[i].t = std::move(t); }
                    slot[i].w.assign(s.v.begin(), s.v.end());
                    if (slot[i].vague) drop(i);
                    rt::count("hist.reassignments");
                }
                break;
            case P_COPYOPT: case P_MOVEOPT: {
                int a = (int)o.in(0, 0, NOPT - 1), b = (int)o.in(1, 0, NOPT - 1);
                if (a == b) break;
                rt::count("hist.optimizer_copies");
                Opt& A = opt[a];
                Opt& B = opt[b];
                {
                    Loud l;
                    bool mv = o.k == P_MOVEOPT;
                    if (A.kind == 0) { auto& s = static_cast<SGDOptimizer<float>&>(*A.o); B.o.reset(mv ? new SGDOptimizer<float>(std::move(s)) : new SGDOptimizer<float>(s)); }
                    else if (A.kind == 1) { auto& s = static_cast<RMSPropOptimizer<float>&>(*A.o); B.o.reset(mv ? new RMSPropOptimizer<float>(std::move(s)) : new RMSPropOptimizer<float>(s)); }
                    else { auto& s = static_cast<AdamOptimizer<float>&>(*A.o); B.o.reset(mv ? new AdamOptimizer<float>(std::move(s)) : new AdamOptimizer<float>(s)); }
                }
                B.kind = A.kind; B.s = A.s; B.r = A.r; B.ad = A.ad; B.st = A.st;
                if (o.k == P_MOVEOPT) { Loud l; build(A); Quiet q2; A.st.clear(); }
                break;
            }
            case P_STEP: case P_BADSTEP: {
                int a = (int)o.in(0, 0, NOPT - 1);
                vector<int> ix;
                for (int k = 0; k < NSLOT; k++) if (slot[k].t && !slot[k].vague && (o.at(1) >> k & 1)) ix.push_back(k);
                if (o.at(4) & 1) std::reverse(ix.begin(), ix.end());
                if ((o.at(4) & 2) && ix.size() > 2) std::swap(ix[0], ix[1]);
                if (ix.empty()) break;
                double over = o.k == P_BADSTEP ? -1 : (double)o.in(3, -1, 100) / 100.0;
                if (over <= 0) over = -1;
                vector<Snap> gs;
                for (int k : ix) {
                    gs.push_back(make_snap(snap(*slot[k].t).d, (uint64_t)o.at(2) * 31 + (uint64_t)k, 1));
                    if ((o.at(2) + k) % 5 == 4) { for (auto& x : gs.back().v) x = 0; rt::count("hist.idle_gradients"); }
                }
                bool split = o.k == P_STEP && (o.at(4) & 1) && !o.at(5) && ix.size() > 1;
                int bad = (int)o.in(3, 0, 3);
                uint64_t fail = o.k == P_STEP ? (uint64_t)o.in(5, 0, 50) : 0;
                string e = attempt([&] {
                    vector<TF> g;
                    vector<std::reference_wrapper<TF>> w, gr;
                    { Quiet q2; g.reserve(gs.size()); }
                    for (auto& s : gs) g.push_back(make(s));
                    size_t half = split ? ix.size() / 2 : ix.size();
                    for (size_t k = 0; k < ix.size(); k++) { w.push_back(std::ref(*slot[ix[k]].t)); gr.push_back(std::ref(g[k])); }
                    float ov = (float)o.in(3, -1, 100) / 100.0f;    // not positive: the configured rate
                    if (o.k == P_BADSTEP) {
                        size_t at = (size_t)(o.at(2) % (int64_t)g.size());
                        if (bad == 0) gr.pop_back();
                        else if (bad == 1) gr.push_back(std::ref(g[0]));
                        else if (bad == 2) g[at] = TF(Shape({(int)gs[at].v.size() + 1}), 1.0f);
                        else if (gs[at].v.size() > 1) g[at] = TF(Shape({(int)gs[at].v.size() - 1}), 1.0f);
                        else gr.pop_back();
                        opt[a].o->optimize(w, gr);
                        return;
                    }
                    if (split) {
                        vector<std::reference_wrapper<TF>> w1(w.begin(), w.begin() + (long)half), g1(gr.begin(), gr.begin() + (long)half);
                        vector<std::reference_wrapper<TF>> w2(w.begin() + (long)half, w.end()), g2(gr.begin() + (long)half, gr.end());
                        if (o.at(3) >= 0) { opt[a].o->optimize(w1, g1, ov); opt[a].o->optimize(w2, g2, ov); }
                        else { opt[a].o->optimize(w1, g1); opt[a].o->optimize(w2, g2); }
                    } else {
                        if (fail) rt::arm_alloc_fail(fail, 1);
                        if (o.at(3) >= 0) opt[a].o->optimize(w, gr, ov);
                        else opt[a].o->optimize(w, gr);
                    }
                });
                rt::disarm_alloc_fail();
                if (o.k == P_BADSTEP) {
                    rt::count("fault.refused_update");
                    if (e.empty()) RT_FAIL("bad-call-accepted", "an update of %zu parameters was accepted although %s", ix.size(), bad == 2 ? "a gradient has too many elements" : bad == 3 ? "a gradient has too few elements" : "the number of gradients differs");
                    break;
                }
                if (!e.empty() && !fail) RT_FAIL("unexpected-exception", "an update threw: %s", e.c_str() + 1);
                if (opt[a].kind == 1 && opt[a].r.centered && opt[a].r.epsilon < 1e-4f) for (int k : ix) slot[k].vague = true;
                // the L1 term jumps where a weight crosses zero: rounding decides there
                if (opt[a].kind == 2 && opt[a].ad.l1Strength > 0)
                    for (int k : ix) for (double w : slot[k].w) if (w != 0 && std::fabs(w) < 1e-3) slot[k].vague = true;
                if (e.empty()) {
                    steps++;
                    for (size_t k = 0; k < ix.size(); k++) {
                        Slot& s = slot[ix[k]];
                        if (s.vague) continue;
                        s.w = rule(opt[a], opt[a].st[s.life], s.w, gs[k], over);
                    }
                } else {
                    // an allocation failed inside the update: each parameter took its step or did not
                    rt::count("fault.update_alloc");
                    for (size_t k = 0; k < ix.size(); k++) {
                        Slot& s = slot[ix[k]];
                        if (s.vague) continue;
                        Ref st = opt[a].st[s.life];
                        vector<double> w2 = rule(opt[a], st, s.w, gs[k], over);
                        Snap g = snap(*s.t);
                        bool stay = off(g, s.w, s.slack) < 0, went = off(g, w2, s.slack) < 0;
                        if (!stay && !went) RT_FAIL("torn-update", "after a failed update parameter %d %s shows neither its old nor its updated value", ix[k], dim_str(g.d).c_str());
                        if (stay && went) s.vague = true;
                        else if (went) { s.w = w2; opt[a].st[s.life] = st; }
                    }
                }
                break;
            }
            default: break;
        }
        for (int k = 0; k < NSLOT; k++) check(k, NM[o.k]);
    }
    rt::count("hist.updates", steps);
    for (int k = 0; k < NSLOT; k++) if (slot[k].t) note_snap(snap(*slot[k].t));
    for (int k = 0; k < NSLOT; k++) drop(k);
    for (auto& o : opt) { Loud l; o.o.reset(); }
}
static vector<Known> directed() {
    vector<Known> v;
    Known k;
    k.key = "recycled-parameter-object";
    k.what = "a parameter tensor constructed at the address of a destroyed one of the same shape inherits the optimizer state of the destroyed one";
    k.plan.set("opt0", 30000);
    k.plan.set("recycle_same", 1);
    for (int i = 0; i < 1; i++) {
        // options(0 mod 3): SGD; a momentum is needed
        int64_t v2 = 0;
        for (;; v2 += 3) { Opt o; options(o, v2); if (o.s.momentum > 0.8f && o.s.weightDecay == 0) break; }
        k.plan.set("opt0", v2);
    }
    k.plan.op(P_NEW, {0, 2, 3, 2, 0});
    k.plan.op(P_STEP, {0, 1, 5, -1, 0, 0});
    k.plan.op(P_DEL, {0});
    k.plan.op(P_NEW, {0, 4, 3, 2, 1});
    k.plan.op(P_STEP, {0, 1, 6, -1, 0, 0});
    v.push_back(k);
    return v;
}
Scenario scenario() {
    Scenario s;
    s.prop = "C05";
    s.opnames.assign(NM, NM + NP);
    s.gen = gen;
    s.run = run;
    s.directed = directed;
    s.rule = "A plan is a history of 3-26 events over up to five parameter tensors and three optimizers with random options: create, destroy, reassign a parameter, update any subset in any order with or without a rate override, copy or move an optimizer, refused updates, updates hit by an allocation failure, up to 70000 updates in a row, gradients that are all zero and crowds of up to 300 parameters on one optimizer; after every event each live parameter is compared with a double-precision execution of the rule on its own history.";
    s.real = "SGD, RMSProp and Adam optimizers, tensors";
    s.stub = "OpenMP runtime and operator new are the simulator's";
    return s;
}
