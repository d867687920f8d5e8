// C12: dropout drops each element with its rate, and pairs backward with the last forward.
#include "kernels.hpp"
#include <memory>

enum { P_FWD, P_BWD, P_MODE, P_BADBWD, P_SEED, P_ALLOC, P_OTHER, NP };
static const char* const NM[NP] = {"forward", "backward", "mode", "bad_backward", "seed", "alloc_fault", "other_draws"};
static const int RATES[] = {0, 100, 250, 500, 750, 900};      // thousandths
static constexpr int NL = 2;

static const vector<int> SHAPES[] = {{40}, {1, 64}, {20, 20}, {8, 5, 6}, {2, 3, 8, 8}, {60, 60}, {3}, {1}, {400}, {6, 100}, {100, 6}, {50, 50}, {5000}, {3, 1700}, {1, 9000}, {4, 8, 16, 17}};
static constexpr int NS = 16, NSMALL = 12;
static const int BIGS[] = {5, 11, 8, 9, 10, 4, 2};

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") > 3) p.set("team", 3);
    bool big = r.chance(1, 3);
    bool thr = !big && r.chance(1, 4);
    p.set("threads", thr ? 2 : 1);
    if (thr) p.set("team", 1);
    for (int i = 0; i < NL; i++) p.set(i ? "rate1" : "rate0", r.chance(2, 3) ? RATES[r.below(6)] : r.chance(1, 4) ? r.range(900, 990) : r.range(1, 990));
    p.set("dseed", r.range(1, 1000000));
    bool huge = big && r.chance(1, 4);
    int n = (int)r.range(3, huge ? 6 : big ? 10 : 14);
    bool modes = r.chance(1, 3);
    int sh = (int)r.below(NSMALL);
    for (int i = 0; i < n; i++) {
        int w = (int)r.below(modes ? 30 : 24);
        int k = w < 9 ? P_FWD : w < 16 ? P_BWD : w < 18 ? P_MODE : w < 19 ? P_BADBWD : w < 21 ? P_SEED : w < 23 ? P_ALLOC : w < 24 ? P_OTHER : P_MODE;
        if (!p.ops.empty() && p.ops.back().k == P_FWD && r.chance(1, 4)) k = P_BWD;
        if (r.chance(1, 3)) sh = huge ? (int)r.range(NSMALL, NS - 1) : big ? (int)BIGS[r.below(7)] : (int)r.below(NSMALL);
        if (thr && (sh == 5 || sh == 11 || sh == 10 || sh == 9)) sh = 2;
        p.op(k, {r.range(0, NL - 1), sh, (int64_t)r.below(1000), r.range(1, 40)});
    }
    if (big) for (int i = 0; i < 3; i++) p.op(P_FWD, {0, huge ? r.range(NSMALL, NS - 1) : BIGS[r.below(2)], (int64_t)r.below(1000), 0});
}

struct One {
    std::unique_ptr<DropoutLayer<float>> l;
    double rate = 0;
    bool training = true, vague = false;
    int mask = 0;                  // 0 none, 1 known pattern
    vector<int> md;                // shape of the remembered pattern
    vector<char> keep;
    bool hidden = false;           // part of the pattern (value 2) fell on zeros and is not known yet
    double zN = 0, zdropped = 0;   // under zeros, told by a gradient
    // statistics
    double N = 0, dropped = 0, nlag = 0, lag = 0, ncol = 0, col = 0, ncall = 0, call = 0;
};
// every value has at most the chance rate^2-ish to be zero by accident: values are never zero
static void forward(One& o, int li, const vector<int>& d, uint64_t seed, uint64_t fail, int zeros = 0) {
    Snap x = make_snap(d, seed, 2), y;
    for (size_t i = 0; i < x.v.size(); i += 3) x.v[i] = -x.v[i];
    if (zeros) for (size_t i = 0; i < x.v.size(); i++) if (zeros > 1 || (i * 7 + seed) % 3) x.v[i] = 0;
    uint64_t nf = rt::alloc_failures();
    if (fail) rt::allow_stop(true);
    string e = attempt([&] {
        TF t = make(x);
        if (fail) rt::arm_alloc_fail(fail, 1);
        TF r = o.l->forward(t);
        rt::disarm_alloc_fail();
        Quiet q;
        y = snap(r);
        expect_same("input-modified", "the input of dropout", snap(t), x);
    });
    rt::disarm_alloc_fail();
    if (fail) rt::allow_stop(false);
    if (!e.empty()) {
        if (rt::alloc_failures() == nf) RT_FAIL("unexpected-exception", "dropout forward threw: %s", e.c_str() + 1);
        o.vague = true;
        return;
    }
    note_snap(y);
    string nm = "dropout layer " + std::to_string(li) + " with rate " + std::to_string(o.rate);
    if (!o.training) {
        expect_same("not-identity", nm + " in evaluation mode", y, x);
        o.vague = false;
        o.mask = 0;
        return;
    }
    if (y.d != x.d) RT_FAIL("wrong-shape", "%s: output shape %s for input %s", nm.c_str(), dim_str(y.d).c_str(), dim_str(x.d).c_str());
    size_t n = x.v.size();
    vector<char> keep(n);
    double sc = 1 / (1 - o.rate);
    for (size_t i = 0; i < n; i++) {
        if (x.v[i] == 0) {       // only a gradient tells
            if (y.v[i] != 0) RT_FAIL("wrong-scale", "%s: element %zu became %.9g from 0", nm.c_str(), i, (double)y.v[i]);
            keep[i] = 2;
        } else if (y.v[i] == 0) keep[i] = 0;
        else if (near1(y.v[i], x.v[i] * sc, 2e-6 + 3e-7 * sc, 0)) keep[i] = 1;    // 1 - rate is rounded
        else RT_FAIL("wrong-scale", "%s: element %zu became %.9g from %.9g, expected 0 or %.9g", nm.c_str(), i, (double)y.v[i], (double)x.v[i], x.v[i] * sc);
    }
    if (zeros) {
        for (size_t i = 0; i < n; i++) if (keep[i] < 2) { o.N++; o.dropped += !keep[i]; }
        o.keep = keep;
        o.md = d;
        o.mask = 1;
        o.vague = false;
        o.hidden = true;
        rt::count("hist.zero_inputs");
        return;
    }
    // a repeated pattern is only conspicuous when it is improbable
    double q = o.rate * o.rate + (1 - o.rate) * (1 - o.rate);
    if (o.mask == 1 && !o.hidden && !o.vague && o.md == d && std::pow(q, (double)n) < 1e-13 && keep == o.keep && seed)
        RT_FAIL("stale-pattern", "%s: two consecutive calls used the same pattern on %zu elements", nm.c_str(), n);
    for (size_t i = 0; i < n; i++) { o.N++; o.dropped += !keep[i]; }
    for (size_t i = 0; i + 1 < n; i++) { o.nlag++; o.lag += !keep[i] && !keep[i + 1]; }
    // elements far apart must agree as often as independent ones do
    if (n >= 400) {
        for (size_t lag = 2; lag <= n / 2; lag = lag * 2 == (n / 2 & ~(size_t)1) ? n / 2 : lag * 2) {
            size_t m = n - lag, k = 0;
            for (size_t i = 0; i < m; i++) k += keep[i] == keep[i + lag];
            if (std::fabs((double)k - (double)m * q) > 9 * std::sqrt(3 * q * (1 - q) * (double)m) + 30)
                RT_FAIL("dependent-pattern", "%s: elements %zu apart agree %zu times in %zu, expected about %.0f", nm.c_str(), lag, k, m, (double)m * q);
        }
        size_t lag = n / 2 - seed % (n / 4);
        size_t m = n - lag, k = 0;
        for (size_t i = 0; i < m; i++) k += keep[i] == keep[i + lag];
        if (std::fabs((double)k - (double)m * q) > 9 * std::sqrt(3 * q * (1 - q) * (double)m) + 30)
            RT_FAIL("dependent-pattern", "%s: elements %zu apart agree %zu times in %zu, expected about %.0f", nm.c_str(), lag, k, m, (double)m * q);
        rt::count("hist.lags");
    }
    size_t c = (size_t)d.back();
    if (c > 1) for (size_t i = 0; i + c < n; i++) { o.ncol++; o.col += !keep[i] && !keep[i + c]; }
    if (o.mask == 1 && !o.hidden && !o.vague && o.md == d) for (size_t i = 0; i < n; i++) { o.ncall++; o.call += !keep[i] && !o.keep[i]; }
    o.keep = keep;
    o.md = d;
    o.mask = 1;
    o.vague = false;
    o.hidden = false;
    rt::count("hist.forward");
}
static void backward(One& o, int li, vector<int> d, uint64_t seed, bool bad) {
    if (o.vague) return;
    string nm = "gradient of dropout layer " + std::to_string(li) + " with rate " + std::to_string(o.rate);
    if (!o.md.empty() && !bad && seed % 8) d = o.md;   // also the shape of a pattern long forgotten
    if (bad) { d = o.mask == 1 ? o.md : d; d.push_back(2); }
    Snap g = make_snap(d, seed + 7777, 2), y;
    string e = attempt([&] { TF t = make(g); TF r = o.l->backward(t); Quiet q; y = snap(r); });
    if (!o.training) {
        if (!e.empty()) RT_FAIL("unexpected-exception", "%s in evaluation mode threw: %s", nm.c_str(), e.c_str() + 1);
        expect_same("not-identity", nm + " in evaluation mode", y, g);
        return;
    }
    if (o.mask == 0 || bad || d != o.md) {
        if (e.empty()) RT_FAIL("gradient-not-refused", "%s: a gradient that fits no remembered pattern was accepted", nm.c_str());
        rt::count("hist.refused_gradient");
        return;
    }
    if (!e.empty()) RT_FAIL("unexpected-exception", "%s threw: %s", nm.c_str(), e.c_str() + 1);
    if (o.hidden) {
        for (size_t i = 0; i < g.v.size(); i++) if (o.keep[i] == 2) { o.keep[i] = y.v[i] != 0; o.zN++; o.zdropped += !o.keep[i]; }
        o.hidden = false;
    }
    Snap w = g;
    for (size_t i = 0; i < g.v.size(); i++) w.v[i] = o.keep[i] ? (float)(g.v[i] / (1 - o.rate)) : 0.0f;
    expect_close("wrong-gradient", nm, y, w, 3e-6 + 4e-7 / (1 - o.rate));
    note_snap(y);
    rt::count("hist.backward");
}
static void step(One& o, const Op& p) {
    int li = (int)p.in(0, 0, NL - 1);
    const vector<int>& d = SHAPES[p.in(1, 0, NS - 1)];
    uint64_t s = (uint64_t)p.at(2);
    switch (p.k) {
        case P_FWD: forward(o, li, d, s + 1, 0, p.in(3, 0, 40) % 6 == 5 ? 1 + (int)(s % 2) : 0); break;
        case P_BWD: backward(o, li, d, s, false); break;
        case P_BADBWD: backward(o, li, d, s, true); break;
        case P_MODE: {
            bool to = s % 3 != 0;
            string e = attempt([&] { o.l->setTrainingMode(to); });
            if (!e.empty()) RT_FAIL("unexpected-exception", "changing the mode threw: %s", e.c_str() + 1);
            o.training = to;
            break;
        }
        case P_ALLOC: forward(o, li, d, s + 1, (uint64_t)p.in(3, 1, 40)); break;
        default: break;
    }
}
static void check_rate(const One& o, int li) {
    double q = o.rate;
    auto far = [&](double k, double n, double p, double infl, const char* what, double least = 2000) {
        if (n < least) return;
        rt::count("hist.statistics");
        double sd = std::sqrt(p * (1 - p) * n * infl);
        // nine standard deviations, plus slack for the skew of rare events
        if (std::fabs(k - n * p) > 9 * sd + 10 * infl) RT_FAIL("wrong-rate", "dropout layer %d with rate %g: %s %.0f times in %.0f, expected about %.0f", li, q, what, k, n, n * p);
    };
    if (q == 0 && o.dropped > 0) RT_FAIL("wrong-rate", "dropout with rate 0 dropped %.0f elements", o.dropped);
    far(o.dropped, o.N, q, 1, "elements were dropped");
    far(o.zdropped, o.zN, q, 1, "elements that were zero were dropped", 300);
    far(o.lag, o.nlag, q * q, 3, "two neighbours were dropped together");
    far(o.col, o.ncol, q * q, 3, "two elements one row apart were dropped together");
    far(o.call, o.ncall, q * q, 3, "an element was dropped in two consecutive calls");
}
static void run(const Plan& p) {
    Quiet q;
    int nt = (int)p.in("threads", 1, 2);
    One L[NL];
    for (int i = 0; i < NL; i++) {
        float rate = (float)p.in(i ? "rate1" : "rate0", 0, 990) / 1000.0f;
        L[i].rate = rate;
        Loud l;
        L[i].l.reset(new DropoutLayer<float>(rate));
    }
    { Loud l; RandomEngine::setSeed((unsigned)p.in("dseed", 1, 1000000)); }
    if (nt > 1) {
        vector<int> hs;
        for (int t = 0; t < nt; t++)
            hs.push_back(rt::spawn([&, t] { Quiet q2; for (auto& o : p.ops) if ((int)o.in(0, 0, NL - 1) == t && o.k != P_ALLOC) step(L[t], o); }));
        for (int h : hs) rt::join(h);
        rt::count("hist.concurrent_layers");
    } else {
        for (auto& o : p.ops) {
            if (o.k == P_SEED) {
                Loud l;
                // a fresh seed each time: equal seeds legitimately repeat patterns
                RandomEngine::setSeed((unsigned)(rt::rnd() % 4000000000u));
            } else if (o.k == P_OTHER) {
                Loud l;
                for (int i = 0; i < (int)o.in(3, 1, 40); i++) RandomEngine::getRand();
            } else {
                One& one = L[o.in(0, 0, NL - 1)];
                step(one, o);
                // layers draw from one sequence: no pattern is used twice
                const One& b = L[1 - o.in(0, 0, NL - 1)];
                if (o.k == P_FWD && one.mask == 1 && b.mask == 1 && !one.vague && !b.vague && !one.hidden && !b.hidden && one.keep.size() == b.keep.size()) {
                    double m = (double)one.keep.size(), q = one.rate * b.rate + (1 - one.rate) * (1 - b.rate), k = 0;
                    for (size_t i = 0; i < one.keep.size(); i++) k += one.keep[i] == b.keep[i];
                    if (m >= 200 && std::fabs(k - m * q) > 9 * std::sqrt(3 * q * (1 - q) * m) + 30)
                        RT_FAIL("dependent-pattern", "the patterns of two layers with rates %g and %g agree on %.0f of %.0f elements, expected about %.0f", one.rate, b.rate, k, m, m * q);
                    if (std::pow(std::max(q, 1e-9), m) < 1e-13 && k == m) RT_FAIL("stale-pattern", "two layers used the same pattern on %.0f elements", m);
                    rt::count("hist.layer_pairs");
                }
            }
        }
    }
    for (int i = 0; i < NL; i++) check_rate(L[i], i);
    Loud l;
    for (int i = 0; i < NL; i++) L[i].l.reset();
}
Scenario scenario() {
    Scenario s;
    s.prop = "C12";
    s.opnames.assign(NM, NM + NP);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is two dropout layers with rates from 0 to 0.99 and 3-14 forward and backward calls on inputs of 1 to 9000 elements, inputs with zeros, mode changes, gradients of the wrong shape, reseedings, failing allocations and foreign draws, by one or two threads; patterns are read off the outputs, frequencies judged from 2000 elements, agreement at power-of-two and random distances and between layers from a few hundred.";
    s.real = "DropoutLayer, RandomEngine, tensors";
    s.stub = "threads, OpenMP runtime and operator new are the simulator's";
    return s;
}
