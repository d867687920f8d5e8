// C10: the synthetic data sets have the announced size, shape and law, for any entropy and size.
#include "common.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"

enum { Y_PLAIN, Y_BATCH, NY };
static const char* const NM[NY] = {"plain", "batched"};

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALLOC | ENV_FILL);
    int n = (int)r.range(1, 3);
    p.set("threads", r.chance(1, 4) ? 2 : 1);
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 60)) {
            p.op((int)r.below(NY), {r.range(2000, 8000), r.chance(1, 3) ? r.range(991, 1000) : r.chance(1, 2) ? r.range(801, 990) : r.range(1, 12), r.chance(1, 2) ? 100 : r.range(1, 3000), 0, 0, 0, (int64_t)r.below(2), (int64_t)r.below(1000)});
            continue;
        }
        int64_t cnt = r.chance(1, 3) ? r.range(0, 5) : r.chance(1, 4) ? r.range(400, r.chance(1, 10) ? 6000 : 700) : r.range(1, 60);
        // samples, batch, noise (hundredths), entropy mode, entropy failure, failing allocation, thread
        p.op((int)r.below(NY), {cnt, r.chance(1, 4) ? r.range(1, 800) : r.chance(1, 20) ? r.range(991, 1000) : r.range(1, 12), r.chance(1, 4) ? 100 : r.range(1, 3000), (int64_t)r.below(3), r.chance(1, 10) ? 1 : 0, r.chance(1, 6) ? r.range(1, 200) : 0, (int64_t)r.below(2), (int64_t)r.below(1000)});
    }
}
// batch sizes up to the largest int: "one batch of everything"
static int batch_of(const Op& o) {
    int64_t b = o.in(1, 1, 1000);
    return b > 990 ? (int)(2147483647 - (1000 - b)) : b > 800 ? (int)(b - 800) * 40 : (int)b;
}
struct Data { vector<Snap> x, y; };
static void judge(const Op& o, const Data& g) {
    int n = (int)o.in(0, 0, 8000), batch = batch_of(o);
    double noise = (double)o.in(2, 1, 10000) / 100.0;
    const char* nm = NM[o.k];
    size_t want = o.k == Y_PLAIN ? (size_t)n : (size_t)(((int64_t)n + batch - 1) / batch);
    if (g.x.size() != want || g.y.size() != want) RT_FAIL("wrong-size", "%s: %zu inputs and %zu targets for %d samples (batch %d)", nm, g.x.size(), g.y.size(), n, batch);
    vector<double> xs, rs;
    for (size_t i = 0; i < want; i++) {
        vector<int> d = o.k == Y_PLAIN ? vector<int>{1} : vector<int>{(int)std::min<int64_t>(batch, n - (int64_t)i * batch), 1};
        if (g.x[i].d != d || g.y[i].d != d) RT_FAIL("wrong-shape", "%s: element %zu has input %s and target %s, expected %s", nm, i, dim_str(g.x[i].d).c_str(), dim_str(g.y[i].d).c_str(), dim_str(d).c_str());
        for (size_t k = 0; k < g.x[i].v.size(); k++) {
            double x = g.x[i].v[k], y = g.y[i].v[k];
            if (!(x >= 0 && x <= 100.0001)) RT_FAIL("wrong-law", "%s: input %g outside 0..100", nm, x);
            double r = y - 2 * x - 3;
            // 7.5 sigma: one in 10^13 samples; float rounding of values up to a few hundred on top
            if (!(std::fabs(r) <= 7.5 * noise + 1e-3)) RT_FAIL("wrong-law", "%s: target %g for input %g is %g off the line with noise %g", nm, y, x, r, noise);
            xs.push_back(x);
            rs.push_back(r);
        }
    }
    if (xs.size() != (size_t)n) RT_FAIL("wrong-size", "%s: %zu samples instead of %d", nm, xs.size(), n);
    rt::count("hist.samples", xs.size());
    if (n >= 8) {
        std::map<double, int> seen;
        int most = 0;
        for (double x : xs) most = std::max(most, ++seen[x]);
        if (most * 2 > n) RT_FAIL("wrong-law", "%s: the input %g appears %d times in %d samples", nm, xs[0], most, n);
    }
    if (n >= 400) {
        double m = 0, v = 0, rm = 0, rv = 0, sx = 0;
        for (int i = 0; i < n; i++) { m += xs[(size_t)i]; rm += rs[(size_t)i]; }
        m /= n;
        rm /= n;
        for (int i = 0; i < n; i++) { v += (xs[(size_t)i] - m) * (xs[(size_t)i] - m); rv += (rs[(size_t)i] - rm) * (rs[(size_t)i] - rm); sx += (rs[(size_t)i] - rm) * (xs[(size_t)i] - m); }
        v = std::sqrt(v / n);
        rv = std::sqrt(rv / n);
        double cor = v > 0 && rv > 0 ? sx / n / v / rv : 0;
        // bounds beyond seven standard errors of each statistic at n = 400
        if (std::fabs(m - 50) > 7 * 28.87 / std::sqrt((double)n)) RT_FAIL("wrong-law", "%s: mean input %g over %d samples", nm, m, n);
        if (v < 28.87 * 0.77 || v > 28.87 * 1.23) RT_FAIL("wrong-law", "%s: input spread %g over %d samples", nm, v, n);
        if (std::fabs(rm) > 7 * noise / std::sqrt((double)n) + 1e-3) RT_FAIL("wrong-law", "%s: mean deviation %g with noise %g over %d samples", nm, rm, noise, n);
        if (rv < noise * 0.72 - 1e-3 || rv > noise * 1.28 + 1e-3) RT_FAIL("wrong-law", "%s: noise %g produced a deviation of %g over %d samples", nm, noise, rv, n);
        if (noise > 0.05 && std::fabs(cor) > 7 / std::sqrt((double)n)) RT_FAIL("wrong-law", "%s: the deviation correlates with the input (%g)", nm, cor);
        rt::count("hist.statistics");
    }
    if (n >= 400) {
        // deviations and inputs are drawn anew for every sample: how many fall together is known
        auto twins = [](vector<double> v, double d) {
            std::sort(v.begin(), v.end());
            uint64_t c = 0;
            for (size_t i = 1; i < v.size(); i++) c += v[i] - v[i - 1] <= d;
            return (double)c;
        };
        double d = 6e-5, pairs = (double)n * n / 2;
        double er = pairs * 2 * d * 0.2821 / noise, ex = pairs * 2 * 1e-6 / 100;      // a float input has a step up to 8e-6
        double tr = noise < 0.2 ? 0 : twins(rs, d), tx = twins(xs, 1e-6);
        ex += pairs / 8388608;
        if (tr > 3 * er + 60) RT_FAIL("wrong-law", "%s: %g of %d deviations are repeats of another, about %g are to be expected", nm, tr, n, er);
        if (tx > 3 * ex + 60) RT_FAIL("wrong-law", "%s: %g of %d inputs are repeats of another, about %g are to be expected", nm, tx, n, ex);
        rt::count("hist.repeats_counted");
    }
}
static string make_data(const Op& o, Data& g) {
    return attempt([&] {
        float noise = (float)((double)o.in(2, 1, 10000) / 100.0);
        int n = (int)o.in(0, 0, 8000);
        bool dflt = o.in(2, 1, 10000) == 100;
        auto r = o.k == Y_PLAIN ? (dflt ? smart_dnn::generateLinearDataset(n) : smart_dnn::generateLinearDataset(n, noise))
                                : smart_dnn::generateBatchedLinearDataset(n, batch_of(o), noise);
        Quiet q;
        for (auto& t : r.first) g.x.push_back(snap(t));
        for (auto& t : r.second) g.y.push_back(snap(t));
    });
}
static void run(const Plan& p) {
    Quiet q;
    int nt = (int)p.in("threads", 1, 2);
    if (nt > 1) {
        vector<int> hs;
        vector<Data> res(p.ops.size());
        vector<string> err(p.ops.size());
        for (int t = 0; t < nt; t++)
            hs.push_back(rt::spawn([&, t] { Quiet q2; for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].in(6, 0, 1) == t) { Op o = p.ops[i]; o.a[0] %= 60; err[i] = make_data(o, res[i]); } }));
        for (int h : hs) rt::join(h);
        for (size_t i = 0; i < p.ops.size(); i++) {
            Op o = p.ops[i];
            o.a[0] %= 60;
            if (!err[i].empty()) RT_FAIL("unexpected-exception", "generating %d samples threw: %s", (int)o.a[0], err[i].c_str() + 1);
            judge(o, res[i]);
        }
        return;
    }
    for (auto& o : p.ops) {
        int mode = (int)o.in(3, 0, 2);
        rt::set_entropy((uint64_t)o.at(7) * 977 + 5, mode, o.at(4) ? 0 : -1);
        if (o.at(4)) rt::count("fault.entropy_planned");
        uint64_t nf = rt::alloc_failures(), live = rt::live_allocs(), fail = (uint64_t)o.in(5, 0, 3000);
        Data g;
        if (fail) { rt::allow_stop(true); rt::arm_alloc_fail(fail, 1); }
        string e = make_data(o, g);
        rt::disarm_alloc_fail();
        rt::allow_stop(false);
        bool may = rt::alloc_failures() > nf || rt::entropy_failed();
        if (!e.empty()) {
            if (!may) RT_FAIL("unexpected-exception", "generating %d samples threw: %s", (int)o.in(0, 0, 8000), e.c_str() + 1);
            // what is left behind by the first failure only is no leak
            uint64_t first = rt::live_allocs() - live;
            for (int again = 0; again < 3 && rt::live_allocs() > live; again++) {
                live = rt::live_allocs();
                rt::set_entropy((uint64_t)o.at(7) * 977 + 5, mode, o.at(4) ? 0 : -1);
                Data g2;
                if (fail) { rt::allow_stop(true); rt::arm_alloc_fail(fail, 1); }
                string e2 = make_data(o, g2);
                rt::disarm_alloc_fail();
                rt::allow_stop(false);
                if (again == 2 && !e2.empty() && rt::live_allocs() > live) RT_FAIL("leak", "every failed generation leaves blocks allocated, the first one %llu", (unsigned long long)first);
            }
            continue;
        }
        // without entropy there is no seed to generate from
        if (rt::entropy_failed()) RT_FAIL("failure-swallowed", "generating %d samples succeeded although the system gave no entropy", (int)o.in(0, 0, 8000));
        judge(o, g);
        // what it gave must not depend on the generator staying around: a second data set differs unless the entropy repeats
        for (auto& s : g.x) note_snap(s);
    }
}
Scenario scenario() {
    Scenario s;
    s.prop = "C10";
    s.opnames.assign(NM, NM + NY);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is 1-3 generated data sets of 0-8000 samples (mostly up to 700), plain or in batches of 1-7600 or near the largest int, with noise between 0.01 and 30, by one or two threads, under random, constant, counting or failing system entropy and failing allocations; sizes, shapes, ranges, the distance of every sample from the line and (from 400 samples) means, spreads, correlation and repeated values are checked.";
    s.real = "generateLinearDataset, generateBatchedLinearDataset, tensors, libstdc++ random numbers";
    s.stub = "the entropy behind std::random_device; threads; operator new";
    return s;
}
