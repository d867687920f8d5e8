// C16: running batch statistics are the exponential average over exactly the completed training batches.
#include "kernels.hpp"
#include <memory>

enum { B_FWD, B_MODE, B_BWD, B_UPD, B_BAD, B_ALLOC, B_ABWD, B_COPY, B_RUN, NB };
static const char* const NM[NB] = {"forward", "mode", "backward", "update", "bad_forward", "alloc_forward", "alloc_backward", "copy", "many_batches"};
static constexpr int NL = 2;

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") > 4) p.set("team", 4);
    p.set("f", r.range(1, 5));
    p.set("eps", r.range(0, 2));
    p.set("mom", r.range(0, 3));
    p.set("off", r.chance(1, 6) ? r.range(1, 6) : 0);
    bool thr = r.chance(1, 6);
    p.set("threads", thr ? 2 : 1);
    if (thr) p.set("team", 1);
    int n = (int)r.range(3, 14), rank = r.chance(1, 2), li = 0;
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 3)) li = (int)r.range(0, NL - 1);
        if (r.chance(1, 5)) rank = !rank;
        int w = (int)r.below(26);
        int k = w < 11 ? B_FWD : w < 15 ? B_MODE : w < 17 ? B_BWD : w < 19 ? B_UPD : w < 21 ? B_BAD : w < 24 ? B_ALLOC : w < 25 ? B_ABWD : B_COPY;
        if (!p.ops.empty() && p.ops.back().k == B_FWD && r.chance(1, 5)) k = B_BWD;
        else if (!p.ops.empty() && p.ops.back().k == B_BWD && r.chance(1, 2)) k = B_UPD;
        if (r.chance(1, 80)) k = B_RUN;
        p.op(k, {li, rank, r.chance(1, 16) ? r.range(6, 130) : r.range(1, 5), r.chance(1, 16) ? r.range(10, 70) : r.range(1, 9), (int64_t)r.below(1000), r.chance(1, 2) ? r.range(1, 60) : r.range(60, 500)});
    }
}
static const float EPS[] = {1e-5f, 1e-3f, 0.1f};
static const float MOM[] = {0.9f, 0.5f, 0.0f, 0.99f};

struct Bn {
    std::unique_ptr<BatchNormalizationLayer<float>> l;
    int f = 1;
    double eps = 0, mom = 0;
    vector<double> rm, rv, ga, be, dga, dbe;
    bool training = true;
    int fwd = 0;              // last forward: 0 none or vague, 1 training success
    int grad = 0;             // 0 none or vague, 1 known
    Snap x;
    vector<double> xhat;
    double off = 0;           // how far the data lies from zero
};
static size_t feature(const vector<int>& d, size_t i) {
    size_t inner = d.size() == 4 ? (size_t)d[2] * (size_t)d[3] : 1;
    return i / inner % (size_t)d[1];
}
static void moments(const Snap& x, int f, vector<double>& m, vector<double>& v) {
    m.assign((size_t)f, 0);
    v.assign((size_t)f, 0);
    double n = (double)x.v.size() / f;
    for (size_t i = 0; i < x.v.size(); i++) m[feature(x.d, i)] += x.v[i];
    for (auto& a : m) a /= n;
    for (size_t i = 0; i < x.v.size(); i++) { size_t k = feature(x.d, i); double t = x.v[i] - m[k]; v[k] += t * t; }
    for (auto& a : v) a /= n;
}
static vector<double> norm(const Snap& x, const vector<double>& m, const vector<double>& v, double eps) {
    vector<double> r(x.v.size());
    for (size_t i = 0; i < r.size(); i++) { size_t k = feature(x.d, i); r[i] = (x.v[i] - m[k]) / std::sqrt(v[k] + eps); }
    return r;
}
// rounding of the subtracted mean, magnified by the division
static double slack(const Bn& b, const Snap& x, const vector<double>& v) {
    double big = 0, t = 0;
    for (float a : x.v) big = std::fmax(big, std::fabs((double)a));
    for (double a : b.rm) big = std::fmax(big, std::fabs(a));
    for (size_t k = 0; k < v.size(); k++) t = std::fmax(t, big * 1e-6 / std::sqrt(v[k] + b.eps) * std::fmax(1, std::fabs(b.ga[k])));
    return big > 8 ? 1e-3 + t : 1e-3;
}
static Snap data(const Bn& b, const vector<int>& d, uint64_t seed) {
    Snap s = make_snap(d, seed, 1);
    if (b.off != 0) for (auto& t : s.v) t += (float)b.off;
    return s;
}
static Snap affine(const Bn& b, const Snap& x, const vector<double>& n) {
    Snap y = x;
    for (size_t i = 0; i < n.size(); i++) { size_t k = feature(x.d, i); y.v[i] = (float)(n[i] * b.ga[k] + b.be[k]); }
    return y;
}
static vector<int> shape_of(const Bn& b, const Op& o) {
    int n = (int)o.in(2, 1, 130), e = (int)o.in(3, 1, 70);
    return o.at(1) % 2 ? vector<int>{n, b.f, e > 9 && n < 6 ? e / 4 : 1 + e % 3, 1 + e / 3 % 3} : vector<int>{n, b.f};
}
static void forward(Bn& b, const string& nm, const Snap& x, uint64_t fail, bool bad) {
    Snap y;
    uint64_t nf = rt::alloc_failures();
    if (fail) rt::allow_stop(true);
    string e = attempt([&] {
        TF t = make(x);
        if (fail) rt::arm_alloc_fail(fail, 1);
        TF r = b.l->forward(t);
        rt::disarm_alloc_fail();
        Quiet q;
        y = snap(r);
        expect_same("input-modified", "a batch", snap(t), x);
    });
    rt::disarm_alloc_fail();
    if (fail) rt::allow_stop(false);
    if (!e.empty()) {
        if (!bad && rt::alloc_failures() == nf) RT_FAIL("unexpected-exception", "%s: forward of a batch of shape %s threw: %s", nm.c_str(), dim_str(x.d).c_str(), e.c_str() + 1);
        b.fwd = 0;
        rt::count(bad ? "hist.refused_batch" : "hist.failed_batch");
        return;
    }
    if (bad) RT_FAIL("bad-input-accepted", "%s accepted a batch of shape %s", nm.c_str(), dim_str(x.d).c_str());
    note_snap(y);
    if (b.training) {
        vector<double> m, v;
        moments(x, b.f, m, v);
        b.xhat = norm(x, m, v, b.eps);
        expect_close("wrong-normalization", nm + " in training mode", y, affine(b, x, b.xhat), slack(b, x, v));
        for (size_t k = 0; k < m.size(); k++) {
            b.rm[k] = b.mom * b.rm[k] + (1 - b.mom) * m[k];
            b.rv[k] = b.mom * b.rv[k] + (1 - b.mom) * v[k];
        }
        b.fwd = 1;
        b.x = x;
        rt::count("hist.training_batch");
    } else {
        expect_close("wrong-statistics", nm + " in evaluation mode", y, affine(b, x, norm(x, b.rm, b.rv, b.eps)), slack(b, x, b.rv));
        b.fwd = 0;
        rt::count("hist.evaluated_batch");
    }
}
static void mode(Bn& b, const string& nm, bool tr) {
    string e = attempt([&] { b.l->setTrainingMode(tr); });
    if (!e.empty()) RT_FAIL("unexpected-exception", "%s: changing the mode threw: %s", nm.c_str(), e.c_str() + 1);
    b.training = tr;
}
// a look at the running statistics that leaves the layer in its mode
static void look(Bn& b, const string& nm, uint64_t seed) {
    bool t = b.training;
    int f = b.fwd;
    mode(b, nm, false);
    forward(b, nm, data(b, {2, b.f}, seed), 0, false);
    if (seed % 2) forward(b, nm, data(b, {1, b.f, 2, 1}, seed), 0, false);
    mode(b, nm, t);
    b.fwd = f && seed % 4 == 99 ? f : 0;
}
static void step(Bn& b, int li, const Op& o) {
    string nm = "batch normalization layer " + std::to_string(li);
    uint64_t s = (uint64_t)o.at(4);
    switch (o.k) {
        case B_FWD: forward(b, nm, data(b, shape_of(b, o), s + 1), 0, false); break;
        case B_MODE: mode(b, nm, s % 2); break;
        case B_RUN: {            // a long training
            mode(b, nm, true);
            int n = 20 + (int)(s * 7 % 300);
            for (int i = 0; i < n; i++) forward(b, nm, data(b, o.at(1) % 2 ? vector<int>{1 + i % 2, b.f, 2, 1} : vector<int>{2 + i % 2, b.f}, s + 1 + (uint64_t)i * 37), 0, false);
            look(b, nm, s * 2 + 1);
            rt::count("hist.long_training");
            break;
        }
        case B_BAD: {
            vector<int> d = s % 3 == 0 || b.f == 1 ? vector<int>{3, b.f, 2} : s % 3 == 1 ? vector<int>{3, b.f + 1} : vector<int>{2, b.f + 1, 2, 2};
            forward(b, nm, make_snap(d, s, 1), 0, true);
            if (s % 2) look(b, nm, s);
            break;
        }
        case B_ALLOC:
            forward(b, nm, data(b, shape_of(b, o), s + 1), (uint64_t)o.in(5, 1, 500), false);
            if (s % 2) look(b, nm, s);
            break;
        case B_BWD: case B_ABWD: {
            if (!b.fwd) break;
            Snap g = make_snap(b.x.d, s + 50, 1);
            uint64_t nf = rt::alloc_failures();
            bool f = o.k == B_ABWD;
            if (f) rt::allow_stop(true);
            string e = attempt([&] {
                TF t = make(g);
                if (f) rt::arm_alloc_fail((uint64_t)o.in(5, 1, 500), 1);
                b.l->backward(t);
                rt::disarm_alloc_fail();
            });
            rt::disarm_alloc_fail();
            if (f) rt::allow_stop(false);
            if (!e.empty()) {
                if (rt::alloc_failures() == nf) RT_FAIL("unexpected-exception", "%s: backward threw: %s", nm.c_str(), e.c_str() + 1);
                b.grad = 0;
                break;
            }
            b.dga.assign((size_t)b.f, 0);
            b.dbe.assign((size_t)b.f, 0);
            for (size_t i = 0; i < g.v.size(); i++) { size_t k = feature(g.d, i); b.dga[k] += g.v[i] * b.xhat[i]; b.dbe[k] += g.v[i]; }
            b.grad = 1;
            rt::count("hist.backward");
            break;
        }
        case B_UPD: {
            if (!b.grad || std::fabs(b.off) > 40) break;       // far data: rounding of the gradients would pile up
            string e = attempt([&] { SGDOptions<float> so; so.learningRate = 0.0625f; SGDOptimizer<float> op(so); b.l->updateWeights(op); });
            if (!e.empty()) RT_FAIL("unexpected-exception", "%s: update threw: %s", nm.c_str(), e.c_str() + 1);
            for (size_t k = 0; k < (size_t)b.f; k++) { b.ga[k] -= 0.0625 * b.dga[k]; b.be[k] -= 0.0625 * b.dbe[k]; }
            b.grad = 0;
            rt::count("hist.update");
            break;
        }
        case B_COPY: {
            string e = attempt([&] {
                std::unique_ptr<BatchNormalizationLayer<float>> n(new BatchNormalizationLayer<float>(*b.l));
                if (s % 2) { b.l->setTrainingMode(true); b.l->forward(make({3, b.f}, s, 1)); }      // the original goes on
                b.l = std::move(n);
            });
            if (!e.empty()) RT_FAIL("unexpected-exception", "%s: copying threw: %s", nm.c_str(), e.c_str() + 1);
            rt::count("hist.copy");
            break;
        }
        default: break;
    }
}
static void run(const Plan& p) {
    Quiet q;
    Bn L[NL];
    for (int i = 0; i < NL; i++) {
        Bn& b = L[i];
        b.f = (int)p.in("f", 1, 5);
        float eps = EPS[p.in("eps", 0, 2)], mom = MOM[p.in("mom", 0, 3)];
        b.eps = eps;
        b.mom = mom;
        static const double OFF[] = {0, 16, -100, 512, -1024, 1000, 30};
        b.off = OFF[p.in("off", 0, 6)];
        b.rm.assign((size_t)b.f, 0);
        b.rv.assign((size_t)b.f, 1);
        b.ga.assign((size_t)b.f, 1);
        b.be.assign((size_t)b.f, 0);
        Loud l;
        if (p.in("eps", 0, 2) == 0 && p.in("mom", 0, 3) == 0) b.l.reset(new BatchNormalizationLayer<float>(b.f));
        else b.l.reset(new BatchNormalizationLayer<float>(b.f, eps, mom));
    }
    if (p.in("threads", 1, 2) == 2) {
        vector<int> hs;
        for (int t = 0; t < 2; t++)
            hs.push_back(rt::spawn([&, t] { Quiet q2; for (auto& o : p.ops) if ((int)o.in(0, 0, NL - 1) == t && o.k != B_ALLOC && o.k != B_ABWD) step(L[t], t, o); }));
        for (int h : hs) rt::join(h);
        rt::count("hist.concurrent_layers");
    } else
        for (auto& o : p.ops) step(L[o.in(0, 0, NL - 1)], (int)o.in(0, 0, NL - 1), o);
    for (int i = 0; i < NL; i++) {
        string nm = "batch normalization layer " + std::to_string(i);
        look(L[i], nm, 3);
        mode(L[i], nm, true);
        forward(L[i], nm, data(L[i], {3, L[i].f}, 8), 0, false);
    }
    Loud l;
    for (int i = 0; i < NL; i++) L[i].l.reset();
}
Scenario scenario() {
    Scenario s;
    s.prop = "C16";
    s.opnames.assign(NM, NM + NB);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is two batch normalization layers (1-5 features, three epsilons, four momenta) and 3-14 calls: 2-D and 4-D training and evaluation batches, mode changes, backward passes, updates, refused batches, failing allocations in forward and backward, copies, runs of up to 320 batches, data near or far from zero, by one or two threads; every output is compared with a double-precision model.";
    s.real = "BatchNormalizationLayer, tensor reductions and broadcasts, SGD";
    s.stub = "threads, OpenMP runtime and operator new are the simulator's";
    return s;
}
