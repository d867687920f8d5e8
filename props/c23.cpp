// C23: activations and losses are pure functions of their arguments, whatever was called before or meanwhile.
#include "kernels.hpp"
#include <memory>

enum { Q_FWD, Q_BWD, Q_BADFWD, Q_BADBWD, Q_AFWD, Q_ABWD, Q_NEW, Q_COPY, Q_PAR, NQ };
static const char* const NM[NQ] = {"forward", "backward", "bad_forward", "bad_backward", "alloc_forward", "alloc_backward", "new", "copy", "parallel"};
enum { A_RELU, A_SIG, A_TANH, A_LEAKY, A_SOFT, A_SWISH, A_MISH, A_MSE, A_CCE, NA };
static const char* const AN[NA] = {"ReLU", "sigmoid", "tanh", "leaky ReLU", "softmax", "swish", "mish", "mean squared error", "cross entropy"};
static constexpr int NO = 3;

struct Obj {
    int kind = 0, v = 0;
    std::unique_ptr<Activation<float>> a;
    std::unique_ptr<Loss<float>> l;
};
static float alpha_of(int v) { static const float t[] = {0.01f, 0.25f, 0.5f, 0.125f}; return t[v & 3]; }
static void build(Obj& o) {    // loud
    o.a.reset();
    o.l.reset();
    switch (o.kind) {
        case A_RELU: o.a.reset(new ReLU<float>()); break;
        case A_SIG: o.a.reset(new Sigmoid<float>()); break;
        case A_TANH: o.a.reset(new Tanh<float>()); break;
        case A_LEAKY: o.a.reset(new LeakyReLU<float>(alpha_of(o.v))); break;
        case A_SOFT: o.a.reset(new Softmax<float>()); break;
        case A_SWISH: o.a.reset(new Swish<float>()); break;
        case A_MISH: o.a.reset(new Mish<float>()); break;
        case A_MSE: o.l.reset(new MSELoss<float>()); break;
        default: o.l.reset(new CategoricalCrossEntropyLoss<float>()); break;
    }
}
static void copy_from(Obj& d, const Obj& s) {    // loud; same kind
    if (&d == &s) return;
    d.v = s.v;
    switch (s.kind) {
        case A_RELU: d.a.reset(new ReLU<float>(static_cast<const ReLU<float>&>(*s.a))); break;
        case A_SIG: d.a.reset(new Sigmoid<float>(static_cast<const Sigmoid<float>&>(*s.a))); break;
        case A_TANH: d.a.reset(new Tanh<float>(static_cast<const Tanh<float>&>(*s.a))); break;
        case A_LEAKY: d.a.reset(new LeakyReLU<float>(static_cast<const LeakyReLU<float>&>(*s.a))); break;
        case A_SOFT: d.a.reset(new Softmax<float>(static_cast<const Softmax<float>&>(*s.a))); break;
        case A_SWISH: d.a.reset(new Swish<float>(static_cast<const Swish<float>&>(*s.a))); break;
        case A_MISH: d.a.reset(new Mish<float>(static_cast<const Mish<float>&>(*s.a))); break;
        case A_MSE: d.l.reset(new MSELoss<float>(static_cast<const MSELoss<float>&>(*s.l))); break;
        default: d.l.reset(new CategoricalCrossEntropyLoss<float>(static_cast<const CategoricalCrossEntropyLoss<float>&>(*s.l))); break;
    }
}
// What one call is given.  For a loss x is the prediction and g the target.
struct In {
    Snap x, g;
    bool alias = false;
};
static In input(const Obj& o, int v, uint64_t seed, int big) {
    In in;
    int r = 1 + v % 4, h = 1 + v / 4 % 4, w = 2 + v / 16 % 4;
    vector<int> d = {r, w};
    if (o.kind == A_SOFT || o.kind == A_MSE) { if (v % 3 == 1) d = {r, h, w}; if (v % 5 == 1) d = {r, h, 2, w}; }
    else if (o.kind != A_CCE) { if (v % 3 == 0) d = {h * w}; if (v % 3 == 1) d = {r, h, w}; if (v % 5 == 1) d = {r, h, 2, w}; }
    if (big) {
        // many samples, long samples, or both
        static const int LONG[] = {33, 70, 130, 260, 520, 1030, 2100, 4100, 9000};
        if (v & 1) d[0] = 16 << (big % 5);
        else d.back() = LONG[(size_t)(big - 1) % 9];
        // the softmax gradient is quadratic in the sample
        if (o.kind == A_SOFT && d.back() > 1030) d.back() = 530;
        if (o.kind == A_SOFT && d.size() > 2 && d.back() > 130) d.back() = 70;
        while (dims_size(d) > (o.kind == A_SOFT && d.back() > 300 ? 2200 : o.kind == A_SOFT ? 9000 : 20000) && d[0] > 1) d[0] /= 2;
    }
    vector<int> dg = d;
    if (o.kind == A_MSE && v % 4 == 3) { d = {r + 1, 1}; dg = {r + 1}; }
    in.x = make_snap(d, seed * 3 + (uint64_t)v, o.kind == A_CCE ? 2 : 1);
    in.g = make_snap(dg, seed * 5 + (uint64_t)v + 1, 1);
    if (o.kind != A_CCE) for (auto& f : in.x.v) f += 1.0f / 256;      // away from the kinks
    // magnitudes far apart, values that do not survive being shifted and shifted back
    if (seed % 3 == 1 && o.kind != A_CCE && !big)
        for (size_t i = 0; i < in.x.v.size(); i++) in.x.v[i] *= i % 3 == 0 ? 13.7f : i % 3 == 1 ? 1.7e-5f : 0.91f;
    in.alias = d == dg && seed % 11 == 0 && o.kind != A_CCE;
    if (in.alias) in.g = in.x;
    return in;
}
static TF call(const Obj& o, bool fwd, const TF& x, const TF& g) {   // loud
    if (o.a) return fwd ? o.a->forward(x) : o.a->backward(x, g);
    return fwd ? o.l->compute(x, g) : o.l->gradient(x, g);
}
static Snap expect(const Obj& o, bool fwd, const In& in) {
    Quiet q;
    Snap r = in.x;
    size_t n = r.v.size();
    if (o.kind == A_MSE || o.kind == A_CCE) {
        double s = 0;
        for (size_t i = 0; i < n; i++) {
            double p = in.x.v[i], t = in.g.v[i];
            if (o.kind == A_MSE) { s += (p - t) * (p - t); r.v[i] = (float)(2 * (p - t) / (double)n); }
            else { s -= t * std::log(p); r.v[i] = (float)((p - t) / in.x.d[0]); }
        }
        if (fwd) { r.d = {1}; r.v = {(float)(s / (o.kind == A_MSE ? (double)n : (double)in.x.d[0]))}; }
        return r;
    }
    if (o.kind == A_SOFT) {
        size_t f = n / (size_t)in.x.d[0];
        for (size_t b = 0; b < n; b += f) {
            double m = -1e300, s = 0, dot = 0;
            vector<double> y(f);
            for (size_t i = 0; i < f; i++) m = std::fmax(m, in.x.v[b + i]);
            for (size_t i = 0; i < f; i++) s += y[i] = std::exp(in.x.v[b + i] - m);
            for (size_t i = 0; i < f; i++) { y[i] /= s; dot += y[i] * in.g.v[b + i]; }
            for (size_t i = 0; i < f; i++) r.v[b + i] = (float)(fwd ? y[i] : y[i] * (in.g.v[b + i] - dot));
        }
        return r;
    }
    for (size_t i = 0; i < n; i++) {
        double x = in.x.v[i], y = 0, d = 0, s = 1 / (1 + std::exp(-x));
        switch (o.kind) {
            case A_RELU: y = x > 0 ? x : 0; d = x > 0; break;
            case A_SIG: y = s; d = s * (1 - s); break;
            case A_TANH: y = std::tanh(x); d = 1 - y * y; break;
            case A_LEAKY: { double al = alpha_of(o.v); y = x > 0 ? x : al * x; d = x > 0 ? 1 : al; break; }
            case A_SWISH: y = x * s; d = s * (1 + x * (1 - s)); break;
            default: { double t = std::tanh(std::log1p(std::exp(x))); y = x * t; d = t + x * (1 - t * t) * s; break; }
        }
        r.v[i] = (float)(fwd ? y : d * in.g.v[i]);
    }
    return r;
}
struct Kept { TF* t; Snap s; string what; };

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") > 4) p.set("team", 4);
    int k0 = (int)r.below(NA);
    for (int i = 0; i < NO; i++) {
        p.set(("k" + std::to_string(i)).c_str(), r.chance(1, 2) ? k0 : (int)r.below(NA));
        p.set(("v" + std::to_string(i)).c_str(), (int64_t)r.below(8));
    }
    int n = (int)r.range(3, 14);
    int sh = (int)r.below(64);
    bool par = r.chance(1, 2), fault = r.chance(1, 2);
    int big = r.chance(1, 6) ? (int)r.range(1, 9) : 0;
    for (int i = 0; i < n; i++) {
        int w = (int)r.below(24);
        int k = w < 7 ? Q_FWD : w < 14 ? Q_BWD : w < 15 ? Q_BADFWD : w < 17 ? Q_BADBWD : w < 18 && fault ? Q_AFWD : w < 20 && fault ? Q_ABWD : w < 21 ? Q_NEW : w < 22 ? Q_COPY : par ? Q_PAR : Q_BWD;
        // object, shape, seed, failing allocation / other object / mask, big
        p.op(k, {r.range(0, NO - 1), r.chance(1, 2) ? sh : (int64_t)r.below(64), (int64_t)r.below(500), r.range(1, 24), r.chance(1, 3) ? big : 0});
    }
}
static void run(const Plan& p) {
    Quiet q;
    Obj ob[NO];
    vector<Kept> kept;
    for (int i = 0; i < NO; i++) {
        ob[i].kind = (int)p.in(("k" + std::to_string(i)).c_str(), 0, NA - 1);
        ob[i].v = (int)p.in(("v" + std::to_string(i)).c_str(), 0, 7);
        Loud l;
        build(ob[i]);
    }
    // one checked call; the returned tensor is kept and must not change later
    auto one = [&](Obj& o, bool fwd, const In& in, bool faulty, int64_t nth, vector<Kept>* keep, const char* when, TF* sx = nullptr, TF* sg = nullptr) {
        string nm = string(AN[o.kind]) + (o.a ? fwd ? " forward" : " backward" : fwd ? " value" : " gradient") + when;
        uint64_t nf = rt::alloc_failures();
        TF* out = nullptr;
        if (faulty) rt::allow_stop(true);
        string e = attempt([&] {
            TF x0 = make(sx ? Snap{{1}, {0}} : in.x), g0 = make(sx ? Snap{{1}, {0}} : in.g);
            TF &x = sx ? *sx : x0, &g = sx ? *sg : g0;
            const TF& gg = in.alias ? x : g;
            if (faulty) rt::arm_alloc_fail((uint64_t)nth, 1);
            TF y = call(o, fwd, x, gg);
            rt::disarm_alloc_fail();
            out = new TF(std::move(y));
            Quiet q2;
            expect_same("input-modified", "the first argument of " + nm, snap(x), in.x);
            if (!in.alias) expect_same("input-modified", "the second argument of " + nm, snap(g), in.g);
            // the caller may do with its tensors what it likes
            if (!sx) for (TF* t : {&x, &g}) for (size_t i = 0; i < t->getShape().size(); i++) t->getData().data()[i] = -77.0f;
        });
        rt::disarm_alloc_fail();
        if (faulty) rt::allow_stop(false);
        if (!e.empty()) {
            if (!faulty || rt::alloc_failures() == nf) RT_FAIL("unexpected-exception", "%s of shape %s threw: %s", nm.c_str(), dim_str(in.x.d).c_str(), e.c_str() + 1);
            rt::count("hist.failed_calls");
            return;
        }
        Snap s = snap(*out);
        expect_close("wrong-result", nm, s, expect(o, fwd, in), 2e-5 + 1.2e-7 * (double)in.x.v.size());    // sums round with every term
        note_snap(s);
        if (keep) keep->push_back({out, s, nm});
        else { Loud l; delete out; }
        rt::count("hist.calls");
    };
    for (auto& o : p.ops) {
        Obj& O = ob[o.in(0, 0, NO - 1)];
        int v = (int)o.in(1, 0, 63), big = (int)o.in(4, 0, 9);
        uint64_t s = (uint64_t)o.at(2);
        switch (o.k) {
            case Q_FWD: case Q_BWD: one(O, o.k == Q_FWD, input(O, v, s, big), false, 0, &kept, ""); break;
            case Q_AFWD: case Q_ABWD: one(O, o.k == Q_AFWD, input(O, v, s, big), true, o.in(3, 1, 40), &kept, ""); break;
            case Q_BADFWD: case Q_BADBWD: {
                In in = input(O, v, s, 0);
                bool fwd = o.k == Q_BADFWD;
                if (O.kind == A_SOFT && s % 2) { in.x = make_snap({4}, s, 1); in.g = in.x; }
                else if (fwd && O.a) break;
                else if (s % 3 && O.kind != A_SOFT) {
                    // as many elements, in another arrangement
                    vector<int> d = in.x.d;
                    size_t n = d.size();
                    if (n >= 2 && s % 3 == 1 && d[n - 1] != d[n - 2] && d[n - 1] > 1 && d[n - 2] > 1) std::swap(d[n - 1], d[n - 2]);
                    else if (O.l && s % 2) d.insert(d.begin(), 1);
                    else if (O.l && n >= 2 && (int)in.x.v.size() != d[0]) d = {(int)in.x.v.size()};
                    else break;
                    in.g = make_snap(d, s, 1);
                }
                else { vector<int> d = in.x.d; d.back() += 3; if (d[d.size() - 1] == 1 || in.x.d.back() == 1) break; in.g = make_snap(d, s, 1); }
                string e = attempt([&] { TF x = make(in.x), g = make(in.g); call(O, fwd, x, g); });
                if (e.empty()) RT_FAIL("bad-input-accepted", "%s accepted shapes %s and %s", AN[O.kind], dim_str(in.x.d).c_str(), dim_str(in.g.d).c_str());
                rt::count("hist.refused_calls");
                break;
            }
            case Q_NEW: { O.v = (int)(s & 7); Loud l; build(O); break; }
            case Q_COPY: {
                Obj& S = ob[o.in(3, 0, NO - 1)];
                if (S.kind != O.kind) break;
                Loud l;
                copy_from(O, S);
                rt::count("hist.copies");
                break;
            }
            case Q_PAR: {
                // one object used by two or three threads at once
                vector<int> hs;
                int nt = 2 + (int)(s & 1);
                vector<Kept> k2[3];
                // now and then the very same argument tensors too
                bool same = o.at(3) & 4;
                In si = input(O, v, s, big);
                TF *sx = nullptr, *sg = nullptr;
                { Loud l; sx = new TF(make(si.x)); sg = new TF(make(si.g)); }
                for (int t = 0; t < nt; t++) hs.push_back(rt::spawn([&, t] {
                    Quiet q2;
                    for (int c = 0; c < 2; c++) {
                        int64_t m = o.at(3) >> (t + c);
                        if (same) one(O, m & 1, si, false, 0, &k2[t], " of tensors other threads read", sx, sg);
                        else one(O, m & 1, input(O, (v + (m & 2 ? 13 * t : 0)) & 63, s + (uint64_t)(t * 2 + c), big), false, 0, &k2[t], " next to other threads");
                    }
                }));
                for (int h : hs) rt::join(h);
                for (auto& k : k2) for (auto& x : k) kept.push_back(x);
                { Loud l; delete sx; delete sg; }
                rt::count("hist.shared_object");
                break;
            }
            default: break;
        }
        for (auto& k : kept) expect_same("result-changed", "the result of an earlier " + k.what, snap(*k.t), k.s);
        // the caller scribbles over one of the results it holds
        if (s % 3 == 0 && !kept.empty()) {
            Kept& k = kept[s % kept.size()];
            for (size_t i = 0; i < k.s.v.size(); i++) k.s.v[i] = k.t->getData().data()[i] = 55.0f + (float)i;
        }
    }
    Loud l;
    for (auto& k : kept) delete k.t;
    for (auto& o : ob) { o.a.reset(); o.l.reset(); }
}
Scenario scenario() {
    Scenario s;
    s.prop = "C23";
    s.opnames.assign(NM, NM + NQ);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is 3-14 calls on three activation or loss objects (all nine kinds, often the same kind): forward and backward with independent, equal-shaped or different-shaped, aliased or large arguments, refused calls, calls hit by an allocation failure, copies and replaced objects, and one object used by 2-3 threads at once; every result is compared with the formula in double precision and must stay unchanged while later calls run and other results are overwritten.";
    s.real = "all activations and losses, tensors and tensor operations, compiled with OpenMP on";
    s.stub = "threads, OpenMP runtime and operator new are the simulator's";
    return s;
}
