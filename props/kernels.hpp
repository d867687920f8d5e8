// Catalogue of library computations, each a function of its plan arguments only.
#pragma once
#include "common.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
#include "smart_dnn/SmartDNN.hpp"

using namespace smart_dnn;

enum Kern {
    K_MATMUL, K_MATVEC, K_DOT, K_VECMAT, K_BATCH33, K_BATCH32, K_BATCH23, K_TRANSPOSE, K_PAIR, K_BCAST,
    K_SCALAR, K_INPLACE, K_APPLY, K_SUM, K_MEANVAR, K_SQRTREC, K_SLICE, K_FC, K_CONV, K_POOL,
    K_ACT, K_BNORM, K_LOSS, K_OPT, K_COPY, NKERN
};
static const char* const KNAME[NKERN] = {
    "matmul", "matvec", "dot", "vecmat", "batch33", "batch32", "batch23", "transpose", "pair", "bcast",
    "scalar", "inplace", "apply", "sum", "meanvar", "sqrtrec", "slice", "fc", "conv", "pool",
    "act", "bnorm", "loss", "opt", "copy"};

// args: 0 variant, 1 seed, 2.. dimensions
inline Op gen_kern(Rng& r, int k, int big) {
    Op o;
    o.k = k;
    int hi = big ? 9 : 4;
    o.a = {(int64_t)r.below(16), (int64_t)r.below(1000), r.range(1, hi), r.range(1, hi), r.range(1, hi), r.range(1, hi)};
    if (k == K_PAIR || k == K_APPLY || k == K_OPT) {
        if (r.chance(1, 3)) o.a[2] = r.range(1, 40);
        if (k == K_OPT && big && r.chance(1, 3)) { o.a[2] = 1; o.a[3] = r.range(990, 1100); }
    }
    if (big && r.chance(1, 3)) {
        // one long dimension (thresholds, blocks and chunks live there), or many elements
        o.a[2] = r.range(1, 3); o.a[3] = r.range(1, 3); o.a[4] = r.range(1, 3); o.a[5] = r.range(1, 2);
        o.a[2 + r.below(3)] = (int64_t)1 << r.range(4, 10);
        int at = 2 + (int)r.below(3);
        o.a[(size_t)at] = ((int64_t)1 << r.range(4, 10)) + r.range(-1, 40);
        if (r.chance(1, 2)) o.a[2] = o.a[3] = o.a[4] = ((int64_t)1 << r.range(3, 4)) + r.range(-1, 20);
    }
    if (big == 2) {
        // thousands of elements in a row
        o.a[2] = r.range(1, 2); o.a[3] = r.range(1, 2); o.a[4] = r.range(1, 2); o.a[5] = 1;
        o.a[2 + r.below(3)] = ((int64_t)1 << r.range(10, 16)) + (r.chance(1, 2) ? r.range(-1, 40) : (int64_t)r.below(9000));
    }
    return o;
}

// Result of a kernel: snapshots, plus an independent expectation where there is one.
struct KOut {
    vector<Snap> out;
    double tol = 2e-5;
    vector<Snap> ref;       // same length as out, or empty entries when there is none
    void push(const TF& t) { Quiet q; out.push_back(snap(t)); ref.emplace_back(); }
    void push(const TF& t, const Snap& want) { Quiet q; out.push_back(snap(t)); ref.push_back(want); }
};

inline Activation<float>* new_act(int v) {
    switch (v % 7) {
        case 0: return new ReLU<float>();
        case 1: return new Sigmoid<float>();
        case 2: return new Tanh<float>();
        case 3: return new LeakyReLU<float>();
        case 4: return new Softmax<float>();
        case 5: return new Swish<float>();
        default: return new Mish<float>();
    }
}

// Runs loud (called inside Loud).  Only float data small enough for exact sums.
// shapes stay small unless a dimension is long
inline int fold(int x, int m) { return x > 60 ? x : x % m + 1; }
inline void run_kern(const Op& o, KOut& K) {
    int v = (int)o.in(0, 0, 15);
    uint64_t sd = (uint64_t)o.at(1);
    int a = (int)o.in(2, 1, 140000), b = (int)o.in(3, 1, 140000), c = (int)o.in(4, 1, 140000), d = (int)o.in(5, 1, 16);
    if ((int64_t)a * b * c * d > 60000) {
        // keep the longest dimension
        int few = std::max(a, std::max(b, c)) > 30000 ? 1 : 5;
        if (a >= b && a >= c) { b = b % few + 1; c = c % few + 1; }
        else if (b >= c) { a = a % few + 1; c = c % few + 1; }
        else { a = a % few + 1; b = b % few + 1; }
    }
    // work that is quadratic, or slow for every element, stays shorter
    if (o.k == K_BCAST || o.k == K_INPLACE || o.k == K_BNORM || o.k == K_MEANVAR || (o.k == K_ACT && v % 7 == 4)) {
        int most = o.k == K_BNORM || o.k == K_ACT ? 700 : 2300;
        a = std::min(a, most);
        b = std::min(b, most);
        c = std::min(c, most);
    }
    if (o.k == K_BCAST || o.k == K_INPLACE || o.k == K_BNORM || o.k == K_SUM || (o.k >= K_BATCH33 && o.k <= K_BATCH23)) {
        int64_t most = o.k == K_BNORM ? 2500 : o.k == K_SUM ? 40000 : 12000;
        while ((int64_t)a * b * c > most) (a >= b && a >= c ? a : b >= c ? b : c) = std::max(a, std::max(b, c)) / 2;
    }
    K.tol = 2e-5 + 2e-8 * ((double)a * b * c);      // sums that do not come out even
    Snap x, y;
    auto mk = [&](Snap& s, const vector<int>& dims, int salt, int mode) { Quiet q; s = make_snap(dims, sd + (uint64_t)salt, mode); };
    switch (o.k) {
        case K_MATMUL: {
            mk(x, {a, b}, 0, 0);
            mk(y, {b, c}, 1, 0);
            TF r = ATO::matmul(make(x), make(y));
            Quiet q;
            K.push(r, ref_matmul2(x, y));
            break;
        }
        case K_MATVEC: {
            mk(x, {a, b}, 0, 0);
            mk(y, {b}, 1, 0);
            TF r = ATO::matmul(make(x), make(y));
            Quiet q;
            Snap y2 = y;
            y2.d = {b, 1};
            Snap e = ref_matmul2(x, y2);
            e.d = {a};
            K.push(r, e);
            break;
        }
        case K_DOT: {
            mk(x, {b}, 0, 0);
            mk(y, {b}, 1, 0);
            TF r = ATO::matmul(make(x), make(y));
            Quiet q;
            double s = 0;
            for (int i = 0; i < b; i++) s += (double)x.v[(size_t)i] * y.v[(size_t)i];
            Snap e;
            e.d = {1};
            e.v = {(float)s};
            K.push(r, e);
            break;
        }
        case K_VECMAT: {
            mk(x, {b}, 0, 0);
            mk(y, {b, c}, 1, 0);
            TF r = ATO::matmul(make(x), make(y));
            Quiet q;
            Snap x2 = x;
            x2.d = {1, b};
            Snap e = ref_matmul2(x2, y);
            e.d = {c};
            K.push(r, e);
            break;
        }
        case K_BATCH33: case K_BATCH32: case K_BATCH23: {
            b = fold(b - 1, 6);
            vector<int> da = o.k == K_BATCH23 ? vector<int>{a, b} : vector<int>{d, a, b};
            vector<int> db = o.k == K_BATCH32 ? vector<int>{b, c} : vector<int>{d, b, c};
            mk(x, da, 0, 0);
            mk(y, db, 1, 0);
            TF r = ATO::matmul(make(x), make(y));
            Quiet q;
            Snap e;
            e.d = {d, a, c};
            for (int i = 0; i < d; i++) {
                auto part = [&](const Snap& s) {
                    if (s.d.size() == 2) return s;
                    Snap t;
                    t.d = {s.d[1], s.d[2]};
                    size_t n = (size_t)s.d[1] * s.d[2];
                    t.v.assign(s.v.begin() + (long)(n * (size_t)i), s.v.begin() + (long)(n * (size_t)(i + 1)));
                    return t;
                };
                Snap p = ref_matmul2(part(x), part(y));
                e.v.insert(e.v.end(), p.v.begin(), p.v.end());
            }
            K.push(r, e);
            break;
        }
        case K_TRANSPOSE: {
            vector<int> dd = {a, fold(b - 1, 64)};
            if (v & 1) dd.push_back(c);
            if (v & 2) dd.push_back(d);
            size_t d0 = (size_t)v % dd.size(), d1 = (size_t)(v / 3) % dd.size();
            mk(x, dd, 0, 3);
            TF r = ATO::transpose(make(x), d0, d1);
            Quiet q;
            K.push(r, ref_transpose(x, d0, d1));
            break;
        }
        case K_PAIR: {
            mk(x, {a, b}, 0, 1);
            mk(y, {a, b}, 1, 1);
            TF r = ATO::applyPair(make(x), make(y), [](float p, float q) { return p * 2 - q; });
            Quiet q;
            K.push(r, ref_broadcast(x, y, [](float p, float q2) { return p * 2 - q2; }));
            break;
        }
        case K_BCAST: {
            vector<int> da = {a, fold(b - 1, 9), c}, db = da;
            if (v & 1) da[0] = 1;
            if (v & 2) db[1] = 1;
            if (v & 4) db[2] = 1;
            if (v & 8) db.erase(db.begin());
            mk(x, da, 0, 1);
            mk(y, db, 1, 2);
            int w = (v + (int)sd) % 4;
            TF p = make(x), q0 = make(y);
            TF r = w == 0 ? p + q0 : w == 1 ? p - q0 : w == 2 ? p * q0 : p / q0;
            Quiet q;
            K.push(r, ref_broadcast(x, y, [w](float s, float t) { return w == 0 ? s + t : w == 1 ? s - t : w == 2 ? s * t : s / t; }));
            break;
        }
        case K_SCALAR: {
            mk(x, {a, fold(b, 16)}, 0, 2);
            TF p = make(x);
            float s = 2.0f;
            int w = v % 7;
            TF r = w == 0 ? p + s : w == 1 ? p - s : w == 2 ? p * s : w == 3 ? p / s : w == 4 ? s - p : w == 5 ? s / p : -p;
            Quiet q;
            Snap e = x;
            for (auto& t : e.v) t = w == 0 ? t + s : w == 1 ? t - s : w == 2 ? t * s : w == 3 ? t / s : w == 4 ? s - t : w == 5 ? s / t : -t;
            K.push(r, e);
            break;
        }
        case K_INPLACE: {
            vector<int> da = {a, fold(b, 9)}, db = da;
            if (v & 8) db = {da[1]};
            mk(x, da, 0, 1);
            mk(y, db, 1, 2);
            TF p = make(x), q0 = make(y);
            int w = v % 8;
            switch (w) {
                case 0: p += q0; break;
                case 1: p -= q0; break;
                case 2: p *= q0; break;
                case 3: p /= q0; break;
                case 4: p += 2.0f; break;
                case 5: p -= 2.0f; break;
                case 6: p *= 2.0f; break;
                default: p /= 2.0f; break;
            }
            Quiet q;
            Snap two;
            two.d = {1};
            two.v = {2.0f};
            K.push(p, ref_broadcast(x, w < 4 ? y : two, [w](float s, float t) { int u = w % 4; return u == 0 ? s + t : u == 1 ? s - t : u == 2 ? s * t : s / t; }));
            K.push(q0, y);
            break;
        }
        case K_APPLY: {
            mk(x, {a, b}, 0, 1);
            TF p = make(x);
            TF r = ATO::apply(p, [](float t) { return t * t + 1; });
            p.apply([](float t) { return 3 * t; });
            Quiet q;
            Snap e = x, f = x;
            for (auto& t : e.v) t = t * t + 1;
            for (auto& t : f.v) t = 3 * t;
            K.push(r, e);
            K.push(p, f);
            break;
        }
        case K_SUM: {
            vector<int> dd = {a, fold(b, 12), c};
            mk(x, dd, 0, 0);
            TF p = make(x);
            size_t ax = (size_t)v % 3;
            TF r = ATO::sum(p, ax);
            TF all = ATO::sum(p);
            TF two = ATO::sum(p, vector<size_t>{ax, (ax + 1) % 3});
            Quiet q;
            Snap e;
            for (size_t i = 0; i < 3; i++) if (i != ax) e.d.push_back(dd[i]);
            e.v.assign(dims_size(e.d), 0);
            Snap g;
            size_t keep = (ax + 2) % 3;
            g.d = {dd[keep]};
            g.v.assign((size_t)dd[keep], 0);
            double tot = 0;
            size_t n = 0;
            for (int i = 0; i < dd[0]; i++) for (int j = 0; j < dd[1]; j++) for (int k = 0; k < dd[2]; k++, n++) {
                int ix[3] = {i, j, k};
                size_t o2 = 0;
                for (size_t t = 0; t < 3; t++) if (t != ax) o2 = o2 * (size_t)dd[t] + (size_t)ix[t];
                e.v[o2] += x.v[n];
                g.v[(size_t)ix[keep]] += x.v[n];
                tot += x.v[n];
            }
            Snap f;
            f.d = {1};
            f.v = {(float)tot};
            K.push(r, e);
            K.push(all, f);
            K.push(two, g);
            break;
        }
        case K_MEANVAR: {
            vector<int> dd = {a + 1, fold(b, 12)};
            mk(x, dd, 0, 0);
            TF p = make(x);
            TF m = ATO::mean(p, vector<size_t>{0});
            TF w = ATO::variance(p, m, vector<size_t>{0});
            TF mm = ATO::mean(p);
            K.push(m);
            K.push(w);
            K.push(mm);
            break;
        }
        case K_SQRTREC: {
            mk(x, {a, fold(b, 16)}, 0, 2);
            TF p = make(x);
            TF r = p.sqrt();
            TF s = ATO::reciprocal(p);
            K.push(r);
            K.push(s);
            break;
        }
        case K_SLICE: {
            vector<int> dd = {a, fold(b, 12), c};
            mk(x, dd, 0, 3);
            TF p = make(x);
            int ix = (int)((uint64_t)v % (uint64_t)a);
            TF r = p.slice(0, ix);
            Quiet q;
            Snap e;
            e.d = {dd[1], dd[2]};
            size_t n = dims_size(e.d);
            e.v.assign(x.v.begin() + (long)(n * (size_t)ix), x.v.begin() + (long)(n * (size_t)(ix + 1)));
            K.push(r, e);
            break;
        }
        case K_FC: {
            int in = fold(b, 9), out = c, n = a;
            Snap w, bi, g;
            mk(x, {n, in}, 0, 0);
            mk(w, {in, out}, 1, 0);
            mk(bi, {1, out}, 2, 0);
            mk(g, {n, out}, 3, 0);
            FullyConnectedLayer<float> l(in, out);
            l.setWeights(make(w));
            l.setBiases(make(bi));
            TF y1 = l.forward(make(x));
            TF gi = l.backward(make(g));
            TF wg = l.getWeightGradients(), bg = l.getBiasGradients();
            Quiet q;
            K.push(y1, ref_broadcast(ref_matmul2(x, w), bi, [](float s, float t) { return s + t; }));
            K.push(gi, ref_matmul2(g, ref_transpose(w, 0, 1)));
            K.push(wg, ref_matmul2(ref_transpose(x, 0, 1), g));
            K.push(bg);
            break;
        }
        case K_CONV: {
            // many pictures, channels or pixels now and then
            bool lot = a > 60;
            int kk = v % 3 + 1, h = kk + (b > 60 ? b % 11 : b % 4), w0 = kk + (c > 60 ? c % 11 : c % 4);
            Snap g, w, bi;
            int oc = lot ? a % 24 + 3 : d % 2 + 1, ic = lot && b % 3 == 0 ? 3 : 1, nb = lot && c % 4 == 0 ? 4 : 1 + v % 2;
            mk(x, {nb, ic, h, w0}, 0, 0);
            mk(w, {oc, ic, kk, kk}, 1, 0);
            mk(bi, {oc, 1}, 2, 0);
            mk(g, {nb, oc, h - kk + 1, w0 - kk + 1}, 3, 0);
            Conv2DLayer<float> l(ic, oc, kk);
            l.setWeights(make(w));
            l.setBiases(make(bi));
            TF y1 = l.forward(make(x));
            TF gi = l.backward(make(g));
            TF wg = l.getWeightGradients(), bg = l.getBiasGradients();
            K.push(y1);
            K.push(gi);
            K.push(wg);
            K.push(bg);
            break;
        }
        case K_POOL: {
            int ps = v % 2 + 1, st = v / 2 % 2 + 1;
            int h = ps + (b > 60 ? b % 19 : b % 5), w0 = ps + (c > 60 ? c % 19 : c % 5);
            int nb = a > 60 ? a % 5 + 1 : a % 2 + 1, ch = a > 60 ? a % 20 + 1 : d % 3 + 1;
            mk(x, {nb, ch, h, w0}, 0, 1);
            Snap g;
            mk(g, {nb, ch, (h - ps) / st + 1, (w0 - ps) / st + 1}, 3, 0);
            MaxPooling2DLayer<float> l(ps, st);
            TF y1 = l.forward(make(x));
            TF gi = l.backward(make(g));
            K.push(y1);
            K.push(gi);
            break;
        }
        case K_ACT: {
            mk(x, {a, fold(b, 12)}, 0, 1);
            mk(y, {a, fold(b, 12)}, 1, 1);
            std::unique_ptr<Activation<float>> f(new_act(v));
            TF r = f->forward(make(x));
            TF g = f->backward(make(x), make(y));
            K.push(r);
            K.push(g);
            break;
        }
        case K_BNORM: {
            int n = a + 1, f = fold(b, 6);
            bool four = v & 1;
            vector<int> dd = four ? vector<int>{n, f, 2, 2} : vector<int>{n, f};
            Snap g;
            mk(x, dd, 0, 0);
            mk(y, dd, 1, 0);
            mk(g, dd, 3, 0);
            BatchNormalizationLayer<float> l(f);
            TF r = l.forward(make(x));
            K.push(r);
            TF gi = l.backward(make(g));
            K.push(gi);
            l.setTrainingMode(false);
            TF e = l.forward(make(y));
            K.push(e);
            break;
        }
        case K_LOSS: {
            mk(x, {a, fold(b, 8)}, 0, 2);
            mk(y, {a, fold(b, 8)}, 1, 2);
            if (v & 1) {
                MSELoss<float> l;
                TF r = l.compute(make(x), make(y)), g = l.gradient(make(x), make(y));
                K.push(r);
                K.push(g);
            } else {
                CategoricalCrossEntropyLoss<float> l;
                TF r = l.compute(make(x), make(y)), g = l.gradient(make(x), make(y));
                K.push(r);
                K.push(g);
            }
            break;
        }
        case K_OPT: {
            mk(x, {a, b}, 0, 1);
            mk(y, {a, b}, 1, 1);
            Snap w2, g2;
            mk(w2, {1, c}, 2, 1);
            mk(g2, {1, c}, 3, 1);
            TF p = make(x), g = make(y), p2 = make(w2), gg = make(g2);
            auto go = [&](Optimizer<float>& op) {
                for (int i = 0; i < 2 + v % 2; i++) op.optimize({std::ref(p), std::ref(p2)}, {std::ref(g), std::ref(gg)});
            };
            if (v % 3 == 0) { SGDOptimizer<float> op; go(op); }
            else if (v % 3 == 1) { AdamOptimizer<float> op; go(op); }
            else { RMSPropOptimizer<float> op; go(op); }
            K.push(p);
            K.push(p2);
            break;
        }
        case K_COPY: {
            mk(x, {a, fold(b, 12)}, 0, 1);
            TF p = make(x);
            TF q0 = p;
            q0.reshape(vector<int>{fold(b, 12), a});
            TF z = TF::zeros(Shape({a, c})), i1 = TF::identity(c > 400 ? c % 9 + 1 : c), on = TF::ones(Shape({fold(b, 12)}));
            z = p;
            bool eq = z == p;
            TF m = std::move(q0);
            K.push(p, x);
            Quiet q;
            Snap e = x;
            std::swap(e.d[0], e.d[1]);
            K.push(m, e);
            K.push(z, x);
            if (!eq) RT_FAIL("wrong-result", "a copy does not compare equal to its original");
            K.push(i1);
            K.push(on);
            break;
        }
        default: break;
    }
}

inline void compare_kern(const char* cls, const string& what, const KOut& got, const KOut& base) {
    if (got.out.size() != base.out.size()) RT_FAIL(cls, "%s: %zu results, expected %zu", what.c_str(), got.out.size(), base.out.size());
    for (size_t i = 0; i < got.out.size(); i++) expect_close(cls, what + " result " + std::to_string(i), got.out[i], base.out[i], base.ref[i].d.empty() ? base.tol : 2e-5);
}
inline void check_refs(const char* cls, const string& what, const KOut& k) {
    for (size_t i = 0; i < k.out.size(); i++)
        if (!k.ref[i].d.empty()) expect_close(cls, what + " result " + std::to_string(i) + " against the definition", k.out[i], k.ref[i], 2e-5);
}
