// C06: running out of memory inside a tensor operation never corrupts a value.
// Nothing is tolerated here: an exception cannot leave an OpenMP region, so an allocation that
// fails inside one ends the process, and that is a violation.
#include "kernels.hpp"
#include <memory>

enum { M_COPY, M_ASSIGN, M_MOVE, M_INPLACE, M_SCALAR_IN, M_BIN, M_SCALAR, M_RESHAPE, M_APPLY, M_MATMUL, M_TRANS, M_SLICE, M_SUM, M_SQRT,
       M_CREATE, M_SHAPE, M_VECTOR, M_FC, M_ACT, M_LOSS, M_BN, M_POOL, M_CONV, M_KERNEL, M_SETP, M_ADD, M_PRED, M_MODEL, NM_ };
static const char* const NM[NM_] = {"copy", "assign", "moveassign", "inplace", "scalar_inplace", "binary", "scalar", "reshape", "apply", "matmul", "transpose", "slice", "sum", "sqrt",
                                    "create", "shape", "vector", "fc", "activation", "loss", "batchnorm", "pool", "conv", "kernel", "set_parameters", "add_layer", "predict", "build_model"};
static constexpr int NT = 4;

// Layers whose parameters must survive; built before faults start.
struct Kit {
    std::unique_ptr<FullyConnectedLayer<float>> fc;
    std::unique_ptr<Conv2DLayer<float>> conv;
    std::unique_ptr<BatchNormalizationLayer<float>> bn;
    std::unique_ptr<MaxPooling2DLayer<float>> pool;
    vector<std::unique_ptr<ActivationLayer<float>>> act;
    SmartDNN<float> model;          // grows by one 3 -> 3 layer at a time
    int nlayers = 0;
    Shape sh{std::vector<int>{2, 3}};
};
static std::unique_ptr<FullyConnectedLayer<float>> square(int v) {    // loud, no faults armed
    std::unique_ptr<FullyConnectedLayer<float>> f(new FullyConnectedLayer<float>(3, 3));
    f->setWeights(make({3, 3}, (uint64_t)v, 2));
    return f;
}
struct Pool {
    TF* t[NT];
};
// One operation.  Results go to out (in place operations push the changed tensor).
static void perform(const Op& o, Pool& P, Kit& K, vector<Snap>& out) {
    int v = (int)o.in(2, 0, 31);
    TF &a = *P.t[o.in(0, 0, NT - 1)], &b = *P.t[o.in(1, 0, NT - 1)];
    auto put = [&](const TF& t) { Quiet q; out.push_back(snap(t)); };
    int r = (int)a.getShape()[0], c = (int)a.getShape()[1];
    switch (o.k) {
        case M_COPY: { TF x(a); put(x); TF y = x + 1.0f; TF z(std::move(y)); put(z); break; }
        case M_ASSIGN: a = b; put(a); break;
        case M_MOVE: { TF x(b); a = std::move(x); put(a); break; }
        case M_INPLACE: {
            TF w = v & 16 ? TF(Shape({1, c}), 2.0f) : TF(Shape({r, c}), 2.0f);
            switch (v % 4) { case 0: a += w; break; case 1: a -= w; break; case 2: a *= w; break; default: a /= w; break; }
            put(a);
            break;
        }
        case M_SCALAR_IN: switch (v % 4) { case 0: a += 2.0f; break; case 1: a -= 2.0f; break; case 2: a *= 2.0f; break; default: a /= 2.0f; break; } put(a); break;
        case M_BIN: {
            TF w = v & 16 ? TF(Shape({c}), 2.0f) : TF(Shape({r, c}), 2.0f);
            put(v % 4 == 0 ? a + w : v % 4 == 1 ? a - w : v % 4 == 2 ? a * w : a / w);
            break;
        }
        case M_SCALAR: put(v % 5 == 0 ? a + 3.0f : v % 5 == 1 ? a * 3.0f : v % 5 == 2 ? 1.0f - a : v % 5 == 3 ? 1.0f / a : -a); break;
        case M_RESHAPE:
            if (v & 1) a.reshape(std::vector<int>{c, r});
            else if (v & 2) a.reshape(Shape({c, r}));
            else put(ATO::reshape(a, Shape({1, r * c})));
            put(a);
            break;
        case M_APPLY: a.apply([](float x) { return x * 2 + 1; }); put(a); put(ATO::apply(a, [](float x) { return x - 1; })); break;
        case M_MATMUL: {
            TF w(Shape({c, 2 + v % 2}), 0.5f);
            put(ATO::matmul(a, w));
            break;
        }
        case M_TRANS: put(ATO::transpose(a, 0, 1)); break;
        case M_SLICE: put(a.slice(0, v % r)); break;
        case M_SUM: put(v & 1 ? ATO::sum(a) : v & 2 ? ATO::sum(a, (size_t)(v >> 2) % 2) : ATO::mean(a)); break;
        case M_SQRT: put((a * a).sqrt()); put(ATO::reciprocal(a)); break;
        case M_CREATE:
            if (v & 8) { RandomEngine::setSeed(5); put(v & 4 ? TF::rand(Shape({r, c})) : TF::randn(Shape({r, c}), 0, 1)); break; }
            put(v % 4 == 0 ? TF(Shape({r, c})) : v % 4 == 1 ? TF::ones(Shape({c})) : v % 4 == 2 ? TF::identity(c) : TF(Shape({2}), {1.0f, 2.0f})); break;
        case M_SHAPE: {
            Shape s(a.getShape());
            if (v & 1) K.sh = b.getShape();
            else if (v & 2) K.sh.reshape(std::vector<int>{1, (int)K.sh.size()});
            else K.sh = Shape({r, c, 1});
            Quiet q;
            Snap e;
            for (int x : K.sh.getDimensions()) { e.d.push_back(x); }
            if (e.d.empty()) RT_FAIL("corrupted-value", "a shape lost its dimensions");
            e.v.assign(dims_size(e.d), 0);
            if (K.sh.size() != e.v.size()) RT_FAIL("corrupted-value", "a shape of %s counts %zu elements", dim_str(e.d).c_str(), K.sh.size());
            out.push_back(e);
            break;
        }
        case M_VECTOR: {
            std::vector<TF> x;
            for (int i = 0; i < 1 + v % 3; i++) x.push_back(a);
            for (auto& t : x) put(t);
            break;
        }
        case M_FC: {
            TF x(Shape({1 + v % 2, 3}), 0.5f);
            TF y = K.fc->forward(x);
            TF g = K.fc->backward(y);
            put(y);
            put(g);
            break;
        }
        case M_CONV: {
            TF x(Shape({1, 1, 3, 3}), 0.5f);
            TF y = K.conv->forward(x);
            put(y);
            put(K.conv->backward(y));
            break;
        }
        case M_POOL: {
            TF x(Shape({1, 2, 3, 3}), 0.5f);
            TF y = K.pool->forward(x);
            put(y);
            put(K.pool->backward(y));
            break;
        }
        case M_ACT: {
            TF y = K.act[(size_t)v % K.act.size()]->forward(a);
            TF g = K.act[(size_t)v % K.act.size()]->backward(y);
            put(y);
            put(g);
            break;
        }
        case M_BN: {
            K.bn->setTrainingMode(false);
            put(K.bn->forward(TF(Shape({2, 3}), 0.5f)));
            break;
        }
        case M_LOSS: {
            TF w(Shape({r, c}), 0.5f);
            if (v & 1) { MSELoss<float> l; put(l.compute(a, w)); put(l.gradient(a, w)); }
            else { CategoricalCrossEntropyLoss<float> l; put(l.compute(w, w)); put(l.gradient(w, w)); }
            break;
        }
        case M_SETP: {
            if (v & 1) K.fc->setWeights(v & 2 ? TF(Shape({3, 2}), 0.25f * (float)v) : make({3, 2}, (uint64_t)v, 2));
            else if (v & 2) K.fc->setBiases(make({1, 2}, (uint64_t)v, 2));
            else if (v & 4) K.conv->setWeights(make({1, 1, 2, 2}, (uint64_t)v, 2));
            else K.conv->setBiases(make({1, 1}, (uint64_t)v, 2));
            Quiet q;
            for (Snap x : {snap(K.fc->getWeights()), snap(K.fc->getBiases()), snap(K.conv->getWeights()), snap(K.conv->getBiases())}) out.push_back(x);
            break;
        }
        case M_ADD: {
            bool lin;
            { Quiet q; lin = K.nlayers % 2 == 0 || (v & 1); }
            if (lin) { auto f = square(v); K.model.addLayer(std::move(*f)); }
            else K.model.addLayer(ActivationLayer<float>(Tanh<float>()));
            Quiet q;
            K.nlayers++;
            break;
        }
        case M_PRED: {
            K.model.evalMode();
            if (v & 1) put(K.model.predict(TF(Shape({1 + v % 2, 3}), 0.5f)));
            else {
                vector<TF> x;
                for (int i = 0; i < 1 + v % 3; i++) x.push_back(TF(Shape({1, 3}), 0.5f + (float)i));
                vector<TF> y = K.model.predict(x);
                for (auto& t : y) put(t);
            }
            break;
        }
        case M_MODEL: {
            SmartDNN<float> m;
            m.addLayer(FullyConnectedLayer<float>(3, 2));
            m.addLayer(ActivationLayer<float>(Sigmoid<float>()));
            if (v & 1) m.addLayer(BatchNormalizationLayer<float>(2));
            if (v & 2) m.addLayer(DropoutLayer<float>(0.5f));
            static_cast<FullyConnectedLayer<float>*>(m.getLayer(0))->setWeights(make({3, 2}, (uint64_t)v, 2));
            if (v & 4) m.compile(MSELoss<float>(), AdamOptimizer<float>());
            else m.compile(MSELoss<float>(), SGDOptimizer<float>());
            m.evalMode();
            put(m.predict(TF(Shape({2, 3}), 0.5f)));
            if (v & 8) {
                m.trainingMode();
                RandomEngine::setSeed(3);
                m.train({TF(Shape({2, 3}), 0.5f)}, {TF(Shape({2, 2}), 0.5f)}, 1);
                put(static_cast<FullyConnectedLayer<float>*>(m.getLayer(0))->getWeights());
            }
            break;
        }
        default: {
            KOut ko;
            Op o2;
            o2.k = (int)o.in(5, 0, NKERN - 1);
            o2.a = {v % 16, 3, o.in(6, 1, 4), o.in(7, 1, 4), 2, 2};
            { Quiet q; if (o2.k == K_FC || o2.k == K_CONV || o2.k == K_OPT) o2.k = K_COPY; }
            run_kern(o2, ko);
            Quiet q;
            out = ko.out;
            break;
        }
    }
}
static void gen(Rng& r, Plan& p) {
    gen_env(r, p, r.chance(1, 2) ? ENV_ALL : ENV_ALLOC | ENV_FILL);
    int n = (int)r.range(1, 8);
    bool burst = r.chance(1, 4);
    p.set("burst", burst ? r.range(2, 6) : 1);
    p.set("dims", r.chance(1, 2) ? r.range(1, 1 << 20) : 0);
    for (int i = 0; i < n; i++) {
        // operands, variant, first failing allocation, number of attempts
        int64_t first = r.chance(1, 3) ? 1 : r.range(1, r.chance(1, 4) ? 60 : 14);
        p.op((int)r.below(NM_), {(int64_t)r.below(NT), (int64_t)r.below(NT), (int64_t)r.below(32), first, r.range(1, 10), (int64_t)r.below(NKERN), r.range(1, 4), r.range(1, 4)});
    }
}
static void run(const Plan& p) {
    Quiet q;
    Pool P, W;                      // the tensors under test and their undisturbed twins
    Kit K, KW;
    uint64_t burst = (uint64_t)p.in("burst", 1, 8);
    vector<Snap> out, want;
    {
        Loud l;
        for (int i = 0; i < NT; i++) {
            vector<int> d = {1 + i, 3 - i % 2 + (i == 3)};
            static const int pick[][2] = {{1, 4}, {2, 2}, {4, 1}, {2, 6}, {3, 4}, {6, 2}, {1, 12}, {5, 3}};
            if (uint64_t code = (uint64_t)p.in("dims", 0, 1 << 20)) { auto& x = pick[mix64(code, (uint64_t)i) % ((code & 1) ? 3 : 8)]; d = {x[0], x[1]}; }
            P.t[i] = new TF(make(d, 10 + (uint64_t)i, 2));
            W.t[i] = new TF(make(d, 10 + (uint64_t)i, 2));
        }
        for (Kit* k : {&K, &KW}) {
            RandomEngine::setSeed(7);
            k->fc.reset(new FullyConnectedLayer<float>(3, 2));
            k->conv.reset(new Conv2DLayer<float>(1, 1, 2));
            k->bn.reset(new BatchNormalizationLayer<float>(3));
            k->pool.reset(new MaxPooling2DLayer<float>(2, 1));
            k->act.emplace_back(new ActivationLayer<float>(ReLU<float>()));
            k->act.emplace_back(new ActivationLayer<float>(Sigmoid<float>()));
            k->act.emplace_back(new ActivationLayer<float>(Tanh<float>()));
            k->act.emplace_back(new ActivationLayer<float>(Softmax<float>()));
            k->act.emplace_back(new ActivationLayer<float>(Mish<float>()));
        }
    }
    for (auto& o : p.ops) {
        vector<Snap> before;
        for (auto* t : P.t) before.push_back(snap(*t));
        Snap w0 = snap(K.fc->getWeights()), b0 = snap(K.fc->getBiases()), c0 = snap(K.conv->getWeights()), cb0 = snap(K.conv->getBiases());
        vector<int> sh0 = K.sh.getDimensions();
        bool inplace = o.k == M_ASSIGN || o.k == M_MOVE || o.k == M_INPLACE || o.k == M_SCALAR_IN || o.k == M_RESHAPE || o.k == M_APPLY || o.k == M_SHAPE || o.k == M_ADD;
        bool compound = (o.k == M_APPLY) || (o.k == M_RESHAPE);    // changes, then computes further
        want.clear();
        if (o.k == M_PRED && !K.nlayers) continue;
        string e0 = attempt([&] { perform(o, W, KW, want); });
        if (!e0.empty()) RT_FAIL("unexpected-exception", "%s threw without a fault: %s", NM[o.k], e0.c_str() + 1);
        uint64_t nth = (uint64_t)o.in(3, 1, 400), tries = (uint64_t)o.in(4, 0, 40);
        bool done = false;
        for (uint64_t i = 0; i < tries && !done; i++, nth++) {
            uint64_t live = rt::live_allocs(), nf = rt::alloc_failures();
            out.clear();
            rt::arm_alloc_fail(nth, burst);
            string e = attempt([&] { perform(o, P, K, out); });
            rt::disarm_alloc_fail();
            if (rt::alloc_failures() == nf) { done = true; if (!e.empty()) RT_FAIL("unexpected-exception", "%s threw without a fault: %s", NM[o.k], e.c_str() + 1); break; }
            if (e.empty()) {
                // the failure was absorbed: then the operation must have worked
                rt::count("hist.failure_absorbed");
                if (inplace || o.k == M_KERNEL) { done = true; break; }    // carried out: it cannot be repeated from the same state
                if (out.size() != want.size()) RT_FAIL("wrong-after-failure", "%s gave %zu results although it absorbed a failure, %zu without", NM[o.k], out.size(), want.size());
                for (size_t k = 0; k < out.size(); k++) expect_close("wrong-after-failure", string(NM[o.k]) + " absorbing a failure", out[k], want[k], 1e-5);
                for (int k = 0; k < NT; k++) expect_same("corrupted-value", string("a tensor after ") + NM[o.k] + " absorbed a failure", snap(*P.t[k]), before[(size_t)k]);
                continue;
            }
            rt::count("fault.operation_failed");
            uint64_t now = rt::live_allocs();
            bool touched = false;
            for (int k = 0; k < NT; k++) {
                Snap s = snap(*P.t[k]);
                if (s == before[(size_t)k]) continue;
                // an in-place operation may only have been completed in full
                if (inplace && compound && k == (int)o.in(0, 0, NT - 1) && !out.empty() && s == out[0]) { touched = true; continue; }
                if (inplace && compound && k == (int)o.in(0, 0, NT - 1) && s == snap(*W.t[k])) { touched = true; continue; }
                expect_same("corrupted-value", string("a tensor after ") + NM[o.k] + " failed at allocation " + std::to_string(nth), s, before[(size_t)k]);
            }
            if (o.k == M_SETP) {
                Snap got[] = {snap(K.fc->getWeights()), snap(K.fc->getBiases()), snap(K.conv->getWeights()), snap(K.conv->getBiases())};
                Snap old[] = {w0, b0, c0, cb0};
                for (int k = 0; k < 4; k++) if (got[k] != want[(size_t)k]) expect_same("corrupted-value", "a layer's parameter after setting it failed", got[k], old[k]);
            }
            if (o.k == M_FC || o.k == M_CONV) {
                expect_same("corrupted-value", "weights after a failed layer call", snap(K.fc->getWeights()), w0);
                expect_same("corrupted-value", "biases after a failed layer call", snap(K.fc->getBiases()), b0);
                expect_same("corrupted-value", "weights after a failed layer call", snap(K.conv->getWeights()), c0);
            }
            if (K.sh.getDimensions() != sh0 || K.sh.size() != dims_size(sh0) || K.sh.getStride().size() != sh0.size())
                RT_FAIL("corrupted-value", "a shape changed from %s although %s failed", dim_str(sh0).c_str(), NM[o.k]);
            bool layer = o.k == M_FC || o.k == M_CONV || o.k == M_POOL || o.k == M_ACT || o.k == M_BN || o.k == M_SETP || o.k == M_ADD || o.k == M_PRED;
            if (!layer && o.k != M_KERNEL && !touched && now > live) {
                // what is left behind by the first failure only is no leak
                bool grows = true;
                for (int again = 0; again < 3 && grows; again++) {
                    uint64_t l0 = rt::live_allocs();
                    vector<Snap> o2;
                    rt::arm_alloc_fail(nth, burst);
                    string e2 = attempt([&] { perform(o, P, K, o2); });
                    rt::disarm_alloc_fail();
                    grows = !e2.empty() && rt::live_allocs() > l0;
                    if (e2.empty()) touched = true;
                }
                if (grows) RT_FAIL("leak", "%s failed at allocation %llu and left %llu blocks allocated", NM[o.k], (unsigned long long)nth, (unsigned long long)(now - live));
            }
            if (touched) {
                // start again from the same state
                Loud l;
                Quiet q2;
                TF* t = P.t[o.in(0, 0, NT - 1)];
                { Loud l2; *t = make(before[(size_t)o.in(0, 0, NT - 1)]); }
            }
        }
        if (!done) {
            out.clear();
            string e = attempt([&] { perform(o, P, K, out); });
            if (!e.empty()) RT_FAIL("not-retryable", "%s threw after memory was available again: %s", NM[o.k], e.c_str() + 1);
        }
        if (out.size() != want.size()) RT_FAIL("wrong-after-failure", "%s gave %zu results after a failure, %zu without", NM[o.k], out.size(), want.size());
        for (size_t k = 0; k < out.size(); k++) expect_close("wrong-after-failure", string(NM[o.k]) + " repeated after a failure", out[k], want[k], 1e-5);
        for (int k = 0; k < NT; k++) expect_close("wrong-after-failure", string("a tensor after ") + NM[o.k] + " was repeated", snap(*P.t[k]), snap(*W.t[k]), 1e-5);
        for (auto& s : out) note_snap(s);
        // keep shapes apart for later operations: restore two dimensions
        for (int k = 0; k < NT; k++) if (P.t[k]->getShape().rank() != 2) RT_FAIL("corrupted-value", "a tensor changed rank");
    }
    Loud l;
    for (int i = 0; i < NT; i++) { delete P.t[i]; delete W.t[i]; }
}
Scenario scenario() {
    Scenario s;
    s.prop = "C06";
    s.opnames.assign(NM, NM + NM_);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is 1-8 operations (copies, assignments, moves, in-place and pure arithmetic, reshape, apply, products, reductions, slices, shape changes, layer and loss calls, parameter setters, building, extending and using models, catalogue kernels); each is attempted with its 1st, 2nd, ... allocation failing (one failure or a burst), then without faults, next to an undisturbed twin.";
    s.real = "tensors, shapes, tensor operations, layers and losses";
    s.stub = "OpenMP runtime and operator new are the simulator's";
    return s;
}
