// C04: everything after seeding is a function of the seed and the calls made, of nothing else.
#include "kernels.hpp"

enum { G_RAND, G_RANDN, G_DRAW, G_FC, G_CONV, G_DROP, G_MODEL, G_SEED, G_RAND1, G_COMPUTE, G_WAIT, NG };
static const char* const NM[NG] = {"rand", "randn", "draw", "fc", "conv", "dropout", "model", "seed", "rand1", "compute", "wait"};

static Op gen_op(Rng& r) {
    Op o;
    int w = (int)r.below(20);
    o.k = w < 3 ? G_RAND : w < 5 ? G_RANDN : w < 7 ? G_DRAW : w < 9 ? G_FC : w < 11 ? G_CONV : w < 13 ? G_DROP : w < 17 ? G_MODEL : w < 18 ? G_SEED : w < 19 ? G_RAND1 : G_COMPUTE;
    o.a = {(int64_t)r.below(32), (int64_t)r.below(1000), r.range(1, 6), r.range(1, 6), r.range(1, 4)};
    if (r.chance(1, 8) && (o.k == G_RAND || o.k == G_RANDN || o.k == G_FC || o.k == G_DROP)) { o.a[2] = r.range(10, 40); o.a[3] = r.range(10, 60); }
    if (r.chance(1, 16) && (o.k == G_RAND || o.k == G_RANDN || o.k == G_DROP)) { o.a[0] |= 1; o.a[2] = r.range(60, 150); o.a[3] = r.range(60, 150); }
    if (r.chance(1, 16) && o.k == G_RAND1) o.a[2] = r.range(100, 20000);
    if (o.k == G_MODEL && r.chance(1, 16)) o.a[2 + r.below(2)] = r.chance(1, 2) ? r.range(7, 70) : r.range(70, 300);
    if (o.k == G_COMPUTE && r.chance(1, 2)) o.k = G_WAIT;
    if (r.chance(1, 10) && o.k == G_CONV) { o.a[2] = r.range(1, 6); o.a[4] = r.range(5, 40); }
    if (r.chance(1, 40) && o.k == G_FC) o.a[2 + r.below(2)] = r.range(200, 1500);
    return o;
}

static void model(const Op& o, KOut& K) {
    int v = (int)o.in(0, 0, 31), in = (int)o.in(2, 1, 300), hid = (int)o.in(3, 1, 300), n = (int)o.in(4, 1, 4);
    uint64_t sd = (uint64_t)o.at(1);
    SmartDNN<float> m;
    vector<TF> xs, ys;
    if (v & 16) {
        m.addLayer(Conv2DLayer<float>(1, 1, 2));
        m.addLayer(ActivationLayer<float>(ReLU<float>()));
        m.addLayer(MaxPooling2DLayer<float>(2, 1));
        m.addLayer(FlattenLayer<float>());
        m.addLayer(FullyConnectedLayer<float>(4, 2));
        for (int i = 0; i < n; i++) { xs.push_back(make({1, 1, 4, 4}, sd + (uint64_t)i, 2)); ys.push_back(make({1, 2}, sd + 40 + (uint64_t)i, 2)); }
    } else {
        m.addLayer(FullyConnectedLayer<float>(in, hid));
        if (v & 1) m.addLayer(BatchNormalizationLayer<float>(hid));
        if (v & 2) m.addLayer(ActivationLayer<float>(Sigmoid<float>()));
        else m.addLayer(ActivationLayer<float>(LeakyReLU<float>()));
        if (v & 4) m.addLayer(DropoutLayer<float>(0.4f));
        m.addLayer(FullyConnectedLayer<float>(hid, 2));
        for (int i = 0; i < n; i++) { xs.push_back(make({3, in}, sd + (uint64_t)i, 2)); ys.push_back(make({3, 2}, sd + 40 + (uint64_t)i, 2)); }
    }
    switch (v % 3) {
        case 0: { SGDOptions<float> q; q.momentum = 0.9f; q.learningRate = 0.05f; m.compile(MSELoss<float>(), SGDOptimizer<float>(q)); break; }
        case 1: m.compile(MSELoss<float>(), AdamOptimizer<float>()); break;
        default: { RMSPropOptions<float> q; q.momentum = 0.5f; m.compile(MSELoss<float>(), RMSPropOptimizer<float>(q)); break; }
    }
    m.train(xs, ys, 1 + v % 2);
    if (v & 8) K.push(m.predict(xs[0]));
    m.evalMode();
    for (auto& t : m.predict(xs)) K.push(t);
}
static void do_op(const Op& o, KOut& K) {
    int v = (int)o.in(0, 0, 31), a = (int)o.in(2, 1, o.k == G_RAND1 ? 20000 : o.k == G_FC ? 1500 : 160), b = (int)o.in(3, 1, o.k == G_FC ? 1500 : 160), c = (int)o.in(4, 1, 40);
    switch (o.k) {
        case G_RAND: K.push(v & 1 ? TF::rand(Shape({a, b})) : v & 2 ? TF::rand(Shape({c, a, b % 5 + 1})) : TF::rand(Shape({a}))); break;
        case G_RANDN: K.push(v & 1 ? TF::randn(Shape({a, b}), -2.0f, 3.0f) : TF::randn(Shape({a}), -1.0f, 0.0f)); break;
        case G_RAND1: K.push(v & 1 ? TF::rand(a) : TF::randn(a, 0.0f, 5.0f)); break;
        case G_DRAW: {
            TF t({c});
            for (int i = 0; i < c; i++) switch ((v + i) % 5) {
                case 0: t[(size_t)i] = RandomEngine::getRand(); break;
                case 1: t[(size_t)i] = RandomEngine::getRandRange(-1, (float)a); break;
                case 2: t[(size_t)i] = RandomEngine::getXavierInit((float)a); break;
                case 3: t[(size_t)i] = RandomEngine::getHeInit((float)a); break;
                default: t[(size_t)i] = RandomEngine::getHeRandRange((float)a, -1, 1); break;
            }
            K.push(t);
            break;
        }
        case G_FC: { FullyConnectedLayer<float> l(a, b); K.push(l.getWeights()); K.push(l.getBiases()); break; }
        case G_CONV: { Conv2DLayer<float> l(1, c, a % 3 + 1); K.push(l.getWeights()); K.push(l.getBiases()); break; }
        case G_DROP: {
            DropoutLayer<float> l((float)(v % 10) / 10.0f);
            for (int i = 0; i < 1 + v % 2; i++) K.push(l.forward(TF::ones(Shape({a, b}))));
            K.push(l.backward(TF::ones(Shape({a, b}))));
            break;
        }
        case G_MODEL: model(o, K); break;
        case G_SEED: RandomEngine::setSeed((unsigned)(o.at(1) & 0xffffffff)); break;
        case G_WAIT: {
            // time goes by, another amount in every execution; the wall clock may be set back
            uint64_t u = rt::rnd();
            rt::advance_clock((int64_t)((u % 1000 + 1) * (1000000ULL << (u >> 10) % 21)), (u >> 16) % 3 ? 0 : (int64_t)((u >> 20) % 20000000) * 1000000LL - 10000000000000LL);
            break;
        }
        case G_COMPUTE: {
            // calls that draw nothing must not move the stream
            TF x = make({a, b}, 3, 0), y = make({b, a}, 4, 0);
            K.push(ATO::matmul(x, y));
            K.push(ATO::transpose(x, 0, 1));
            break;
        }
        default: break;
    }
}

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    p.set("seed", r.chance(1, 6) ? (int64_t)r.below(3) : (int64_t)r.below(0xffffffff));
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n; i++) p.ops.push_back(gen_op(r));
    int m = (int)r.range(0, 3);
    p.set("prior", m);          // the last `prior` operations are unrelated earlier work
    for (int i = 0; i < m; i++) p.ops.push_back(gen_op(r));
    p.set("second_thread", r.chance(1, 4));
}
static void run(const Plan& p) {
    Quiet q;
    unsigned seed = (unsigned)p.get("seed");
    size_t prior = (size_t)p.in("prior", 0, 8);
    if (prior > p.ops.size()) prior = p.ops.size();
    size_t n = p.ops.size() - prior;
    int team = (int)p.in("team", 1, 16);
    vector<char> computed;          // per result: computed (a team may reorder its sums), not drawn
    auto program = [&](KOut& K, string& err) {
        err = attempt([&] {
            RandomEngine::setSeed(seed);
            for (size_t i = 0; i < n; i++) {
                do_op(p.ops[i], K);
                Quiet q2;
                if (computed.size() < K.out.size()) computed.resize(K.out.size(), p.ops[i].k == G_MODEL || p.ops[i].k == G_COMPUTE);
            }
        });
    };
    KOut one, two, three;
    string e1, e2, e3;
    rt::set_team(team, p.get("team_vary") != 0, p.get("nested") != 0);
    program(one, e1);
    // other work in between; different memory contents, team, clock and entropy
    KOut junk;
    attempt([&] { for (size_t i = n; i < p.ops.size(); i++) do_op(p.ops[i], junk); });
    uint64_t s = rt::rnd();
    rt::set_alloc((int)(s % rt::NALLOC), (int)((s >> 8) % 4), s >> 16);
    rt::set_team(1 + (int)((s >> 3) % 8), (s >> 6) & 1, (s >> 7) & 1);
    rt::set_entropy(s >> 5, (int)((s >> 9) % 3), -1);
    rt::scribble_stack(s);
    rt::count("hist.reruns", 2);
    if (p.get("second_thread")) {
        int h = rt::spawn([&] { Quiet q2; program(two, e2); });
        rt::join(h);
    } else program(two, e2);
    rt::scribble_stack(s + 1);
    rt::set_team(1, false, false);
    program(three, e3);
    auto same = [&](const KOut& a, const KOut& b, const string& ea, const string& eb, const char* how) {
        if (ea != eb) RT_FAIL("seed-not-repeatable", "%s: the program ended with '%s', then with '%s'", how, ea.c_str(), eb.c_str());
        if (a.out.size() != b.out.size()) RT_FAIL("seed-not-repeatable", "%s: %zu results, then %zu", how, a.out.size(), b.out.size());
        for (size_t i = 0; i < a.out.size(); i++) {
            string what = string(how) + ": result " + std::to_string(i) + " under seed " + std::to_string(seed);
            if (computed[i]) expect_close("seed-not-repeatable", what, b.out[i], a.out[i], 1e-3);
            else expect_same("seed-not-repeatable", what, b.out[i], a.out[i]);
        }
    };
    if (!e1.empty()) RT_FAIL("unexpected-exception", "the program threw: %s", e1.c_str() + 1);
    same(one, two, e1, e2, "second execution in another environment");
    same(one, three, e1, e3, "third execution with one thread");
    for (auto& t : one.out) note_snap(t);
    // a seed selects a stream: two draws in a row and different seeds do not repeat
    vector<float> u, w;
    attempt([&] {
        RandomEngine::setSeed(seed);
        for (int i = 0; i < 24; i++) { float f = RandomEngine::getRand(); Quiet q2; u.push_back(f); }
        RandomEngine::setSeed(seed + 1);
        for (int i = 0; i < 24; i++) { float f = RandomEngine::getRand(); Quiet q2; w.push_back(f); }
    });
    if (u == w) RT_FAIL("seed-ignored", "seeds %u and %u give the same 24 draws", seed, seed + 1);
    for (float f : u) if (!(f >= 0.0f && f <= 1.0f)) RT_FAIL("bad-draw", "uniform draw %g", (double)f);
}
Scenario scenario() {
    Scenario s;
    s.prop = "C04";
    s.opnames.assign(NM, NM + NG);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is a seed and a program of 1-6 steps (random tensors, single draws, layer construction, dropout, whole model training and prediction, reseeding, plain computations, pauses and clock changes of another length in every execution); it is executed three times with different team sizes, schedules, memory contents, allocation layouts, clocks, entropy and earlier work.";
    s.real = "RandomEngine, tensor factories, all layers, optimizers, losses, the training loop";
    s.stub = "threads, OpenMP runtime, operator new, clock, pid, random_device are the simulator's";
    return s;
}
