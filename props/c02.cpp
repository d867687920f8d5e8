// C02: independent callers in different threads never influence each other.
#include "kernels.hpp"

// extra operations after the kernels
enum { X_MODEL = NKERN, X_SHARED, X_EVAL, X_TEXT, NOPS };

struct Res {
    KOut k;
    string err;
};

static void train_small(const Op& o, KOut& K) {
    uint64_t sd = (uint64_t)o.at(1);
    int v = (int)o.in(0, 0, 15), in = (int)o.in(2, 1, 70), hid = (int)o.in(3, 1, 70), out = 1 + v % 2, n = (int)o.in(4, 1, 8);
    SmartDNN<float> m;
    m.addLayer(FullyConnectedLayer<float>(in, hid));
    switch (v % 3) {
        case 0: m.addLayer(ActivationLayer<float>(Sigmoid<float>())); break;
        case 1: m.addLayer(ActivationLayer<float>(ReLU<float>())); break;
        default: m.addLayer(ActivationLayer<float>(LeakyReLU<float>())); break;
    }
    if (v & 8) m.addLayer(BatchNormalizationLayer<float>(hid));
    m.addLayer(FullyConnectedLayer<float>(hid, out));
    auto* a = dynamic_cast<FullyConnectedLayer<float>*>(m.getLayer(0));
    auto* b = dynamic_cast<FullyConnectedLayer<float>*>(m.getLayer(v & 8 ? 3 : 2));
    a->setWeights(make({in, hid}, sd, 2));
    b->setWeights(make({hid, out}, sd + 1, 2));
    if (v & 4) m.compile(MSELoss<float>(), AdamOptimizer<float>());
    else m.compile(MSELoss<float>(), SGDOptimizer<float>());
    vector<TF> xs, ys;
    for (int i = 0; i < n; i++) { xs.push_back(make({2, in}, sd + 10 + (uint64_t)i, 2)); ys.push_back(make({2, out}, sd + 50 + (uint64_t)i, 2)); }
    m.train(xs, ys, 1);
    m.evalMode();
    K.push(m.predict(xs[0]));
    K.push(a->getWeights());
    K.push(b->getWeights());
    K.push(b->getBiases());
}

struct SharedIn { TF* a; TF* b; TF* v; };
static void use_shared(const Op& o, const SharedIn& s, KOut& K) {
    const TF &a = *s.a, &b = *s.b, &v = *s.v;
    switch (o.in(0, 0, 9)) {
        case 0: K.push(ATO::matmul(a, b)); break;
        case 1: K.push(ATO::transpose(a, 0, 1)); break;
        case 2: K.push(a * b); K.push(a + v); break;
        case 3: K.push(ATO::sum(a, 0)); K.push(ATO::sum(b)); break;
        case 4: { TF c = a; c += b; K.push(c); break; }
        case 5: K.push(a.slice(0, 0)); break;
        case 6: K.push(ATO::matmul(a, v)); break;
        case 7: K.push(ATO::applyPair(a, b, [](float p, float q) { return p - q; })); break;
        case 8: { MSELoss<float> l; K.push(l.compute(a, b)); K.push(l.gradient(a, b)); break; }
        default: { Softmax<float> f; K.push(f.forward(a)); if (!(a == a)) RT_FAIL("wrong-result", "a shared tensor does not equal itself"); break; }
    }
}

// Refused calls and texts: what the caller is told is its own as well.
static void texts(const Op& o, string& all) {
    int a = (int)o.in(2, 1, 90), b = (int)o.in(3, 1, 90), c = (int)o.in(4, 1, 9);
    auto say = [&](const string& t) { Quiet q; all += t + "|"; };
    auto refused = [&](auto f) {
        try { f(); say("accepted"); }
        catch (const std::exception& e) { say(e.what()); }
    };
    for (int k = 0; k < 6; k++) switch ((o.in(0, 0, 15) + k * 3) % 8) {
        case 0: { Shape s({a, b, c}); string t = s.toString(); say(t); break; }
        case 1: refused([&] { TF x({a, b}), y({b + 1, a + 2}); ATO::matmul(x, y); }); break;
        case 2: refused([&] { Shape s({a, -b}); say(s.toString()); }); break;
        case 3: refused([&] { TF x({c, 2}), y({c, 3}); TF z = x + y; }); break;
        case 4: refused([&] { TF x({c, 2}); x.reshape(Shape({c, 2 + a})); }); break;
        case 5: refused([&] { Shape s({a, b, c, 2}); say(s.toString()); TF x({c, a}); x.reshape({c + 1, a + 1}); }); break;
        case 6: refused([&] { TF x({c, 3}), y({a + 3, 2}); ATO::matmul(x, y); TF z({a + 4}); ATO::matmul(x, z); }); break;
        default: refused([&] { TF x = make({2, c}, (uint64_t)o.at(1), 1); say(x.toDetailedString()); say(x.toDataString()); }); break;
    }
}
static void do_op(const Op& o, const SharedIn& s, Res& r) {
    if (o.k == X_TEXT) {
        string t, e = attempt([&] { texts(o, t); });
        r.err = t + e;
        return;
    }
    r.err = attempt([&] {
        if (o.k < NKERN) run_kern(o, r.k);
        else if (o.k == X_MODEL) train_small(o, r.k);
        else use_shared(o, s, r.k);
    });
}

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    int nt = (int)r.range(2, 4);
    p.set("threads", nt);
    if (r.chance(1, 2)) p.set("team", 1);
    else if (p.get("team") > 3) p.set("team", 3);
    int n = (int)r.range(nt, nt * 2 + 1);
    bool same = r.chance(1, 2);
    int big = r.chance(1, 60) ? 2 : r.chance(1, 6);
    int k0 = r.chance(1, 10) ? (int)X_TEXT : (int)r.below(NOPS);
    for (int i = 0; i < n; i++) {
        int k = same && r.chance(2, 3) ? k0 : r.chance(1, 4) ? (int)r.range(X_MODEL, NOPS - 1) : (int)r.below(NKERN);
        Op o = gen_kern(r, k, big && r.chance(1, 2) ? big : 0);
        o.a.push_back(r.range(0, nt - 1));     // 6: thread
        p.ops.push_back(o);
    }
}
static void run(const Plan& p) {
    Quiet q;
    int nt = (int)p.in("threads", 1, 4);
    int team = (int)p.in("team", 1, 3);
    TF a = make({3, 3}, 5, 0), b = make({3, 3}, 6, 0), v = make({3}, 7, 0);
    Snap sa = snap(a), sb = snap(b), sv = snap(v);
    SharedIn sh{&a, &b, &v};
    size_t n = p.ops.size();
    vector<Res> alone(n), conc(n);
    rt::set_team(team, false, false);
    // concurrent first: the library's lazily initialised state is still fresh
    vector<int> hs;
    bool concfirst = p.get("simseed") & 1;
    auto all_alone = [&] { for (size_t i = 0; i < n; i++) do_op(p.ops[i], sh, alone[i]); };
    if (!concfirst) all_alone();
    for (int t = 0; t < nt; t++) {
        hs.push_back(rt::spawn([&, t] {
            Quiet q2;
            for (size_t i = 0; i < n; i++)
                if (p.ops[i].in(6, 0, nt - 1) == t) do_op(p.ops[i], sh, conc[i]);
        }));
    }
    for (int h : hs) rt::join(h);
    if (concfirst) all_alone();
    rt::count("hist.concurrent_calls", n);
    for (size_t i = 0; i < n; i++) {
        string nm = p.ops[i].k < NKERN ? KNAME[p.ops[i].k] : p.ops[i].k == X_MODEL ? "model training" : p.ops[i].k == X_TEXT ? "a refused call or text" : "use of a shared constant tensor";
        if (alone[i].err != conc[i].err) RT_FAIL("interference", "%s ended differently next to other callers: '%s' instead of '%s'", nm.c_str(), conc[i].err.c_str(), alone[i].err.c_str());
        compare_kern("interference", nm + " next to other callers", conc[i].k, alone[i].k);
        for (auto& s : conc[i].k.out) note_snap(s);
    }
    expect_same("interference", "a tensor that was only read", snap(a), sa);
    expect_same("interference", "a tensor that was only read", snap(b), sb);
    expect_same("interference", "a tensor that was only read", snap(v), sv);
}
Scenario scenario() {
    Scenario s;
    s.prop = "C02";
    s.opnames.assign(KNAME, KNAME + NKERN);
    s.opnames.push_back("model");
    s.opnames.push_back("shared");
    s.opnames.push_back("shared2");
    s.opnames.push_back("text");
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is 2-9 computations (tensor operations, layers, whole small training runs, reads of shared constant tensors) spread over 2-4 caller threads, each possibly opening its own OpenMP team; every one also runs alone.";
    s.real = "all of smart_dnn, compiled with OpenMP on";
    s.stub = "threads, mutexes, OpenMP runtime and operator new are the simulator's; progress output goes to /dev/null";
    return s;
}
