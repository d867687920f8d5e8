// C08: loading yields exactly the samples in the files, however the disk delivers the bytes.
#include "mnist.hpp"

enum { L_LOAD, NL_ };
static const char* const NM[NL_] = {"load"};

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALLOC | ENV_FILL);
    bool big = r.chance(1, 12);
    p.set("n", big ? r.range(5, 20) : r.range(0, 12));
    p.set("rows", big ? 28 : r.range(1, 6));
    p.set("cols", big ? 28 : r.range(1, 6));
    if (r.chance(1, 10)) {      // sizes that need the second byte of a header field
        int w = (int)r.below(3);
        p.set("n", r.range(0, 2));
        p.set("rows", 1);
        p.set("cols", r.range(1, 2));
        int big2 = (int)(r.chance(1, 12) ? r.range(32700, 40000) : r.range(120, 330));
        if (big2 > 1000) { p.set("cols", 1); p.set("n", 1); }
        p.set(w == 0 ? "n" : w == 1 ? "rows" : "cols", big2);
        big = true;
    }
    if (r.chance(1, 150)) {      // pictures with more pixels than 16 bits count
        p.set("n", r.range(1, 2));
        p.set("rows", r.range(250, 330));
        p.set("cols", r.range(250, 330));
        big = true;
    }
    p.set("cseed", r.range(1, 100000));
    p.set("extra", r.chance(1, 4) ? r.range(1, 20) : 0);
    p.set("extra_labels", r.chance(1, 5) ? r.range(1, 4) : 0);
    p.set("threads", !big && r.chance(1, 4) ? 2 : 1);
    bool vast = p.get("n") + p.get("rows") + p.get("cols") > 30000 || p.get("rows") * p.get("cols") > 30000;
    int n = vast ? 1 : (int)r.range(1, 4);
    for (int i = 0; i < n; i++)     // batch, samples, short reads, interrupts, thread, split
        p.op(L_LOAD, {r.chance(1, 4) ? r.range(1, 70) : r.chance(1, 10) ? r.range(70, 400) : r.range(1, 5), r.chance(1, 2) ? -1 : (int64_t)r.below(r.chance(1, 8) ? 330 : 13), r.chance(2, 3) ? r.range(1, 100) : 0, r.chance(1, 2) ? r.range(1, 60) : 0, (int64_t)r.below(2), (int64_t)r.below(4)});
}
static void run(const Plan& p) {
    Quiet q;
    Files f;
    f.n = (int)p.in("n", 0, 40000);
    f.rows = (int)p.in("rows", 1, 40000);
    f.cols = (int)p.in("cols", 1, 40000);
    f.seed = (uint64_t)p.get("cseed", 1);
    if (p.in("threads", 1, 2) > 1) { f.n %= 13; f.rows = f.rows % 6 + 1; f.cols = f.cols % 6 + 1; }     // every step may switch
    f.nl = f.n;
    compose(f);
    for (int i = 0; i < p.in("extra", 0, 40); i++) f.ibytes += (char)(i * 7);     // bytes behind the last sample
    for (int i = 0; i < p.in("extra_labels", 0, 40); i++) f.lbytes += (char)(i % 10);
    store(f);
    int nt = (int)p.in("threads", 1, 2);
    auto one = [&](const Op& o) {
        int batch = (int)o.in(0, 1, 400), ns = (int)o.in(1, -1, 400);
        if (ns > f.n) ns = f.n;
        std::unique_ptr<MNISTLoader<float>> l;
        { Loud l2; l.reset(new MNISTLoader<float>(f.ipath, f.lpath, batch, ns)); }
        int times = o.at(5) == 1 ? 2 : 1;
        for (int t = 0; t < times; t++) {
            Loaded g;
            string e = load(*l, g);
            if (!e.empty()) RT_FAIL("good-file-refused", "loading %d samples of %dx%d (%d requested, batches of %d) failed: %s", f.n, f.rows, f.cols, ns, batch, e.c_str() + 1);
            expect_samples(f, g, ns < 0 ? f.n : ns, batch, t ? "second load" : "load");
            note_loaded(g);
            rt::count("hist.loads");
        }
        Loud l2;
        l.reset();
    };
    if (nt == 1) {
        for (auto& o : p.ops) {
            rt::FilePlan a;
            a.short_pct = (uint32_t)o.in(2, 0, 100);
            a.eintr_pct = (uint32_t)o.in(3, 0, 60);
            rt::file_plan(f.ipath.c_str(), a);
            rt::file_plan(f.lpath.c_str(), a);
            one(o);
            rt::clear_file_plans();
        }
    } else {
        rt::FilePlan a;
        if (!p.ops.empty()) { a.short_pct = (uint32_t)p.ops[0].in(2, 0, 100); a.eintr_pct = (uint32_t)p.ops[0].in(3, 0, 60); }
        rt::file_plan(f.ipath.c_str(), a);
        rt::file_plan(f.lpath.c_str(), a);
        vector<int> hs;
        for (int t = 0; t < nt; t++)
            hs.push_back(rt::spawn([&, t] { Quiet q2; for (auto& o : p.ops) if (o.in(4, 0, nt - 1) == t) one(o); }));
        for (int h : hs) rt::join(h);
        rt::clear_file_plans();
    }
    unstore(f);
}
Scenario scenario() {
    Scenario s;
    s.prop = "C08";
    s.opnames.assign(NM, NM + NL_);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is a pair of image and label files (0-330, rarely 40000, samples of 1x1 to 28x28 pixels, one side up to 40000, or 330x330, possibly with bytes behind the data) and 1-4 loads with varying batch size and sample limit, repeated or by two threads at once, while reads are shortened at random points and interrupted by signals; the result is compared with the generator of the files.";
    s.real = "MNISTLoader, tensors, libstdc++ file streams";
    s.stub = "the read system call delivers the real file's bytes in pieces the simulator chooses; operator new";
    return s;
}
