// C09: a damaged, truncated, unreadable or mismatched data set is refused, never half loaded.
#include "mnist.hpp"

enum { D_LOAD, ND_ };
static const char* const NM[ND_] = {"load"};
enum { W_NONE, W_CUT, W_REALCUT, W_EIO, W_OPEN, W_MAGIC, W_COUNT, W_NEG, W_DIMS, W_LABEL, W_MISMATCH, W_ASK, W_HUGE, W_MISSING, W_SWAP, W_ALLOC, NW };
static const char* const WN[NW] = {"none", "end_of_file", "truncated_file", "read_error", "open_error", "bad_magic", "count_too_large", "negative_count", "bad_dimensions", "bad_label", "count_mismatch", "too_many_requested", "huge_header", "missing_file", "swapped_files", "alloc"};

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALLOC | ENV_FILL);
    p.set("n", r.chance(1, 14) ? r.range(100, 300) : r.range(1, 8));
    bool many = p.get("n") > 8;
    p.set("rows", many ? 1 : r.range(1, 4));
    p.set("cols", many ? 1 : r.range(1, 4));
    p.set("cseed", r.range(1, 100000));
    p.set("batch", many ? r.range(1, 100) : r.range(1, 5));
    p.set("ns", r.chance(1, 2) ? -1 : r.range(0, p.get("n")));
    p.set("change", r.chance(1, 2));
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++)     // damage, which file, position, parameter, short reads
        p.op(D_LOAD, {(int64_t)r.below(NW), (int64_t)r.below(2), (int64_t)r.below(1000), (int64_t)r.below(1000), r.chance(1, 2) ? r.range(1, 100) : 0});
}
static void run(const Plan& p) {
    Quiet q;
    Files good;
    good.n = good.nl = (int)p.in("n", 1, 300);
    good.rows = (int)p.in("rows", 1, 8);
    good.cols = (int)p.in("cols", 1, 8);
    good.seed = (uint64_t)p.get("cseed", 1);
    compose(good);
    store(good);
    int batch = (int)p.in("batch", 1, 100), ns = (int)p.in("ns", -1, 300);
    if (ns > good.n) ns = good.n;
    int need = ns < 0 ? good.n : ns;
    std::unique_ptr<MNISTLoader<float>> keep;
    { Loud l; keep.reset(new MNISTLoader<float>(good.ipath, good.lpath, batch, ns)); }
    uint64_t base = 0;
    for (size_t k = 0; k < p.ops.size() + 1; k++) {
        Op o = k < p.ops.size() ? p.ops[k] : Op();
        if (k == p.ops.size()) o.a = {W_NONE};     // in the end the undamaged files load
        Files f = good;
        int w = (int)o.in(0, 0, NW - 1);
        bool lab = o.at(1) & 1;
        string& bytes = lab ? f.lbytes : f.ibytes;
        size_t px = (size_t)(f.rows * f.cols);
        // bytes of the chosen file that the request has to read
        size_t needed = lab ? 8 + (size_t)need : 16 + px * (size_t)need;
        rt::FilePlan fp[2];
        bool must = false;                         // the load cannot be right
        bool allfiles = false;
        int ask = ns, cnt = need;
        string ipath = f.ipath, lpath = f.lpath;
        uint64_t alloc_at = 0;
        switch (w) {
            case W_CUT: case W_REALCUT: case W_EIO: {
                size_t at = (size_t)o.at(2) % bytes.size();
                must = at < needed;
                if (w == W_CUT) fp[lab].cut_at = (int64_t)at;
                else if (w == W_EIO) fp[lab].eio_at = (int64_t)at;
                else bytes.resize(at);
                break;
            }
            case W_OPEN: { static const int es[] = {EACCES, EMFILE, ENOENT, EIO, ENOMEM}; fp[lab].open_errno = es[(size_t)o.at(3) % 5]; must = true; break; }
            case W_MAGIC: bytes[(size_t)o.at(2) % 4] = (char)(bytes[(size_t)o.at(2) % 4] ^ (1 << (o.at(3) % 8))); must = true; break;
            case W_COUNT: {
                int more = f.n + 1 + (int)(o.at(3) % 5);
                for (int b = 0; b < 4; b++) bytes[4 + (size_t)b] = (char)(more >> (24 - 8 * b));
                must = ns < 0;                     // all samples wanted, fewer there
                break;
            }
            case W_NEG: bytes[4] = (char)(0x80 | bytes[4]); must = true; break;
            case W_DIMS: {
                size_t at = 8 + 4 * ((size_t)o.at(2) % 2);
                if (o.at(3) % 2) { for (int b = 0; b < 4; b++) f.ibytes[at + (size_t)b] = 0; }
                else f.ibytes[at] = (char)0x80;
                must = need > 0;
                break;
            }
            case W_LABEL: {
                size_t i = (size_t)o.at(2) % (size_t)f.nl;
                f.lbytes[8 + i] = (char)(10 + o.at(3) % 246);
                must = (int)i < need;
                break;
            }
            case W_MISMATCH:
                f.nl = f.n + (o.at(3) % 2 ? 1 : -1);
                compose(f);
                must = ns < 0 || ns > f.nl;
                break;
            case W_ASK: ask = good.n + 1 + (int)(o.at(3) % 4); must = true; break;
            case W_HUGE: {
                // a header that announces far more than memory
                size_t at = (size_t)o.at(2) % 3;
                f.ibytes[4 + 4 * at] = 0x7f;
                must = at == 0 ? ns < 0 : need > 0;
                rt::set_alloc_cap(1 << 26);
                break;
            }
            case W_MISSING: (lab ? lpath : ipath) += ".absent"; must = true; break;
            case W_SWAP: std::swap(ipath, lpath); must = true; break;
            case W_ALLOC: alloc_at = 1 + (uint64_t)o.at(2) % 200; break;
            default: break;
        }
        (void)allfiles;
        (void)cnt;
        store(f);
        for (int i = 0; i < 2; i++) { fp[i].short_pct = (uint32_t)o.in(4, 0, 100); rt::file_plan(i ? f.lpath.c_str() : f.ipath.c_str(), fp[i]); }
        Loaded g;
        string e;
        uint64_t nf = rt::alloc_failures();
        bool own = w == W_ASK || w == W_MISSING || w == W_SWAP;
        std::unique_ptr<MNISTLoader<float>> l2;
        if (own) { Loud l; l2.reset(new MNISTLoader<float>(ipath, lpath, batch, ask)); }
        if (k && !base) base = rt::live_allocs();
        uint64_t live = rt::live_allocs();
        if (w == W_ALLOC) { rt::allow_stop(true); rt::arm_alloc_fail(alloc_at, 1); }
        e = load(own ? *l2 : *keep, g);
        rt::disarm_alloc_fail();
        rt::allow_stop(false);
        rt::set_alloc_cap(0);
        rt::clear_file_plans();
        bool hit = w == W_ALLOC && rt::alloc_failures() > nf;
        if (w != W_NONE && (w != W_ALLOC || hit)) rt::count((string("fault.") + WN[w]).c_str());
        rt::count("hist.loads");
        if (e.empty()) {
            if (must) RT_FAIL("damage-accepted", "%s in the %s file: loading %d of %d samples reported success with %zu batches", WN[w], lab ? "label" : "image", ask, good.n, g.x.size());
            expect_samples(good, g, need, batch, WN[w]);
        } else {
            bool may = must || w != W_NONE;
            if (w == W_ALLOC && !hit) may = false;
            if (!may) RT_FAIL("good-file-refused", "undamaged files were refused after %zu damaged ones: %s", k, e.c_str() + 1);
            // what is left behind by the first refusal only is no leak
            uint64_t first = rt::live_allocs() - live;
            for (int again = 0; again < 3 && rt::live_allocs() > live; again++) {
                live = rt::live_allocs();
                Loaded g2;
                for (int i = 0; i < 2; i++) rt::file_plan(i ? f.lpath.c_str() : f.ipath.c_str(), fp[i]);
                if (w == W_HUGE) rt::set_alloc_cap(1 << 26);
                if (w == W_ALLOC) { rt::allow_stop(true); rt::arm_alloc_fail(alloc_at, 1); }
                load(own ? *l2 : *keep, g2);
                rt::disarm_alloc_fail();
                rt::allow_stop(false);
                rt::set_alloc_cap(0);
                rt::clear_file_plans();
                if (again == 2 && rt::live_allocs() > live) RT_FAIL("leak", "every refused load (%s) leaves blocks allocated, the first one %llu", WN[w], (unsigned long long)first);
            }
        }
        note_loaded(g);
        if (p.get("change")) {
            // the next load finds other samples in the same files
            good.seed++;
            compose(good);
        }
        store(good);
        Loud l;
        l2.reset();
    }
    unstore(good);
    Loud l;
    keep.reset();
}
Scenario scenario() {
    Scenario s;
    s.prop = "C09";
    s.opnames.assign(NM, NM + ND_);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is a pair of files and 1-3 damages, one load each, ending with an undamaged load by the same loader, half of the time with new contents before each load: the file ends or a read fails at any byte, open fails, wrong magic number, counts or dimensions that are zero, negative, too large or huge, labels above nine, image and label counts that differ, more samples requested than present, missing or swapped files, the n-th allocation failing.";
    s.real = "MNISTLoader, tensors, libstdc++ file streams";
    s.stub = "open and read system calls fail or end where the simulator says; operator new";
    return s;
}
