// C17: tensors are independent values.
#include "kernels.hpp"
#include <memory>

enum { P_CTOR, P_COPY, P_ASSIGN, P_MOVE, P_MOVEASSIGN, P_SLICE, P_RESHAPE, P_INPLACE, P_SCALAR, P_BINARY, P_WRITE, P_APPLY, P_PURE,
       P_REFUSE, P_VECTOR, P_SWAP, P_BYVALUE, P_META, P_EQUAL, P_DATA, NP };
static const char* const NM[NP] = {"construct", "copy", "assign", "move", "move_assign", "slice", "reshape", "in_place", "scalar_in_place", "binary", "write",
                                   "apply", "pure", "refused", "vector", "swap", "by_value", "shape_copy", "equal", "data"};
static constexpr int NSLOT = 5, MAXTH = 3;

// shapes of few sizes, so that copies, reshapes, broadcasts and assignments meet often
static const vector<int> SHAPES[] = {{6}, {2, 3}, {3, 2}, {1, 6}, {6, 1}, {1}, {1, 1}, {3}, {1, 3}, {2, 1}, {2, 3, 1}, {1, 2, 3}, {4, 6}, {2, 2, 6}, {24}, {3, 3}, {2, 2}, {8, 9}, {1, 2, 1, 3, 1}, {2, 1, 3, 1, 2}, {5, 7, 3}, {2, 67}, {70, 60}, {4, 1030}, {67, 61}, {20000}, {2, 9000}, {9000, 2}, {9000}};
static constexpr int NS = 25, NGIANT = 29;
static constexpr int NSMALL = 22;       // the others are large

static void gen(Rng& r, Plan& p) {
    gen_env(r, p, ENV_ALL);
    if (p.get("team") > 3) p.set("team", 3);
    int nt = r.chance(1, 4) ? (int)r.range(2, MAXTH) : 1;
    p.set("threads", nt);
    if (nt > 1) p.set("team", 1);
    p.set("shared", r.range(0, NSMALL - 1));
    bool large = nt == 1 && r.chance(1, 15);
    p.set("vals", r.range(0, 4));
    int faults = nt == 1 && r.chance(1, 3);
    bool giant = large && r.chance(1, 4);
    int n = (int)r.range(4, giant ? 9 : nt > 1 ? 14 : 40);
    // some plans dwell on few operations
    vector<int> hot;
    if (r.chance(1, 2)) for (int i = 0; i < 4; i++) hot.push_back((int)r.below(NP));
    for (int i = 0; i < n; i++) {
        int k = !hot.empty() && r.chance(2, 3) ? hot[r.below(hot.size())] : (int)r.below(NP);
        int64_t fail = faults && r.chance(1, 4) ? (r.chance(1, 2) ? r.range(1, 6) : r.range(1, 40)) : 0;
        p.op(k, {r.range(0, NSLOT - 1), r.range(0, NSLOT), (int64_t)r.below(100000), giant && r.chance(1, 2) ? r.range(NS, NGIANT - 1) : r.range(0, (large ? NS : NSMALL) - 1), r.range(0, nt - 1), fail});
    }
}

struct World {
    std::unique_ptr<TF> t[NSLOT];
    Snap w[NSLOT];
};
static TF* g_shared;
static Snap g_sw;
static int g_vals;

static TF pass_through(TF t) { return t; }
static TF bump_copy(TF t) { t += 1.0f; return t; }

static void expect_eq(const string& what, float got, double want, double tol, double scale) {
    if (!near1(got, want, tol, scale)) RT_FAIL("wrong-result", "%s is %.9g, expected %.9g", what.c_str(), (double)got, want);
}
struct Step {
    World& W;
    const Op& o;
    int a, bi;
    uint64_t s;
    const vector<int>& d;
    uint64_t fail;
    bool failed = false;
    string what;
    Step(World& w, const Op& op) : W(w), o(op), a((int)op.in(0, 0, NSLOT - 1)), bi((int)op.in(1, 0, NSLOT)), s((uint64_t)op.at(2)), d(SHAPES[op.in(3, 0, NGIANT - 1)]), fail((uint64_t)op.in(5, 0, 4000)) {}
    TF& A() { return *W.t[a]; }
    TF& B() { return bi == NSLOT ? *g_shared : *W.t[bi]; }
    const Snap& SB() const { return bi == NSLOT ? g_sw : W.w[bi]; }
    // Runs f loudly, perhaps with a failing allocation. Returns the exception text.
    template <class F> string go(F&& f) {
        uint64_t nf = rt::alloc_failures();
        if (fail) { rt::allow_stop(true); rt::arm_alloc_fail(fail, 1); }
        string e = attempt(f);
        rt::disarm_alloc_fail();
        if (fail) rt::allow_stop(false);
        failed = rt::alloc_failures() != nf;
        if (!e.empty() && failed) rt::count("fault.alloc_in_op");
        return e;
    }
    // for operations that must succeed unless an allocation failed
    template <class F> bool must(F&& f) {
        string e = go(f);
        if (e.empty()) return true;
        if (!failed) RT_FAIL("unexpected-exception", "%s threw: %s", what.c_str(), e.c_str() + 1);
        return false;
    }
    void install(std::unique_ptr<TF>& n, const Snap& want) {
        if (n) { { Loud l; W.t[a] = std::move(n); } W.w[a] = want; }
        else { Loud l; n.reset(); }
    }
    void resync() { W.w[a] = snap(A()); note_snap(W.w[a]); }
};
static float op2(int k, float x, float y) { return k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : x / y; }
static const char* const OPN[] = {"+", "-", "*", "/"};

static void verify(World& W, const string& what) {
    for (int i = 0; i < NSLOT; i++) expect_same("value-changed", "after " + what + ": tensor " + std::to_string(i), snap(*W.t[i]), W.w[i]);
    expect_same("value-changed", "after " + what + ": the tensor only read by all", snap(*g_shared), g_sw);
}
static void step(World& W, const Op& op) {
    Step z(W, op);
    int a = z.a;
    uint64_t s = z.s;
    std::unique_ptr<TF> n;
    Snap nothing;
    z.what = string(NM[op.k]) + " on tensor " + std::to_string(a) + " " + dim_str(W.w[a].d) + (z.bi == NSLOT ? " and the shared tensor" : " and tensor " + std::to_string(z.bi)) + " " + dim_str(z.SB().d) + " (" + std::to_string(s) + ")";
    switch (op.k) {
        case P_CTOR: {
            int v = (int)(s % 9);
            Snap x = make_snap(z.d, s, g_vals);
            float c = value(s, 3, g_vals);
            bool ok = z.must([&] {
                Shape sh(z.d);
                switch (v) {
                    case 0: n.reset(new TF(sh)); break;
                    case 1: n.reset(new TF(sh, c)); break;
                    case 2: { const float* p = x.v.data(); n.reset(new TF(sh, p)); break; }
                    case 3: { vector<float> vv(x.v); if (s % 2) n.reset(new TF(sh, std::move(vv))); else { n.reset(new TF(sh, vv)); for (auto& f : vv) f = -7; } break; }
                    case 4: n.reset(new TF(TF::ones(sh))); break;
                    case 5: n.reset(new TF(TF::zeros(sh))); break;
                    case 6: n.reset(new TF(Shape{2, 3}, {1.f, 2.f, 3.f, 4.f, 5.f, 6.f})); break;
                    case 7: n.reset(new TF(TF::identity(3))); break;
                    default: { n.reset(new TF(sh)); n->getData().fill(c); break; }
                }
            });
            Snap w = x;
            if (v == 0 || v == 5) for (auto& f : w.v) f = 0;
            if (v == 1 || v == 8) for (auto& f : w.v) f = c;
            if (v == 4) for (auto& f : w.v) f = 1;
            if (v == 6) w = Snap{{2, 3}, {1, 2, 3, 4, 5, 6}};
            if (v == 7) w = Snap{{3, 3}, {1, 0, 0, 0, 1, 0, 0, 0, 1}};
            if (ok) { expect_same("wrong-result", z.what + ": the constructed tensor", snap(*n), w); z.install(n, w); }
            break;
        }
        case P_COPY:
            if (z.must([&] { n.reset(new TF(z.B())); })) { Snap w = z.SB(); z.install(n, w); }
            break;
        case P_ASSIGN: {
            // chained every now and then, and to itself when both are the same tensor
            Snap w = z.SB();
            bool ok = z.must([&] { if (s % 7 == 0) { TF c(z.B()); z.A() = c; } else z.A() = z.B(); });
            if (ok) W.w[a] = w;   // a failed assignment changes nothing
            break;
        }
        case P_MOVE: {
            if (z.bi == NSLOT || z.bi == a) break;
            z.fail = 0;
            Snap w = z.SB();
            z.must([&] { n.reset(new TF(std::move(z.B()))); });
            z.install(n, w);
            W.w[z.bi] = snap(z.B());   // whatever it is now, it stays
            rt::count("hist.moved_from");
            break;
        }
        case P_MOVEASSIGN: {
            if (z.bi == NSLOT) break;
            Snap w = z.SB();
            z.fail = 0;
            if (z.bi == a) {
                z.must([&] { TF& r = z.B(); z.A() = std::move(r); });
                Snap now = snap(z.A());
                if (!(now == w)) W.w[a] = now;   // self-move: valid, value unspecified
            } else {
                z.must([&] { z.A() = std::move(z.B()); });
                W.w[a] = w;
                W.w[z.bi] = snap(z.B());
            }
            rt::count("hist.moved_from");
            break;
        }
        case P_SLICE: {
            const Snap& b = z.SB();
            if (b.d.size() < 2) break;
            int ix = (int)(s % (uint64_t)b.d[0]);
            Snap w;
            w.d.assign(b.d.begin() + 1, b.d.end());
            size_t m = dims_size(w.d);
            w.v.assign(b.v.begin() + (long)(m * (size_t)ix), b.v.begin() + (long)(m * (size_t)(ix + 1)));
            if (z.must([&] { const TF& c = z.B(); n.reset(new TF(s % 2 ? z.B().slice(0, ix) : c.slice(0, ix))); })) z.install(n, w);
            break;
        }
        case P_RESHAPE: {
            // to another shape of the same size, of its own or a value returned
            vector<vector<int>> fit;
            for (int i = 0; i < NGIANT; i++) if (dims_size(SHAPES[i]) == W.w[a].v.size()) fit.push_back(SHAPES[i]);
            if (fit.empty()) break;
            vector<int> to = fit[s % fit.size()];
            Snap w = W.w[a];
            w.d = to;
            if (s % 3 == 0) {
                if (z.must([&] { n.reset(new TF(ATO::reshape(z.A(), Shape(to)))); })) { expect_same("wrong-result", z.what, snap(*n), w); verify(W, z.what); z.install(n, w); }
            } else if (z.must([&] { if (s % 3 == 1) z.A().reshape(to); else z.A().reshape(Shape(to)); })) W.w[a] = w;
            break;
        }
        case P_INPLACE: {
            int k = (int)(s % 4);
            const Snap A = W.w[a], B = z.SB();
            bool fits = false;
            Snap w;
            // compatible at all?
            bool comp = true;
            for (size_t i = 0; i < A.d.size() && i < B.d.size(); i++) { int x = A.d[A.d.size() - 1 - i], y = B.d[B.d.size() - 1 - i]; if (x != y && x != 1 && y != 1) comp = false; }
            if (comp) w = ref_broadcast(A, B, [&](float x, float y) { return op2(k, x, y); });
            fits = comp && w.v.size() == A.v.size();
            string e = z.go([&] {
                switch (k) {
                    case 0: z.A() += z.B(); break;
                    case 1: z.A() -= z.B(); break;
                    case 2: z.A() *= z.B(); break;
                    default: z.A() /= z.B(); break;
                }
            });
            if (z.failed) { z.resync(); break; }
            if (!fits) {
                if (e.empty()) RT_FAIL("not-refused", "%s: %s= was accepted", z.what.c_str(), OPN[k]);
                rt::count("hist.refused");
                break;
            }
            if (!e.empty()) RT_FAIL("unexpected-exception", "%s: %s= threw: %s", z.what.c_str(), OPN[k], e.c_str() + 1);
            Snap got = snap(z.A());
            w.d = A.d;
            expect_close("wrong-result", z.what + ": " + OPN[k] + "=", got, w, 1e-6);
            if (z.bi == a) rt::count("hist.aliased");
            z.resync();
            break;
        }
        case P_SCALAR: {
            int k = (int)(s % 4);
            float c = (float)((int)(s / 4 % 9) - 4) * 0.75f;
            Snap A = W.w[a];
            // the scalar may live inside the tensor
            bool own = s % 5 == 0;
            if (own) c = A.v[s % A.v.size()];
            bool zero = k == 3 && c == 0;
            string e = z.go([&] {
                const float& r = own ? z.A()[s % A.v.size()] : c;
                switch (k) {
                    case 0: z.A() += r; break;
                    case 1: z.A() -= r; break;
                    case 2: z.A() *= r; break;
                    default: z.A() /= r; break;
                }
            });
            if (z.failed) { z.resync(); break; }
            if (zero) {
                if (e.empty()) RT_FAIL("not-refused", "%s: division by zero was accepted", z.what.c_str());
                rt::count("hist.refused");
                break;
            }
            if (!e.empty()) RT_FAIL("unexpected-exception", "%s threw: %s", z.what.c_str(), e.c_str() + 1);
            for (auto& f : A.v) f = op2(k, f, c);
            expect_close("wrong-result", z.what + ": scalar " + OPN[k] + "=", snap(z.A()), A, 1e-6);
            z.resync();
            break;
        }
        case P_BINARY: {
            int k = (int)(s % 4);
            const Snap A = W.w[(s / 4) % NSLOT], B = z.SB();
            TF& l = *W.t[(s / 4) % NSLOT];
            bool comp = true;
            for (size_t i = 0; i < A.d.size() && i < B.d.size(); i++) { int x = A.d[A.d.size() - 1 - i], y = B.d[B.d.size() - 1 - i]; if (x != y && x != 1 && y != 1) comp = false; }
            Snap w;
            if (comp) w = ref_broadcast(A, B, [&](float x, float y) { return op2(k, x, y); });
            if (w.v.size() > 400) break;
            // the result may replace an operand
            bool into = s % 3 == 0;
            string e = z.go([&] {
                if (into) {
                    switch (k) { case 0: z.A() = l + z.B(); break; case 1: z.A() = l - z.B(); break; case 2: z.A() = l * z.B(); break; default: z.A() = l / z.B(); }
                } else {
                    switch (k) { case 0: n.reset(new TF(l + z.B())); break; case 1: n.reset(new TF(l - z.B())); break; case 2: n.reset(new TF(l * z.B())); break; default: n.reset(new TF(l / z.B())); }
                }
            });
            if (!e.empty()) {
                if (z.failed) break;
                if (comp) RT_FAIL("unexpected-exception", "%s: %s threw: %s", z.what.c_str(), OPN[k], e.c_str() + 1);
                rt::count("hist.refused");
                break;
            }
            if (!comp) RT_FAIL("not-refused", "%s: %s of incompatible shapes was accepted", z.what.c_str(), OPN[k]);
            if (into) { expect_close("wrong-result", z.what + ": " + OPN[k], snap(z.A()), w, 1e-6); z.resync(); }
            else { Snap g = snap(*n); expect_close("wrong-result", z.what + ": " + OPN[k], g, w, 1e-6); verify(W, z.what); z.install(n, g); }
            break;
        }
        case P_WRITE: {
            size_t i = s % W.w[a].v.size();
            float c = value(s, 11, g_vals);
            vector<int> ix(W.w[a].d.size());
            size_t t = i;
            for (size_t k = ix.size(); k-- > 0;) { ix[k] = (int)(t % (size_t)W.w[a].d[k]); t /= (size_t)W.w[a].d[k]; }
            bool ok = z.must([&] {
                switch (s % 4) {
                    case 0: z.A()[i] = c; break;
                    case 1: z.A().at(ix) = c; break;
                    case 2: z.A().getData()[i] = c; break;
                    default: *(z.A().getData().begin() + i) = c; break;
                }
            });
            if (ok) {
                W.w[a].v[i] = c;
                float r = 0;
                if (z.must([&] { const TF& k = z.A(); r = s % 2 ? k.at(ix) : k[i]; }) && memcmp(&r, &c, 4)) RT_FAIL("wrong-result", "%s: wrote %.9g and read %.9g back", z.what.c_str(), (double)c, (double)r);
            }
            break;
        }
        case P_APPLY: {
            Snap A = W.w[a];
            bool boom = s % 4 == 3;
            size_t stop = s % (A.v.size() + 1), seen = 0;
            string e = z.go([&] {
                if (s % 4 == 0) n.reset(new TF(ATO::apply(z.A(), [](float x) { return x * 2 + 1; })));
                else if (boom) z.A().apply([&](float x) { if (seen++ == stop) throw std::runtime_error("callback"); return x * 2 + 1; });
                else z.A().apply([](float x) { return x * 2 + 1; });
            });
            if (s % 4 == 0) {
                if (!e.empty()) { if (z.failed) break; RT_FAIL("unexpected-exception", "%s threw: %s", z.what.c_str(), e.c_str() + 1); }
            }
            if (z.failed || (boom && !e.empty())) { Snap now = snap(z.A()); if (now.d != A.d) RT_FAIL("wrong-result", "%s: shape changed", z.what.c_str()); z.resync(); break; }
            if (!e.empty()) RT_FAIL("unexpected-exception", "%s threw: %s", z.what.c_str(), e.c_str() + 1);
            for (auto& f : A.v) f = f * 2 + 1;
            if (s % 4 == 0) { Snap g = snap(*n); expect_close("wrong-result", z.what, g, A, 1e-6); verify(W, z.what); z.install(n, g); }
            else { expect_close("wrong-result", z.what, snap(z.A()), A, 1e-6); z.resync(); }
            break;
        }
        case P_PURE: {
            const Snap B = z.SB();
            const TF& b = z.B();
            int k = (int)(s % 8);
            double mag = 0;
            bool fin = true;
            for (float f : B.v) { mag += std::fabs((double)f); if (!std::isfinite(f)) fin = false; }
            float c = (float)((int)(s / 8 % 9) - 4) * 0.5f;
            if (k == 5 && (B.d.size() != 2)) k = 0;
            if ((k == 3) && B.d.size() < 2) k = 1;
            bool ok = z.must([&] {
                switch (k) {
                    case 0: n.reset(new TF(-b)); break;
                    case 1: n.reset(new TF(b.sqrt())); break;
                    case 2: n.reset(new TF(ATO::sum(b))); break;
                    case 3: n.reset(new TF(ATO::transpose(b, 0, B.d.size() - 1))); break;
                    case 4: n.reset(new TF(c - b)); break;
                    case 5: { TF bt = ATO::transpose(b, 0, 1); n.reset(new TF(ATO::matmul(b, bt))); break; }
                    case 6: n.reset(new TF(b * c)); break;
                    default: n.reset(new TF(c / b)); break;
                }
            });
            if (!ok) break;
            Snap g = snap(*n), w = B;
            switch (k) {
                case 0: for (auto& f : w.v) f = -f; break;
                case 1: for (auto& f : w.v) f = std::sqrt(f); break;
                case 3: w = ref_transpose(B, 0, B.d.size() - 1); break;
                case 4: for (auto& f : w.v) f = c - f; break;
                case 6: for (auto& f : w.v) f = f * c; break;
                case 7: for (auto& f : w.v) f = c / f; break;
                default: break;
            }
            if (k == 2) {
                if (g.v.size() != 1) RT_FAIL("wrong-result", "%s: a sum of shape %s", z.what.c_str(), dim_str(g.d).c_str());
                double t = 0, abs = 0;
                for (float f : B.v) { t += f; abs += std::fabs(f); }
                // every addition may round by half a unit of the partial sum, always the same way
                double round = 1.2e-7 * (double)B.v.size();
                if (fin && abs < 1e37) expect_eq(z.what + ": sum", g.v[0], t, std::fmax(1e-5, round), abs + 1e-30);
            } else if (k == 5) {
                if (fin && mag < 1e17) {
                    Snap m = ref_matmul2(B, ref_transpose(B, 0, 1));
                    if (m.d != g.d) RT_FAIL("wrong-result", "%s: matmul of shape %s", z.what.c_str(), dim_str(g.d).c_str());
                    for (size_t i = 0; i < m.v.size(); i++) expect_eq(z.what + ": matmul element " + std::to_string(i), g.v[i], m.v[i], 1e-5 + 1.2e-7 * (double)B.d[1], mag * mag * (double)B.d[1] + 1e-30);
                }
            } else expect_close("wrong-result", z.what + ": pure operation " + std::to_string(k), g, w, 1e-6);
            verify(W, z.what);
            z.install(n, g);
            break;
        }
        case P_REFUSE: {
            int k = (int)(s % 6);
            vector<int> bad = W.w[a].d;
            bad.push_back(2);
            vector<int> ix(W.w[a].d.size(), 0);
            ix.back() = W.w[a].d.back();
            bool deadly = fmod((double)s, 2) == 0;
            string e = z.go([&] {
                switch (k) {
                    case 0: z.A().reshape(bad); break;
                    case 1: z.A().reshape(Shape(bad)); break;
                    case 2: z.A() /= 0.0f; break;
                    case 3: z.A().at(ix) = 99; break;
                    case 4: { TF x = deadly ? z.A() / 0.0f : ATO::reshape(z.A(), Shape(bad)); break; }
                    default: z.A().reshape(vector<int>{(int)W.w[a].v.size(), 0}); break;
                }
            });
            if (e.empty()) RT_FAIL("not-refused", "%s: request %d was accepted", z.what.c_str(), k);
            rt::count("hist.refused");
            break;   // and nothing changed
        }
        case P_VECTOR: {
            // copies in a growing container; the originals and the elements stay apart
            int m = (int)(2 + s % 5);
            vector<Snap> want;
            vector<Snap> got;
            z.fail = 0;
            z.must([&] {
                vector<TF> v;
                for (int i = 0; i < m; i++) {
                    int j = (a + i) % NSLOT;
                    if (i % 2) v.push_back(*W.t[j]); else v.emplace_back(*W.t[j]);
                    { Quiet q; want.push_back(W.w[j]); }
                    if (i && s % 3 == 0) { v[0] += 1.0f; Quiet q; for (auto& f : want[0].v) f += 1.0f; }
                }
                if (s % 2) { v.erase(v.begin()); Quiet q; want.erase(want.begin()); }
                if (s % 4 > 1 && v.size() > 1) { std::swap(v.front(), v.back()); Quiet q; std::swap(want.front(), want.back()); }
                if (s % 5 == 0) { v.insert(v.begin(), *W.t[a]); Quiet q; want.insert(want.begin(), W.w[a]); }
                if (s % 7 == 0) { vector<TF> c = v; for (auto& t : c) t.getData().fill(-1); }
                Quiet q;
                for (auto& t : v) got.push_back(snap(t));
            });
            for (size_t i = 0; i < want.size(); i++) expect_close("wrong-result", z.what + ": element " + std::to_string(i), got[i], want[i], 1e-6);
            break;
        }
        case P_SWAP: {
            if (z.bi == NSLOT) break;
            z.fail = 0;
            z.must([&] { std::swap(z.A(), z.B()); });
            if (z.bi != a) std::swap(W.w[a], W.w[z.bi]);
            break;
        }
        case P_BYVALUE: {
            Snap w = z.SB();
            z.fail = 0;
            bool bump = s % 2;
            z.must([&] { n.reset(new TF(bump ? bump_copy(z.B()) : pass_through(z.B()))); });
            if (bump) { for (auto& f : w.v) f = f + 1.0f; expect_close("wrong-result", z.what, snap(*n), w, 1e-6); w = snap(*n); }
            verify(W, z.what);
            z.install(n, w);
            break;
        }
        case P_META: {
            // a shape taken from a tensor is a value too
            bool ok = z.must([&] {
                Shape sh = z.A().getShape();
                sh[0] = 77;
                Shape s2 = std::move(sh);
                Shape s3({1});
                s3 = s2;
                s3 = z.B().getShape();
                s3.reshape(vector<int>{(int)s3.size()});
                vector<int> dd = z.A().getShape().getDimensions();
                dd.clear();
            });
            (void)ok;
            break;
        }
        case P_EQUAL: {
            bool eq = false, ne = false;
            Snap x = W.w[a], y = z.SB();
            if (s % 3 == 2) {            // against itself with one element changed, or none
                y = x;
                size_t n = y.v.size(), at = s / 3 % 4 == 0 ? n - 1 : s / 3 % 4 == 1 ? 0 : (s / 12) % n;
                if (s / 3 % 4 != 3) y.v[at] = y.v[at] == 0.5f ? 0.25f : 0.5f;
                if (!z.must([&] { TF t = make(y); eq = z.A() == t; ne = z.A() != t; })) break;
            } else if (!z.must([&] { eq = z.A() == z.B(); ne = z.A() != z.B(); })) break;
            bool want = x.d == y.d;
            for (size_t i = 0; want && i < x.v.size(); i++) if (!(x.v[i] == y.v[i])) want = false;
            if (eq != want || ne == want) RT_FAIL("wrong-result", "%s: == says %d and != says %d", z.what.c_str(), eq, ne);
            break;
        }
        default: {   // P_DATA: through the storage object
            Snap w = z.SB();
            float c = value(s, 5, g_vals);
            bool ok = z.must([&] {
                smart_dnn::TensorData<float, CPUDevice> d(z.B().getData());
                smart_dnn::TensorData<float, CPUDevice> e{Shape({1})};
                if (s % 2) e = d; else e = std::move(d);
                switch (s % 3) {
                    case 0: n.reset(new TF(e)); e.fill(c); break;
                    case 1: e[0] = c; n.reset(new TF(std::move(e))); break;
                    default: z.A().getData() = e; e.fill(c); break;
                }
            });
            if (!ok) break;
            if (s % 3 == 1) w.v[0] = c;
            if (s % 3 == 2) W.w[a] = w;
            else z.install(n, w);
            break;
        }
    }
    { Loud l; n.reset(); }
    verify(W, z.what);
}
static void run(const Plan& p) {
    Quiet q;
    int nt = (int)p.in("threads", 1, MAXTH);
    g_vals = (int)p.in("vals", 0, 4);
    g_sw = make_snap(SHAPES[p.in("shared", 0, NS - 1)], 99, g_vals);
    { Loud l; g_shared = new TF(make(g_sw)); }
    World W[MAXTH];
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < NSLOT; i++) {
            W[t].w[i] = make_snap(SHAPES[(size_t)((p.in("shared", 0, NS - 1) + i * 5 + t) % NSMALL)], (uint64_t)(i + 10 * t), g_vals);
            Loud l;
            W[t].t[i].reset(new TF(make(W[t].w[i])));
        }
    auto mine = [&](int t) { for (auto& o : p.ops) if ((int)o.in(4, 0, MAXTH - 1) % nt == t) { step(W[t], o); } };
    if (nt > 1) {
        vector<int> hs;
        for (int t = 0; t < nt; t++) hs.push_back(rt::spawn([&, t] { Quiet q2; mine(t); }));
        for (int h : hs) rt::join(h);
        rt::count("hist.concurrent_values");
    } else mine(0);
    rt::count("hist.value_program");
    for (int t = 0; t < nt; t++) {
        verify(W[t], "all operations");
        for (int i = 0; i < NSLOT; i++) {
            // relatives die one by one; the others live on
            { Loud l; W[t].t[i].reset(); }
            for (int j = i + 1; j < NSLOT; j++) expect_same("value-changed", "after tensor " + std::to_string(i) + " died: tensor " + std::to_string(j), snap(*W[t].t[j]), W[t].w[j]);
        }
    }
    Loud l;
    delete g_shared;
}
Scenario scenario() {
    Scenario s;
    s.prop = "C17";
    s.opnames.assign(NM, NM + NP);
    s.gen = gen;
    s.run = run;
    s.rule = "A plan is a program of 4-40 operations on five live tensors per thread (1-3 threads, plus one tensor all of them read): constructions, copies, assignments, moves, slices, reshapes, in-place, scalar and pure arithmetic with aliased and broadcast operands, element writes, containers, swaps, calls by value, refused requests and failing allocations; after every operation every live tensor is compared bitwise with its shadow value.";
    s.real = "Tensor, TensorData, Shape, TensorOperations, BroadcastView, AdvancedTensorOperations";
    s.stub = "threads, OpenMP runtime and operator new are the simulator's";
    return s;
}
