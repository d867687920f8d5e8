// Shared by the scenarios: host-side snapshots of tensors, value generators and
// plain reference implementations.  Everything here runs in Quiet sections.
#pragma once
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
#include "harness.hpp"
#include <cmath>
#include <cstring>
#include <string>
#include <vector>

using smart_dnn::Tensor;
using smart_dnn::AdvancedTensorOperations;
using rt::Loud;
using rt::Quiet;
using TF = Tensor<float>;
using ATO = AdvancedTensorOperations<float>;
using std::string;
using std::vector;

struct Snap {
    vector<int> d;
    vector<float> v;
    bool operator==(const Snap& o) const {
        return d == o.d && v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), v.size() * sizeof(float)));
    }
    bool operator!=(const Snap& o) const { return !(*this == o); }
};
inline size_t dims_size(const vector<int>& d) {
    size_t n = 1;
    for (int x : d) n *= (size_t)x;
    return n;
}
inline Snap snap(const TF& t) {
    Quiet q;
    Snap s;
    s.d = t.getShape().getDimensions();
    size_t n = dims_size(s.d);
    const float* p = t.getData().data();
    if (!p && n) RT_FAIL("null-buffer", "a tensor of shape %s has no storage", t.getShape().toString().c_str());
    if (n != t.getShape().size()) RT_FAIL("bad-shape", "a tensor's element count %zu does not match its dimensions (%zu)", t.getShape().size(), n);
    s.v.assign(p, p + n);
    return s;
}
inline string dim_str(const vector<int>& d) {
    string s = "(";
    for (size_t i = 0; i < d.size(); i++) s += (i ? "," : "") + std::to_string(d[i]);
    return s + ")";
}
inline bool near1(double a, double b, double tol, double scale = 1) {
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= tol * std::fmax(scale, std::fmax(std::fabs(a), std::fabs(b)));
}
// index of the first difference beyond tol, or -1; -2 shape mismatch
inline long diff(const Snap& a, const Snap& b, double tol) {
    if (a.d != b.d || a.v.size() != b.v.size()) return -2;
    for (size_t i = 0; i < a.v.size(); i++) if (!near1(a.v[i], b.v[i], tol)) return (long)i;
    return -1;
}
inline void expect_close(const char* cls, const string& what, const Snap& got, const Snap& want, double tol) {
    long i = diff(got, want, tol);
    if (i == -1) return;
    if (i == -2) RT_FAIL(cls, "%s: shape %s, expected %s", what.c_str(), dim_str(got.d).c_str(), dim_str(want.d).c_str());
    RT_FAIL(cls, "%s: element %ld of %s is %.9g, expected %.9g", what.c_str(), i, dim_str(got.d).c_str(), (double)got.v[(size_t)i], (double)want.v[(size_t)i]);
}
inline void expect_same(const char* cls, const string& what, const Snap& got, const Snap& want) {
    if (got == want) return;
    if (got.d != want.d) RT_FAIL(cls, "%s: shape %s, expected %s", what.c_str(), dim_str(got.d).c_str(), dim_str(want.d).c_str());
    for (size_t i = 0; i < got.v.size(); i++)
        if (memcmp(&got.v[i], &want.v[i], 4)) RT_FAIL(cls, "%s: element %zu of %s is %.9g, expected %.9g", what.c_str(), i, dim_str(got.d).c_str(), (double)got.v[i], (double)want.v[i]);
    RT_FAIL(cls, "%s: %zu elements, expected %zu", what.c_str(), got.v.size(), want.v.size());
}
inline void note_snap(const Snap& s) {
    uint64_t h = s.v.size();
    for (int x : s.d) h = mix64(h, (uint64_t)x);
    for (float f : s.v) { uint32_t u; memcpy(&u, &f, 4); h = mix64(h, u); }
    rt::note(h);
}

// mode 0: small integers -4..4 (sums exact)   1: dyadic fractions in [-2,2]
// 2: positive in (0,1]   3: distinct integers (index-like)  4: wide floats
inline float value(uint64_t seed, size_t i, int mode) {
    uint64_t h = mix64(seed, i + 1);
    switch (mode) {
        case 0: return (float)((int64_t)(h % 9) - 4);
        case 1: return (float)((int64_t)(h % 257) - 128) / 64.0f;
        case 2: return (float)(1 + h % 1000) / 1000.0f;
        case 3: return (float)(i + 1 + (seed % 7) * 1000);
        default: return (float)((int64_t)(h % 2000001) - 1000000) / 777.0f;
    }
}
inline Snap make_snap(const vector<int>& d, uint64_t seed, int mode) {
    Quiet q;
    Snap s;
    s.d = d;
    s.v.resize(dims_size(d));
    for (size_t i = 0; i < s.v.size(); i++) s.v[i] = value(seed, i, mode);
    return s;
}
// Library tensor holding a snapshot.  Allocated by whoever calls it (arena when loud).
inline TF make(const Snap& s) {
    TF t{Shape(s.d)};
    Quiet q;
    if (!s.v.empty()) memcpy(t.getData().data(), s.v.data(), s.v.size() * sizeof(float));
    return t;
}
inline TF make(const vector<int>& d, uint64_t seed, int mode) { return make(make_snap(d, seed, mode)); }

// ---- references (double accumulation) ----
inline Snap ref_matmul2(const Snap& a, const Snap& b) {
    Snap r;
    int m = a.d[0], k = a.d[1], n = b.d[1];
    r.d = {m, n};
    r.v.resize((size_t)m * n);
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) {
            double s = 0;
            for (int p = 0; p < k; p++) s += (double)a.v[(size_t)i * k + p] * b.v[(size_t)p * n + j];
            r.v[(size_t)i * n + j] = (float)s;
        }
    return r;
}
inline Snap ref_transpose(const Snap& a, size_t d0, size_t d1) {
    Snap r;
    r.d = a.d;
    std::swap(r.d[d0], r.d[d1]);
    r.v.resize(a.v.size());
    size_t n = a.d.size();
    vector<int> ix(n, 0);
    for (size_t i = 0; i < a.v.size(); i++) {
        vector<int> jx = ix;
        std::swap(jx[d0], jx[d1]);
        size_t o = 0;
        for (size_t k = 0; k < n; k++) o = o * (size_t)r.d[k] + (size_t)jx[k];
        r.v[o] = a.v[i];
        for (int k = (int)n - 1; k >= 0; k--) { if (++ix[(size_t)k] < a.d[(size_t)k]) break; ix[(size_t)k] = 0; }
    }
    return r;
}
template <class F> inline Snap ref_broadcast(const Snap& a, const Snap& b, F f) {
    Snap r;
    size_t n = std::max(a.d.size(), b.d.size());
    auto dim = [&](const Snap& s, size_t i) { size_t off = n - s.d.size(); return i < off ? 1 : s.d[i - off]; };
    for (size_t i = 0; i < n; i++) r.d.push_back(std::max(dim(a, i), dim(b, i)));
    size_t tot = dims_size(r.d);
    r.v.resize(tot);
    vector<int> ix(n, 0);
    for (size_t t = 0; t < tot; t++) {
        size_t oa = 0, ob = 0;
        for (size_t k = 0; k < n; k++) {
            oa = oa * (size_t)dim(a, k) + (dim(a, k) == 1 ? 0 : (size_t)ix[k]);
            ob = ob * (size_t)dim(b, k) + (dim(b, k) == 1 ? 0 : (size_t)ix[k]);
        }
        r.v[t] = f(a.v[oa], b.v[ob]);
        for (int k = (int)n - 1; k >= 0; k--) { if (++ix[(size_t)k] < r.d[(size_t)k]) break; ix[(size_t)k] = 0; }
    }
    return r;
}

// Runs f with the simulator watching; returns the exception text, or "" when it returned.
template <class F> inline string attempt(F&& f) {
    try {
        Loud l;
        f();
        return "";
    } catch (const std::exception& e) {
        return string("!") + e.what();
    } catch (...) {
        return "!unknown exception";
    }
}
