// Simulated MNIST files and the samples they hold.
#pragma once
#include "common.hpp"
#include <fstream>
#include <sstream>
#include <memory>
#include <unistd.h>
#include "smart_dnn/Datasets/MNistLoader.hpp"

using smart_dnn::MNISTLoader;

struct Files {
    int n = 0, nl = 0, rows = 1, cols = 1;
    uint64_t seed = 1;
    std::string ipath, lpath, ibytes, lbytes;
    unsigned char pixel(int i, int k) const {
        uint64_t h = mix64(seed, (uint64_t)i * 10007 + (uint64_t)k);
        return h % 5 == 0 ? 0 : h % 5 == 1 ? 255 : (unsigned char)(h >> 20);
    }
    int digit(int i) const { return (int)(mix64(seed + 9, (uint64_t)i) % 10); }
};
inline void put32(std::string& s, uint32_t v) { for (int k = 24; k >= 0; k -= 8) s += (char)(v >> k & 255); }
inline void compose(Files& f) {
    f.ibytes.clear();
    f.lbytes.clear();
    put32(f.ibytes, 2051);
    put32(f.ibytes, (uint32_t)f.n);
    put32(f.ibytes, (uint32_t)f.rows);
    put32(f.ibytes, (uint32_t)f.cols);
    for (int i = 0; i < f.n; i++) for (int k = 0; k < f.rows * f.cols; k++) f.ibytes += (char)f.pixel(i, k);
    put32(f.lbytes, 2049);
    put32(f.lbytes, (uint32_t)f.nl);
    for (int i = 0; i < f.nl; i++) f.lbytes += (char)f.digit(i);
}
inline void store(const std::string& path, const std::string& bytes) {
    FILE* o = fopen(path.c_str(), "wb");
    if (!o || fwrite(bytes.data(), 1, bytes.size(), o) != bytes.size() || fclose(o)) RT_FAIL("harness", "cannot write %s", path.c_str());
}
inline void store(Files& f) {
    std::string b = scratch_dir() + "/" + std::to_string((long)getpid());
    f.ipath = b + ".images";
    f.lpath = b + ".labels";
    store(f.ipath, f.ibytes);
    store(f.lpath, f.lbytes);
}
inline void unstore(const Files& f) { unlink(f.ipath.c_str()); unlink(f.lpath.c_str()); }

struct Loaded {
    vector<Snap> x, y;
};
inline string load(MNISTLoader<float>& l, Loaded& out) {
    return attempt([&] {
        auto r = l.loadData();
        Quiet q;
        for (auto& t : r.first) out.x.push_back(snap(t));
        for (auto& t : r.second) out.y.push_back(snap(t));
    });
}
// Exactly the first `count` samples of the files, in order, in batches of `batch`.
inline void expect_samples(const Files& f, const Loaded& g, int count, int batch, const char* when) {
    size_t want = (size_t)((count + batch - 1) / batch);
    if (g.x.size() != want || g.y.size() != want)
        RT_FAIL("wrong-samples", "%s: %zu image and %zu label batches for %d samples in batches of %d", when, g.x.size(), g.y.size(), count, batch);
    for (size_t b = 0; b < want; b++) {
        int from = (int)b * batch, m = std::min(batch, count - from);
        Snap x, y;
        x.d = {m, 1, f.rows, f.cols};
        y.d = {m, 10};
        y.v.assign((size_t)m * 10, 0);
        for (int i = 0; i < m; i++) {
            for (int k = 0; k < f.rows * f.cols; k++) x.v.push_back((float)f.pixel(from + i, k) / 255.0f);
            y.v[(size_t)i * 10 + (size_t)f.digit(from + i)] = 1;
        }
        expect_close("wrong-samples", string(when) + ": images of batch " + std::to_string(b), g.x[b], x, 1e-6);
        expect_same("wrong-samples", string(when) + ": labels of batch " + std::to_string(b), g.y[b], y);
    }
}
inline void note_loaded(const Loaded& g) {
    for (auto& s : g.x) note_snap(s);
    for (auto& s : g.y) note_snap(s);
}
