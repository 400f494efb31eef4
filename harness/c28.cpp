// C28: arrays are allocated, copied and released exactly as asked
#include "vf.hpp"
#include <algorithm>
#include "utils_array.h"
#include <omp.h>
using namespace ccgl;
using namespace utils_array;
using vf::Str;
const char* vf_rule = "Random sizes (1, small, thousands, also huge and non-positive), element and source types, initial values and thread counts for every allocation function and for the 2D array class; every element is compared and written, sources are destroyed before comparing, and live heap bytes are compared after release; distinct (function, types, sizes) tuples are counted.";
void vf_init() {}

template <class T> static std::string tn();
template <> std::string tn<int>() { return "int"; }
template <> std::string tn<float>() { return "float"; }
template <> std::string tn<double>() { return "double"; }
template <> std::string tn<short>() { return "short"; }
template <> std::string tn<unsigned char>() { return "uchar"; }
template <> std::string tn<long long>() { return "llong"; }
static int size1(vf::Rng& r) { return r.chance(.1) ? (int) r.range(1000, 200000) : r.chance(.2) ? 1 : (int) r.range(1, 70); }
template <class S> static S val(vf::Rng& r) { return (S) (r.range(0, 1000) - (S(-1) < S(0) ? 500 : 0)) / (S) r.pickv<int>({1, 1, 4}); }

template <class T, class S> static void one1d(vf::Rng& r) {
    int n = size1(r);
    omp_set_num_threads((int) r.range(1, 6));
    S v = val<S>(r);
    vf::desc(Str() << "1d-value<" << tn<T>() << "," << tn<S>() << ">|" << n);
    T* a = nullptr;
    VF_CHECK(Initialize1DArray(n, a, v) && a, "alloc-1d", "Initialize1DArray failed");
    for (int i = 0; i < n; i++) { VF_CHECK(a[i] == (T) v, "value-1d", Str() << "element " << i << " of " << n); }
    for (int i = 0; i < n; i++) a[i] = (T) (i & 63);
    T* keep = a;
    VF_CHECK(!Initialize1DArray(n, a, v) && a == keep, "reinit-1d", "an existing array was touched");
    for (int i = 0; i < n; i++) { VF_CHECK(a[i] == (T) (i & 63), "reinit-1d", "an existing array was touched"); }
    vf::desc(Str() << "1d-copy<" << tn<T>() << "," << tn<S>() << ">|" << n);
    S* src = new S[n];
    std::vector<S> ref(n);
    for (int i = 0; i < n; i++) ref[i] = src[i] = val<S>(r);
    T* b = nullptr;
    VF_CHECK(Initialize1DArray(n, b, src) && b, "alloc-1d-copy", "Initialize1DArray from data failed");
    for (int i = 0; i < n; i++) { VF_CHECK(src[i] == ref[i], "source-1d", "source changed"); src[i] = (S) 77; }
    delete[] src;
    for (int i = 0; i < n; i++) { VF_CHECK(b[i] == (T) ref[i], "copy-1d", Str() << "element " << i << " of " << n); b[i] = (T) 1; }
    Release1DArray(b);
    VF_CHECK(b == nullptr, "release-1d", "handle not cleared");
    Release1DArray(b);
    Release1DArray(a);
    VF_CHECK(a == nullptr, "release-1d", "handle not cleared");
    vf::distinct(vf::hash_str(Str() << "1d" << tn<T>() << tn<S>() << n));
    vf::tally("arrays_1d", 2);
}
template <class T, class S> static void one2d(vf::Rng& r) {
    int n = r.chance(.1) ? (int) r.range(1, 600) : (int) r.range(1, 30), m = r.chance(.1) ? (int) r.range(1, 600) : (int) r.range(1, 30);
    if (r.chance(.01)) { n = (int) r.range(5000, 70000); m = (int) r.range(1, 3); if (r.chance(.5)) std::swap(n, m); } // more than 16 bits count
    omp_set_num_threads((int) r.range(1, 6));
    S v = val<S>(r);
    vf::desc(Str() << "2d-value<" << tn<T>() << "," << tn<S>() << ">|" << n << "x" << m);
    T** a = nullptr;
    VF_CHECK(Initialize2DArray(n, m, a, v) && a, "alloc-2d", "Initialize2DArray failed");
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) VF_CHECK(a[i][j] == (T) v, "value-2d", Str() << i << "," << j << " of " << n << "x" << m);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = (T) ((i * 7 + j) & 63);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) VF_CHECK(a[i][j] == (T) ((i * 7 + j) & 63), "alias-2d", Str() << i << "," << j);
    for (int k = 0; k < n * m; k++) VF_CHECK(a[0][k] == (T) ((k / m * 7 + k % m) & 63), "contiguous-2d", "rows are not one block");
    T** keep = a;
    VF_CHECK(!Initialize2DArray(n, m, a, v) && a == keep && a[n - 1][m - 1] == (T) (((n - 1) * 7 + m - 1) & 63), "reinit-2d", "an existing array was touched");
    vf::desc(Str() << "2d-copy<" << tn<T>() << "," << tn<S>() << ">|" << n << "x" << m);
    std::vector<std::vector<S>> ref(n, std::vector<S>(m));
    S** src = new S*[n];
    for (int i = 0; i < n; i++) { src[i] = new S[m]; for (int j = 0; j < m; j++) ref[i][j] = src[i][j] = val<S>(r); }
    T** b = nullptr;
    VF_CHECK(Initialize2DArray(n, m, b, src) && b, "alloc-2d-copy", "Initialize2DArray from data failed");
    for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) src[i][j] = (S) 77; delete[] src[i]; }
    delete[] src;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { VF_CHECK(b[i][j] == (T) ref[i][j], "copy-2d", Str() << i << "," << j << " of " << n << "x" << m); b[i][j] = (T) 1; }
    Release2DArray(b);
    VF_CHECK(b == nullptr, "release-2d", "handle not cleared");
    Release2DArray(b);
    Release2DArray(a);
    VF_CHECK(a == nullptr, "release-2d", "handle not cleared");
    vf::distinct(vf::hash_str(Str() << "2d" << tn<T>() << tn<S>() << n << "x" << m));
    vf::tally("arrays_2d", 2);
}
VF_KIND_LEAK(d1, 4) {
    for (int k = 0; k < 3; k++)
        switch (c.r.below(7)) {
            case 0: one1d<int, int>(c.r); break;
            case 1: one1d<float, double>(c.r); break;
            case 2: one1d<double, float>(c.r); break;
            case 3: one1d<double, int>(c.r); break;
            case 4: one1d<unsigned char, int>(c.r); break;
            case 5: one1d<long long, short>(c.r); break;
            default: one1d<int, double>(c.r); break;
        }
    if (c.id % 64 == 0) vf::sample("1D arrays of seven type pairs, sizes to 200000");
}
VF_KIND_LEAK(d2, 4) {
    for (int k = 0; k < 3; k++)
        switch (c.r.below(7)) {
            case 0: one2d<int, int>(c.r); break;
            case 1: one2d<float, double>(c.r); break;
            case 2: one2d<double, float>(c.r); break;
            case 3: one2d<double, int>(c.r); break;
            case 4: one2d<short, int>(c.r); break;
            case 5: one2d<long long, short>(c.r); break;
            default: one2d<int, double>(c.r); break;
        }
}
// irregular rows: [rows, n1, v.., n2, v.., ...]
template <class T, class S> static void irregular(vf::Rng& r) {
    int n = r.chance(.02) ? (int) r.range(21, 3000) : (int) r.range(1, 20), mx = 0;
    std::vector<S> flat(1, (S) n);
    std::vector<std::vector<S>> rows;
    for (int i = 0; i < n; i++) {
        int m = (int) r.below(r.chance(.1) ? n < 21 && r.chance(.02) ? 70000 : 100 : 8);
        mx = std::max(mx, m);
        std::vector<S> row(1, (S) m);
        for (int j = 0; j < m; j++) row.push_back(val<S>(r));
        flat.insert(flat.end(), row.begin(), row.end());
        rows.push_back(row);
    }
    omp_set_num_threads((int) r.range(1, 6));
    vf::desc(Str() << "irregular<" << tn<T>() << "," << tn<S>() << ">|" << n << " rows, longest " << mx);
    S* src = new S[flat.size()];
    std::copy(flat.begin(), flat.end(), src);
    int gr = -1, gc = -1;
    T** a = nullptr;
    VF_CHECK(Initialize2DArray(src, gr, gc, a) && a, "alloc-irregular", "irregular Initialize2DArray failed");
    delete[] src;
    VF_CHECK(gr == n && gc == mx, "irregular-size", Str() << "rows " << gr << " for " << n << ", longest " << gc << " for " << mx);
    for (int i = 0; i < n; i++)
        for (size_t j = 0; j < rows[i].size(); j++) VF_CHECK(a[i][j] == (T) rows[i][j], "irregular-value", Str() << i << "," << j);
    Release2DArray(a);
    VF_CHECK(a == nullptr, "release-2d", "handle not cleared");
    vf::distinct(vf::hash_bytes(flat.data(), flat.size() * sizeof(S)));
    vf::tally("arrays_irregular");
}
VF_KIND_LEAK(irreg, 2) { irregular<float, float>(c.r); irregular<double, float>(c.r); irregular<int, int>(c.r); irregular<float, double>(c.r); }
VF_KIND_LEAK(batch, 1) {
    int n = size1(c.r), k = (int) c.r.range(1, 5);
    vf::desc(Str() << "batch release|" << n);
    int *a = nullptr, *b = nullptr, *d = nullptr;
    Initialize1DArray(n, a, 1);
    Initialize1DArray(n, b, 2);
    Initialize1DArray(k, d, 3);
    switch (c.r.below(3)) {
        case 0: BatchRelease1DArray(a, b, d, nullptr); break;
        case 1: BatchRelease1DArray(a, b, nullptr); Release1DArray(d); break;
        default: BatchRelease1DArray(a, nullptr); Release1DArray(b); Release1DArray(d);
    }
    VF_CHECK(a == nullptr, "release-1d", "handle not cleared");
    double **x = nullptr, **y = nullptr;
    Initialize2DArray(k, 3, x, 1);
    Initialize2DArray(k, 2, y, 2);
    BatchRelease2DArray(k, x, y, nullptr);
    VF_CHECK(x == nullptr, "release-2d", "handle not cleared");
    vf::tally("batch_releases");
}
// requests that cannot be met: no array, no leak, no access
VF_KIND_LEAK(refused, 2) {
    int bad = c.r.pickv<int>({0, -1, -5, -2147483647 - 1});
    int good = (int) c.r.range(1, 20);
    vf::desc(Str() << "refused|size " << bad);
    int* a = nullptr;
    double dv[3] = {1, 2, 3};
    int* none = nullptr;
    VF_CHECK(!Initialize1DArray(bad, a, 3) && a == nullptr, "refuse-1d", Str() << "size " << bad);
    VF_CHECK(!Initialize1DArray(bad, a, dv) && a == nullptr, "refuse-1d-copy", Str() << "size " << bad);
    VF_CHECK(!Initialize1DArray(good, a, none) && a == nullptr, "refuse-1d-nodata", "no source data");
    float** b = nullptr;
    float** nob = nullptr;
    double row[4] = {1, 2, 3, 4};
    double* rows[2] = {row, row};
    int x = c.r.chance(.5) ? bad : good, y = x == bad ? (c.r.chance(.5) ? bad : good) : bad;
    VF_CHECK(!Initialize2DArray(x, y, b, 1.5) && b == nullptr, "refuse-2d", Str() << x << "x" << y);
    VF_CHECK(!Initialize2DArray(x, y, b, rows) && b == nullptr, "refuse-2d-copy", Str() << x << "x" << y);
    VF_CHECK(!Initialize2DArray(good, good, b, nob) && b == nullptr, "refuse-2d-nodata", "no source data");
    int r0 = 0, c0 = 0;
    VF_CHECK(!Initialize2DArray(none, r0, c0, b) && b == nullptr, "refuse-irregular", "no source data");
    float zero[1] = {(float) (bad < -5 ? -5 : bad)};
    VF_CHECK(!Initialize2DArray(zero, r0, c0, b) && b == nullptr, "refuse-irregular", "no rows");
    vf::tally("refused_requests", 8);
}
VF_KIND_LEAK(huge, 0.05) { // more than can be allocated (or than fits 32-bit arithmetic): refused, or really that big
    int n = c.r.pickv<int>({65536, 46341, 2147483647, 1 << 20}), m = c.r.pickv<int>({65536, 65537, 1 << 20});
    vf::desc(Str() << "huge|" << n << "x" << m);
    double** b = nullptr;
    bool ok = Initialize2DArray(n, m, b, 0);
    VF_CHECK(!ok && b == nullptr, "huge-2d", Str() << n << "x" << m << " cannot be allocated here but was reported as done");
    vf::tally("huge_requests");
}
VF_KIND_LEAK(cls, 2) { // 2D array class
    unsigned n = (unsigned) c.r.range(1, 30), m = (unsigned) c.r.range(1, 30);
    vf::desc(Str() << "Array2D|" << n << "x" << m);
    int v = (int) c.r.range(-9, 9);
    Array2D<int> a(n, m, v), e;
    auto same = [&](Array2D<int>& x, int base) {
        VF_CHECK(x.get_rows() == n && x.get_cols() == m && x.data(), "class-size", Str() << x.get_rows() << "x" << x.get_cols());
        for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < m; j++) VF_CHECK(x[i][j] == base + (int) (i * m + j), "class-value", Str() << i << "," << j);
    };
    for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < m; j++) { VF_CHECK(a[i][j] == v, "class-init", Str() << i << "," << j); a[i][j] = (int) (i * m + j); }
    Array2D<int> b(a);
    same(b, 0);
    b[n - 1][m - 1] = -1;
    same(a, 0);
    Array2D<int> d(3, 2, 5);
    d = a;
    same(d, 0);
    d[0][0] = 99;
    same(a, 0);
    d = d;
    Array2D<int> mv(std::move(a));
    same(mv, 0);
    e = std::move(mv);
    same(e, 0);
    e.create(2, 5, 8);
    VF_CHECK(e.get_rows() == 2 && e.get_cols() == 5 && e[1][4] == 8, "class-create", "create");
    int thrown = 0;
    try { Array2D<int> z(0, 3); } catch (const std::invalid_argument&) { thrown++; }
    try { Array2D<int> z(3, 0); } catch (const std::invalid_argument&) { thrown++; }
    VF_CHECK(thrown == 2, "class-refuse", "zero size accepted");
    vf::tally("array_class");
}
VF_KIND(vec, 1) {
    std::vector<int> v, want;
    int n = (int) c.r.below(20), x = (int) c.r.below(6);
    for (int i = 0; i < n; i++) { v.push_back((int) c.r.below(6)); if (v.back() != x) want.push_back(v.back()); }
    vf::desc("vector helpers");
    VF_CHECK(ValueInVector(x, v) == (want.size() != v.size()), "in-vector", "ValueInVector");
    RemoveValueInVector(x, v);
    VF_CHECK(v == want, "remove-vector", "RemoveValueInVector");
    vf::tally("vector_helpers");
}
