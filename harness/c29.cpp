// C29: numeric helpers
#include "vf.hpp"
#include "utils_math.h"
#include <cfloat>
#include <climits>
#include <omp.h>
using namespace ccgl;
using namespace utils_math;
using vf::Str;
const char* vf_rule = "Random arrays (sizes 1 to tens of thousands, six element types, values from small integers to the limits of the type, any share of excluded values) and thread counts against long double computation; random arguments over the whole positive normal range, and special values, for the fast approximations; distinct array contents and arguments are counted.";
void vf_init() {}
template <class T> static std::string tn();
template <> std::string tn<int>() { return "int"; }
template <> std::string tn<float>() { return "float"; }
template <> std::string tn<double>() { return "double"; }
template <> std::string tn<short>() { return "short"; }
template <> std::string tn<unsigned char>() { return "uchar"; }
template <> std::string tn<signed char>() { return "schar"; }
template <class T> static T val(vf::Rng& r, int mode) {
    bool fl = T(0.5) != T(0);
    switch (mode) {
        case 0: return (T) r.range(T(-1) < T(0) ? -20 : 0, 20);
        case 1: return fl ? (T) r.real(-1e4, 1e4) : (T) r.range(T(-1) < T(0) ? -100 : 0, 100);
        case 2: { // limits of the type
            if (!fl) { long long lo = T(-1) < T(0) ? -(1LL << (8 * sizeof(T) - 1)) : 0, hi = T(-1) < T(0) ? -lo - 1 : (1LL << 8 * sizeof(T)) - 1; return (T) (r.chance(.5) ? lo + r.range(0, 2) : hi - r.range(0, 2)); }
            return sizeof(T) == 4 ? (T) r.pickv<double>({3e38, -3e38, 1e-20, 0.0}) : (T) r.pickv<double>({1e100, -1e100, 1e-20, 5e38, -5e38, 0.0});
        }
        case 3: return fl ? (T) (sizeof(T) == 8 ? r.real(-5e39, -4e39) : r.real(-3.3e38, -3.2e38)) : (T) (T(-1) < T(0) ? -100 + r.range(0, 5) : r.range(0, 5));
        case 4: return fl ? (T) (sizeof(T) == 8 ? r.real(4e39, 5e39) : r.real(3.2e38, 3.3e38)) : (T) r.range(90, 100);
        default: return (T) (T(-1) < T(0) ? -r.range(1, 100) : r.range(1, 100));
    }
}
static bool near_(double got, long double want, long double scale, double rel) {
    if (std::isnan(got)) return false;
    return std::fabs((long double) got - want) <= scale * rel + std::fabs(want) * rel || (double) want == got;
}
template <class T> static void arr(vf::Rng& r) {
    int mode = (int) r.below(6), n = r.chance(.05) ? (int) r.range(1000, r.chance(.1) ? 150000 : 40000) : (int) r.range(1, 40);
    T ex = r.chance(.5) ? (T) -9999 : (T) r.range(0, 5);
    double pex = r.chance(.3) ? 0 : r.unit();
    T* a = new T[n]; // exact size: overruns are seen
    std::vector<T> keep;
    for (int i = 0; i < n; i++) { a[i] = r.chance(pex) ? ex : val<T>(r, mode); keep.push_back(a[i]); }
    int th = (int) r.range(1, 5);
    omp_set_num_threads(th);
    vf::desc(Str() << "statistics of " << n << " " << tn<T>() << " mode " << mode << " exclude " << (double) ex << " threads " << th);
    T mx = a[0], mn = a[0];
    for (int i = 0; i < n; i++) { if (a[i] > mx) mx = a[i]; if (a[i] < mn) mn = a[i]; }
    VF_CHECK(MaxInArray(a, n) == mx, "max", Str() << "MaxInArray " << (double) MaxInArray(a, n) << " expected " << (double) mx);
    VF_CHECK(MinInArray(a, n) == mn, "min", Str() << "MinInArray " << (double) MinInArray(a, n) << " expected " << (double) mn);
    bool fl = T(0.5) != T(0);
    if (mode <= 1 && (fl || sizeof(T) == 4)) {
        long double s = 0, sa = 0;
        for (int i = 0; i < n; i++) { s += a[i]; sa += std::fabs((long double) a[i]); }
        double e = fl ? (sizeof(T) == 4 ? FLT_EPSILON : DBL_EPSILON) * (n + 2) : 0;
        VF_CHECK(near_((double) Sum(n, a), s, sa, e), "sum", Str() << "Sum " << (double) Sum(n, a) << " expected " << (double) s);
        int m = (int) r.range(1, n);
        int* idx = new int[m];
        s = sa = 0;
        for (int i = 0; i < m; i++) { idx[i] = (int) r.below(n); s += a[idx[i]]; sa += std::fabs((long double) a[idx[i]]); }
        VF_CHECK(near_((double) Sum(m, idx, a), s, sa, e), "sum-index", Str() << "indexed Sum " << (double) Sum(m, idx, a) << " expected " << (double) s);
        delete[] idx;
        vf::tally("sums", 2);
    }
    long double cnt = 0, s = 0, sa = 0, vx = 0, vn = 0;
    for (int i = 0; i < n; i++) {
        if (a[i] == ex) continue;
        if (cnt == 0 || a[i] > vx) vx = a[i];
        if (cnt == 0 || a[i] < vn) vn = a[i];
        cnt += 1; s += a[i]; sa = std::max(sa, std::fabs((long double) a[i]));
    }
    double* st = nullptr;
    BasicStatistics(a, n, &st, ex);
    auto cmp = [&](double c0, double c1, double c2, double c3, double c4, double c5, const char* what) {
        VF_CHECK(c0 == (double) cnt, std::string("stat-count") + what, Str() << "count " << c0 << " expected " << (double) cnt);
        if (cnt == 0) return;
        long double mean = s / cnt, var = 0;
        long double m2 = 0;
        (void) m2;
        for (int i = 0; i < n; i++) if (keep[i] != ex) var += (keep[i] - mean) * (keep[i] - mean);
        long double sd = std::sqrt(var / cnt);
        double tol = DBL_EPSILON * (n + 8) * 4;
        VF_CHECK(near_(c1, mean, sa, tol), std::string("stat-mean") + what, Str() << "mean " << c1 << " expected " << (double) mean);
        VF_CHECK(c2 == (double) vx, std::string("stat-max") + what, Str() << "max " << c2 << " expected " << (double) vx);
        VF_CHECK(c3 == (double) vn, std::string("stat-min") + what, Str() << "min " << c3 << " expected " << (double) vn);
        VF_CHECK(near_(c4, sd, sa, tol * 8), std::string("stat-std") + what, Str() << "std " << c4 << " expected " << (double) sd);
        VF_CHECK(near_(c5, vx - vn, sa, DBL_EPSILON * 4), std::string("stat-range") + what, Str() << "range " << c5 << " expected " << (double) (vx - vn));
    };
    cmp(st[0], st[1], st[2], st[3], st[4], st[5], "");
    delete[] st;
    // the same numbers as one layer of several
    int L = n < 40 && r.chance(.1) ? (int) r.range(5, 20) : (int) r.range(1, 4), at = (int) r.below(L);
    T** v2 = new T*[n];
    for (int i = 0; i < n; i++) { v2[i] = new T[L]; for (int j = 0; j < L; j++) v2[i][j] = j == at ? a[i] : (r.chance(.3) ? ex : val<T>(r, 0)); }
    double** s2 = nullptr;
    vf::desc(Str() << "layer statistics of " << n << " x " << L << " " << tn<T>() << " mode " << mode << " exclude " << (double) ex << " threads " << th);
    BasicStatistics(v2, n, L, &s2, ex);
    cmp(s2[0][at], s2[1][at], s2[2][at], s2[3][at], s2[4][at], s2[5][at], "-layers");
    for (int i = 0; i < 6; i++) delete[] s2[i];
    delete[] s2;
    for (int i = 0; i < n; i++) { delete[] v2[i]; VF_CHECK(a[i] == keep[i], "input", "the data were changed"); }
    delete[] v2;
    delete[] a;
    vf::distinct(vf::hash_bytes(keep.data(), n * sizeof(T), (uint64_t) (int) ex));
    vf::tally("statistics", 2);
}
VF_KIND_LEAK(arrays, 4) {
    for (int k = 0; k < 6; k++)
        switch (c.r.below(6)) {
            case 0: arr<int>(c.r); break;
            case 1: arr<float>(c.r); break;
            case 2: arr<double>(c.r); break;
            case 3: arr<short>(c.r); break;
            case 4: arr<unsigned char>(c.r); break;
            default: arr<signed char>(c.r);
        }
    if (c.id % 256 == 0) vf::sample("statistics of random arrays");
}
VF_KIND(equal, 1) {
    for (int k = 0; k < 200; k++) {
        double a = c.r.chance(.5) ? c.r.real(-1e6, 1e6) : (double) c.r.range(-5, 5), b = c.r.chance(.3) ? a : c.r.chance(.5) ? std::nextafter(a, 1e9) : c.r.real(-1e6, 1e6);
        vf::desc(Str() << "FloatEqual " << a << " " << b);
        VF_CHECK(FloatEqual(a, b) == (std::fabs(a - b) < 1e-32), "floatequal", Str() << a << " " << b);
        int i = (int) c.r.range(-3, 3);
        float f = (float) c.r.range(-12, 12) / 4;
        VF_CHECK(FloatEqual(i, f) == ((float) i == f) && FloatEqual(f, i) == ((float) i == f), "floatequal", Str() << i << " " << f);
        unsigned char u = (unsigned char) c.r.below(256);
        signed char sc = (signed char) c.r.range(-128, 127);
        VF_CHECK(FloatEqual(u, sc) == ((int) u == (int) sc), "floatequal", Str() << (int) u << " " << (int) sc);
        vf::distinct(vf::hash_bytes(&a, 8, vf::hash_bytes(&b, 8)));
    }
    vf::tally("equalities", 600);
}
static void rel(const char* name, double got, double want, double tol, const std::string& arg) {
    VF_CHECK(std::fabs(got - want) <= tol * std::fabs(want), std::string("accuracy:") + name, Str() << name << "(" << arg << ") = " << got << ", correctly " << want);
}
VF_KIND(approx, 4) {
    for (int k = 0; k < 400; k++) {
        double l = c.r.real(-1, 1);
        float zf = (float) std::pow(10., l * 37.5);
        if (zf < FLT_MIN) zf = FLT_MIN;
        double zd = std::pow(10., l * 307);
        if (zd < DBL_MIN) zd = DBL_MIN;
        if (c.r.chance(.02)) { zf = c.r.pickv<float>({1.f, 2.f, FLT_MIN, FLT_MAX, 0.5f, 4.f, 3.f}); zd = c.r.pickv<double>({1., 2., DBL_MIN, DBL_MAX, .5, 4., 3.}); }
        vf::desc(Str() << "approximations at " << zf << " " << zd);
        rel("ApprSqrt(float)", ApprSqrt(zf), std::sqrt((double) zf), 1e-6, Str() << zf);
        rel("ApprSqrt(double)", ApprSqrt(zd), std::sqrt(zd), 1e-9, Str() << zd);
        VF_CHECK(std::fabs(ApprLn(zf) - std::log((double) zf)) <= 1e-3, "accuracy:ApprLn(float)", Str() << "ApprLn(" << zf << ") = " << ApprLn(zf));
        VF_CHECK(std::fabs(ApprLn(zd) - std::log(zd)) <= 1e-3, "accuracy:ApprLn(double)", Str() << "ApprLn(" << zd << ") = " << ApprLn(zd));
        double x = c.r.chance(.5) ? c.r.real(-40, 40) : c.r.real(-1, 1), xl = c.r.real(-700, 700);
        if (c.r.chance(.05)) x = (double) c.r.range(-56, 56) * 0.69314718055994530942;
        vf::desc(Str() << "exponentials at " << x << " " << xl);
        rel("ApprExp(double)", ApprExp(x), std::exp(x), 3e-5, Str() << x);
        rel("ApprExp(double)", ApprExp(xl), std::exp(xl), 3e-5, Str() << xl);
        rel("ApprExp(float)", ApprExp((float) x), std::exp((double) (float) x), 6e-5, Str() << (float) x);
        float a = (float) std::pow(10., c.r.real(-3, 3)), b = (float) c.r.real(-5, 5);
        vf::desc(Str() << "power " << a << " ^ " << b);
        rel("ApprPow", ApprPow(a, b), std::pow((double) a, (double) b), 6e-4 * (1 + std::fabs(b)), Str() << a << "," << b);
        // the wrappers without approximation are the library's
        vf::desc(Str() << "wrappers at " << zd);
        rel("CalSqrt", CalSqrt(zd), std::sqrt(zd), 1e-9, Str() << zd);
        rel("CalSqrt(float)", CalSqrt(zf), std::sqrt((double) zf), 1e-6, Str() << zf);
        rel("CalExp", CalExp(x), std::exp(x), 3e-5, Str() << x);
        VF_CHECK(std::fabs(CalLn(zd) - std::log(zd)) <= 1e-3, "accuracy:CalLn", Str() << zd);
        rel("CalPow", CalPow(a, b), std::pow((double) a, (double) b), 6e-4 * (1 + std::fabs(b)), Str() << a << "," << b);
        rel("Power", Power(a, b), std::pow((double) a, (double) b), 1e-5, Str() << a << "," << b);
        rel("Power", Power(-a, b), -std::pow((double) a, (double) b), 1e-5, Str() << -a << "," << b);
        float lo = (float) c.r.real(-30, 0), hi = (float) c.r.real(0, 30), e = (float) c.r.real(-60, 60);
        float cl = e < lo ? lo : e > hi ? hi : e;
        rel("Expo", Expo(e, hi, lo), std::exp((double) cl), 1e-5, Str() << e << " within " << lo << ".." << hi);
        rel("Expo", Expo(e), std::exp((double) (e < -20 ? -20 : e > 20 ? 20 : e)), 1e-5, Str() << e);
        vf::distinct(vf::hash_bytes(&zd, 8, vf::hash_bytes(&x, 8)));
        if (k == 0) vf::sample(Str() << "ApprSqrt(" << zd << ")=" << ApprSqrt(zd) << " ApprExp(" << x << ")=" << ApprExp(x) << " ApprPow(" << a << "," << b << ")=" << ApprPow(a, b));
    }
    vf::tally("approximations", 400 * 18);
}
VF_KIND(special, 1) { // any argument: no undefined behaviour (sanitizers), limits where they are exact
    static const double S[] = {0., -0., INFINITY, -INFINITY, NAN, 1e308, -1e308, 5e-324, 88., -88., 709., 710., -745., 1e5, -1e5, 44., 45., 43.6, 64., 1e18, -1e18, 1e19, -1.};
    for (double x: S) {
        vf::desc(Str() << "special " << x);
        volatile double sink = 0;
        sink = ApprSqrt(x); sink = ApprSqrt((float) x); sink = ApprLn(x); sink = ApprLn((float) x); sink = ApprExp(x); sink = ApprExp((float) x); sink = Expo((float) x);
        for (double y: S) { sink = ApprPow((float) x, (float) y); sink = CalPow(x, y); sink = Power((float) x, (float) y); }
        double r = c.r.real(-1e6, 1e6);
        vf::desc(Str() << "special " << x << " " << r);
        sink = ApprExp(r); sink = ApprExp((float) r); sink = ApprPow((float) std::fabs(r), (float) x); sink = ApprPow((float) std::fabs(r), (float) r);
        (void) sink;
    }
    VF_CHECK(ApprExp(0.) == 1. && ApprSqrt(0.) == 0. && ApprSqrt(0.f) == 0.f, "special-exact", "ApprExp(0), ApprSqrt(0)");
    VF_CHECK(ApprExp(1e5) > 1e300 && ApprExp(-1e5) >= 0 && ApprExp(-1e5) < 1e-300, "special-exp", Str() << ApprExp(1e5) << " " << ApprExp(-1e5));
    vf::tally("special_values");
}
