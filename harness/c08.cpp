// C08: statistics
#include "mk.hpp"
#include <cfloat>
#include <omp.h>
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters of ten cell types in every storage mode, 1-4 layers, are asked for every statistic by name (any case), by accessor and for all layers at once, in any order, with 1-6 threads, before and after cells are set, no-data is replaced, values are reclassified, valid positions are worked out, statistics are released or the raster is copied; every number is compared with long double computation over the model's valid cells; distinct rasters are counted.";
void vf_init() { init(); }
#else
struct Want { long double cnt, mean, mx, mn, sd, big; };
template <class T> Want expect(const Grid<T>& g, int l) {
    Want w = {0, 0, 0, 0, 0, 0};
    long double s = 0;
    for (int i = 0; i < g.n(); i++) {
        if (g.nd(l, i)) continue;
        long double x = (long double) g.v[l][i];
        if (w.cnt == 0 || x > w.mx) w.mx = x;
        if (w.cnt == 0 || x < w.mn) w.mn = x;
        w.cnt += 1;
        s += x;
        w.big = std::max(w.big, std::fabs(x));
    }
    if (w.cnt > 0) {
        w.mean = s / w.cnt;
        long double v = 0;
        for (int i = 0; i < g.n(); i++) if (!g.nd(l, i)) v += ((long double) g.v[l][i] - w.mean) * ((long double) g.v[l][i] - w.mean);
        w.sd = std::sqrt(v / w.cnt);
    }
    return w;
}
inline bool near_(double got, long double want, long double scale, double rel) {
    return !std::isnan(got) && (std::fabs((long double) got - want) <= (scale + std::fabs(want)) * rel || (double) want == got);
}
template <class T> void judge(const Want& w, int item, double got, int n, const string& what) {
    static const char* nm[] = {"count", "mean", "maximum", "minimum", "deviation", "range"};
    double tol = DBL_EPSILON * (n + 8) * 4;
    long double want = item == 0 ? w.cnt : item == 1 ? w.mean : item == 2 ? w.mx : item == 3 ? w.mn : item == 4 ? w.sd : w.mx - w.mn;
    if (w.cnt == 0 && item > 0) return;
    bool ok = item == 0 || item == 2 || item == 3 ? got == (double) want : near_(got, want, w.big, item == 4 ? tol * 8 : item == 1 ? tol : DBL_EPSILON * 4);
    VF_CHECK(ok, string("wrong:") + nm[item], Str() << nm[item] << " " << what << " is " << got << ", expected " << (double) want << " of " << (double) w.cnt << " valid cells");
}
template <class T> void ask(Rng& r, Built<T>& b, const string& when) {
    typedef typename Built<T>::R R;
    Grid<T>& g = b.g;
    R* p = b.r.get();
    static const char* key[] = {"VALID_CELLNUMBER", "MEAN", "MAX", "MIN", "STD", "RANGE"};
    vector<Want> w;
    for (int l = 0; l < g.lyrs; l++) w.push_back(expect(g, l));
    int n = g.n();
    omp_set_num_threads((int) r.range(1, 6));
    bool asked = false;
    for (int k = 0; k < 14; k++) {
        int it = (int) r.below(6), l = (int) r.below(g.lyrs);
        string name = key[it], at = Str() << "of layer " << l + 1 << " " << when;
        if (r.chance(.5)) for (auto& ch: name) ch = (char) (r.chance(.5) ? tolower(ch) : ch);
        int way = (int) r.below(4);
        if (way < 2 || p->Is2DRaster()) asked = true;
        switch (way) {
            case 0: judge<T>(w[l], it, p->GetStatistics(name, l + 1), n, "by name " + at); break;
            case 1: {
                double d = it == 0 ? p->GetValidNumber(l + 1) : it == 1 ? p->GetAverage(l + 1) : it == 2 ? p->GetMaximum(l + 1) : it == 3 ? p->GetMinimum(l + 1) : it == 4 ? p->GetStd(l + 1) : p->GetRange(l + 1);
                judge<T>(w[l], it, d, n, "by accessor " + at);
                if (g.lyrs == 1) { double e = it == 0 ? p->GetValidNumber() : it == 1 ? p->GetAverage() : it == 2 ? p->GetMaximum() : it == 3 ? p->GetMinimum() : it == 4 ? p->GetStd() : p->GetRange(); judge<T>(w[l], it, e, n, "by accessor " + at); }
                break;
            }
            default: {
                int ln = -7;
                double* v = nullptr;
                bool named = r.chance(.5);
                if (named) p->GetStatistics(name, &ln, &v);
                else switch (it) { case 0: p->GetValidNumber(&ln, &v); break; case 1: p->GetAverage(&ln, &v); break; case 2: p->GetMaximum(&ln, &v); break; case 3: p->GetMinimum(&ln, &v); break; case 4: p->GetStd(&ln, &v); break; default: p->GetRange(&ln, &v); }
                if (p->Is2DRaster()) {
                    VF_CHECK(v != nullptr && ln == g.lyrs, "all-layers", Str() << "statistics of all layers " << when << " are not available, layers " << ln);
                    for (int q = 0; q < g.lyrs; q++) judge<T>(w[q], it, v[q], n, Str() << "among all layers of layer " << q + 1 << " " << when);
                } else VF_CHECK(v == nullptr, "all-layers", "statistics of all layers of a raster of one dimension");
            }
        }
        vf::tally("statistics compared");
    }
    if (asked) VF_CHECK(p->StatisticsCalculated(), "calculated", "StatisticsCalculated is false after asking");
    if (r.chance(.2)) VF_CHECK(ndeq(p->GetStatistics("MEDIAN", 1), p->GetDefaultValue()), "unknown", "an unknown statistic");
}
template <class T> void limit(Built<T>& b) { (void) b; }
template <class T> void statistics(vf::Case& c) {
    auto& r = c.r;
    Built<T> b;
    MkOpt o;
    o.gen.big = 60;
    if (sizeof(T) == 8 && !std::numeric_limits<T>::is_integer) o.gen.mode = (int) r.below(2); // squares of larger ones overflow
    build(r, b, o);
    vf::desc("statistics " + b.str());
    Grid<T>& g = b.g;
    auto value = [&]() { T x = gen_value<T>(r, std::numeric_limits<T>::is_integer ? (int) r.below(3) : (int) r.below(2)); return r.chance(.2) ? g.nodata : ndeq((double) x, (double) g.nodata) ? g.nodata : x; };
    string when = "at first";
    if (r.chance(.5)) b->CalculateStatistics();
    ask(r, b, when);
    int steps = (int) r.range(1, 5);
    for (int s = 0; s < steps; s++) {
        bool upd = true;
        switch (r.below(7)) {
            case 0: case 1: {
                int k = (int) r.range(1, 6);
                for (int q = 0; q < k; q++) {
                    int i = (int) r.below(g.n()), l = (int) r.below(g.lyrs);
                    T x = value();
                    b->SetValue(i / g.cols, i % g.cols, x, l + 1);
                    if (b.index(i) >= 0) g.v[l][i] = x;
                }
                when = "after setting cells";
                break;
            }
            case 2: {
                T nd = gen_nodata<T>(r);
                bool used = false;
                for (auto& l: g.v) for (auto x: l) if (ndeq((double) x, (double) nd) && !ndeq((double) x, (double) g.nodata)) used = true;
                if (used) continue;
                b->ReplaceNoData(nd);
                for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) g.nodata)) x = nd;
                g.nodata = nd;
                when = "after replacing no-data";
                break;
            }
            case 3: {
                map<int, T> rc;
                for (int q = 0; q < 6; q++) rc[(int) r.range(-3, 9)] = value();
                bool frac = false;
                for (auto& l: g.v) for (auto x: l) if ((double) x != std::trunc((double) x)) frac = true;
                if (frac) continue;
                b->Reclassify(rc);
                for (auto& l: g.v) for (auto& x: l) if (!ndeq((double) x, (double) g.nodata)) { auto f = std::fabs((double) x) < 2e9 ? rc.find((int) x) : rc.end(); x = f == rc.end() ? g.nodata : f->second; }
                when = "after reclassification";
                break;
            }
            case 4:
                if (!b.full || g.nvalid() == 0) continue;
                VF_CHECK(b->SetCalcPositions(), "positions", "SetCalcPositions failed");
                b.compacted();
                when = "after working out valid positions";
                break;
            case 5: b->ReleaseStatsMap2D(); upd = r.chance(.5); when = "after releasing statistics"; if (!upd) { b->UpdateStatistics(); } break;
            default: {
                std::unique_ptr<typename Built<T>::R> n(new typename Built<T>::R(b.r.get()));
                b.r.swap(n);
                upd = false;
                when = "of a copy";
            }
        }
        if (upd) b->UpdateStatistics();
        if (r.chance(.3)) b->UpdateStatistics();
        ask(r, b, when);
    }
    vf::distinct(g.hash());
}
M_KIND(statistics, 1)
#endif
