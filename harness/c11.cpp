// C11: copies
#include "mk.hpp"
#include <omp.h>
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters of ten cell types in every storage mode, with and without subsets (and data handed to them), statistics, options and other default values, are copy-constructed or copied onto destinations of any other size and state (empty, compact, multi-layer, with subsets and statistics, copied before); the copy is compared member by member, then one of the two is edited, rebuilt, read again or destroyed and the other compared with its own model; distinct pairs are counted.";
void vf_init() { init(); }
#else
template <class T> struct Sub { int n, lyrs, sr, er, sc, ec; bool usable; vector<int> pos, idx, glob; vector<double> data, data2; };
template <class T, class R> map<int, Sub<T>> subsets(R* p) {
    map<int, Sub<T>> m;
    for (auto& kv: p->GetSubset()) {
        auto* s = kv.second;
        Sub<T> t = {s->n_cells, s->n_lyrs, s->g_srow, s->g_erow, s->g_scol, s->g_ecol, s->usable, {}, {}, {}, {}, {}};
        for (int i = 0; i < s->n_cells; i++) {
            if (s->local_pos_) { t.pos.push_back(s->local_pos_[i][0]); t.pos.push_back(s->local_pos_[i][1]); }
            if (s->local_posidx_) t.idx.push_back(s->local_posidx_[i]);
            if (s->global_) t.glob.push_back(s->global_[i]);
            if (s->data_) t.data.push_back(s->data_[i]);
            if (s->data2d_) for (int l = 0; l < s->n_lyrs; l++) t.data2.push_back(s->data2d_[i][l]);
        }
        m[kv.first] = t;
    }
    return m;
}
template <class T> bool eq(const map<int, Sub<T>>& a, const map<int, Sub<T>>& b, string& why) {
    if (a.size() != b.size()) { why = Str() << a.size() << " and " << b.size() << " subsets"; return false; }
    for (auto& kv: a) {
        auto it = b.find(kv.first);
        if (it == b.end()) { why = Str() << "subset " << kv.first << " is missing"; return false; }
        const Sub<T>&x = kv.second, &y = it->second;
        if (x.n != y.n || x.lyrs != y.lyrs || x.sr != y.sr || x.er != y.er || x.sc != y.sc || x.ec != y.ec || x.usable != y.usable || x.pos != y.pos || x.idx != y.idx || x.glob != y.glob || x.data != y.data || x.data2 != y.data2) { why = Str() << "subset " << kv.first << " differs"; return false; }
    }
    return true;
}
// everything a raster answers, so that later changes can be detected
template <class T> struct Snap {
    Grid<T> g;
    int cells;
    double defv;
    vector<int> pos;
    map<int, Sub<T>> sub;
    map<string, string> opt;
    string core;
    bool calc, ext, is2d, stats;
    dr::RasterDataType ti, to;
};
template <class T, class R> Snap<T> snap(R* p) {
    Snap<T> s;
    s.g.rows = p->GetRows(); s.g.cols = p->GetCols(); s.g.xll = p->GetXllCenter(); s.g.yll = p->GetYllCenter(); s.g.dx = p->GetCellWidth();
    s.g.lyrs = p->GetLayers(); s.g.nodata = p->GetNoDataValue(); s.g.srs = p->GetSrsString();
    s.g.v.assign(s.g.lyrs, vector<T>(s.g.n()));
    for (int l = 0; l < s.g.lyrs; l++) for (int i = 0; i < s.g.n(); i++) s.g.v[l][i] = p->GetValue(i / s.g.cols, i % s.g.cols, l + 1);
    s.cells = p->GetCellNumber();
    s.defv = p->GetDefaultValue();
    if (p->PositionsCalculated()) { int n; int* d; int** d2; p->GetRasterPositionData(&n, &d); if (d) s.pos.assign(d, d + n); p->GetRasterPositionData(&n, &d2); for (int i = 0; d2 && i < n; i++) s.pos.push_back(d2[i][0] * s.g.cols + d2[i][1]); }
    s.sub = subsets<T>(p);
    for (auto& kv: p->GetOptions()) s.opt[kv.first] = kv.second;
    s.core = p->GetCoreName();
    s.calc = p->PositionsCalculated(); s.ext = p->MaskExtented(); s.is2d = p->Is2DRaster(); s.stats = p->StatisticsCalculated();
    s.ti = p->GetDataType(); s.to = p->GetOutDataType();
    return s;
}
template <class T, class R> void same_as(R* p, const Snap<T>& s, const string& sig, const string& what) {
    compare(p, s.g, sig, what);
    VF_CHECK(p->GetCellNumber() == s.cells, sig + ":cells", Str() << what << ": " << p->GetCellNumber() << " cells kept, expected " << s.cells);
    VF_CHECK(p->GetDefaultValue() == s.defv, sig + ":default", Str() << what << ": default value is " << p->GetDefaultValue() << ", expected " << s.defv);
    VF_CHECK(p->PositionsCalculated() == s.calc && p->Is2DRaster() == s.is2d && p->MaskExtented() == s.ext, sig + ":flags", what + ": storage mode differs");
    VF_CHECK(p->GetDataType() == s.ti && p->GetOutDataType() == s.to, sig + ":types", what + ": data types differ");
    VF_CHECK(p->GetCoreName() == s.core, sig + ":name", what + ": core name is " + p->GetCoreName() + ", expected " + s.core);
    map<string, string> o;
    for (auto& kv: p->GetOptions()) o[kv.first] = kv.second;
    VF_CHECK(o == s.opt, sig + ":options", what + ": options differ");
    for (auto& kv: o) VF_CHECK(p->GetOption(kv.first.c_str()) == kv.second, sig + ":options", what + ": option " + kv.first);
    if (s.calc) {
        int n; int* d; int** d2;
        vector<int> pos;
        p->GetRasterPositionData(&n, &d);
        if (d) pos.assign(d, d + n);
        p->GetRasterPositionData(&n, &d2);
        for (int i = 0; d2 && i < n; i++) pos.push_back(d2[i][0] * s.g.cols + d2[i][1]);
        VF_CHECK(pos == s.pos, sig + ":positions", what + ": positions differ");
    }
    string why;
    VF_CHECK(eq<T>(subsets<T>(p), s.sub, why), sig + ":subsets", what + ": " + why);
}
template <class T> bool prepare(Rng& r, Built<T>& b) { // subsets, statistics, options
    if (r.chance(.4)) {
        bool ints = true;
        for (auto x: b.g.v[0]) if (std::fabs((double) x) > 1e9) ints = false;
        if (ints && b.g.nvalid() > 0 && b->BuildSubSet()) {
            b.compacted();
            for (auto& kv: b->GetSubset()) if (r.chance(.5)) {
                int n = kv.second->n_cells;
                if (r.chance(.6)) { T* d = new T[n]; for (int i = 0; i < n; i++) d[i] = (T) r.below(50); kv.second->SetData(n, (T*) d); delete[] d; }
                else if (r.chance(.5)) {
                    int l = (int) r.range(2, 4);
                    double** d = nullptr;
                    ccgl::utils_array::Initialize2DArray(n, l, d, 0.);
                    for (int i = 0; i < n; i++) for (int q = 0; q < l; q++) d[i][q] = (double) r.below(50);
                    kv.second->Set2DData(n, l, d);
                    ccgl::utils_array::Release2DArray(d);
                }
            }
            for (auto& kv: b->GetSubset()) if (r.chance(.2)) kv.second->usable = false;
        }
    }
    if (r.chance(.4)) b->CalculateStatistics();
    if (r.chance(.3)) b->SetDefaultValue((double) r.range(-3, 5));
    if (r.chance(.3)) b->SetOutDataType(dr::RDT_Float);
    if (r.chance(.2)) b->SetCoreName("renamed");
    return true;
}
template <class T> void mutate(Rng& r, typename Lib<T>::R* p, string& log) {
    int k = (int) r.range(1, 4);
    for (int q = 0; q < k; q++)
        switch (r.below(9)) {
            case 0: case 1: for (int z = 0; z < 10; z++) p->SetValue((int) r.below(p->GetRows()), (int) r.below(p->GetCols()), gen_value<T>(r, 0), (int) r.range(1, p->GetLayers())); log += "cells set; "; break;
            case 2: p->ReplaceNoData(gen_nodata<T>(r)); log += "no-data replaced; "; break;
            case 3: { map<int, T> rc; rc[1] = 3; rc[2] = 1; p->Reclassify(rc); log += "reclassified; "; break; }
            case 4: p->SetCalcPositions(); log += "positions; "; break;
            case 5: p->ReleaseSubset(); log += "subsets released; "; break;
            case 6: { for (auto& kv: p->GetSubset()) { kv.second->n_cells = kv.second->n_cells; if (kv.second->data_) kv.second->data_[0] += 1; if (kv.second->local_pos_) kv.second->local_pos_[0][0] += 1; if (kv.second->global_) kv.second->global_[0] += 1; } log += "subsets changed; "; break; }
            case 7: p->UpdateStatistics(); p->ReleaseStatsMap2D(); log += "statistics; "; break;
            default: { Built<T> o; build(r, o); p->Copy(o.r.get()); log += "copied over; "; }
        }
}
template <class T> void copies(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T>::R R;
    Built<T> a, b;
    MkOpt o;
    o.gen.mode = r.chance(.6) ? 0 : -1;
    build(r, a, o);
    prepare(r, a);
    bool onto = r.chance(.6);
    std::unique_ptr<R> d;
    string how;
    if (onto) {
        switch (r.below(4)) {
            case 0: d.reset(new R()); how = "onto an empty raster"; break;
            case 1: d.reset(new R(true)); how = "onto an empty 2D raster"; break;
            default: build(r, b, o); prepare(r, b); d.reset(b.r.release()); how = "onto " + b.str();
        }
        vf::desc("copied " + how + " from " + a.str());
        Snap<T> was = snap<T>(a.r.get());
        d->Copy(a.r.get());
        same_as<T>(a.r.get(), was, "source", "source after copying " + how);
    } else {
        vf::desc("copy constructed from " + a.str());
        d.reset(new R(a.r.get()));
        how = "by construction";
    }
    if (r.chance(.1)) { d->Copy(d.get()); how += " and onto itself"; }
    Snap<T> s = snap<T>(a.r.get());
    same_as<T>(d.get(), s, "copy", "copy " + how);
    if (a->StatisticsCalculated()) {
        VF_CHECK(d->StatisticsCalculated(), "copy:statistics", "statistics are not copied");
        for (const char* k: {"VALID_CELLNUMBER", "MEAN", "MAX", "MIN", "STD", "RANGE"}) for (int l = 1; l <= a.g.lyrs; l++) { double x = a->GetStatistics(k, l), y = d->GetStatistics(k, l); VF_CHECK(x == y || (std::isnan(x) && std::isnan(y)), "copy:statistics", Str() << k << " of the copy is " << y << ", of the source " << x); }
    }
    // whatever happens to one leaves the other alone
    string log;
    int rounds = (int) r.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        bool src = r.chance(.5);
        R *x = src ? a.r.get() : d.get(), *y = src ? d.get() : a.r.get();
        Snap<T> keep = snap<T>(y);
        log = src ? "source: " : "copy: ";
        vf::desc("changing the " + log + how + " of " + a.str());
        mutate<T>(r, x, log);
        same_as<T>(y, keep, "independent", string(src ? "copy" : "source") + " after " + log);
    }
    bool src = r.chance(.5);
    Snap<T> keep = snap<T>(src ? d.get() : a.r.get());
    vf::desc(string("destroying the ") + (src ? "source " : "copy ") + how + " of " + a.str());
    if (src) a.r.reset(); else d.reset();
    same_as<T>(src ? d.get() : a.r.get(), keep, "destroyed", string(src ? "copy after its source" : "source after its copy") + " was destroyed");
    vf::tally(onto ? "copies onto another raster" : "copy constructions");
    vf::distinct(vf::hash_str(how, a.g.hash()));
}
template <class T> void empty(vf::Case& c) { // an unsuccessful or empty raster is copied as such
    auto& r = c.r;
    typedef typename Lib<T>::R R;
    Built<T> b;
    build(r, b);
    prepare(r, b);
    vf::desc("empty copied onto " + b.str());
    std::unique_ptr<R> e(r.chance(.5) ? new R(r.chance(.5)) : new R(vf::scratch() + "/none.tif"));
    b->Copy(e.get());
    VF_CHECK(!b->ValidateRasterData() && b->GetCellNumber() < 1, "empty", "copy of an empty raster claims to hold data");
    VF_CHECK(same<T>(b->GetValue(0, 0), b->GetNoDataValue()) && b->GetSubset().empty(), "empty", "copy of an empty raster has values");
    b->Copy(nullptr);
    Built<T> n;
    build(r, n);
    b->Copy(n.r.get());
    compare(b.r.get(), n.g, "again", "copy after an empty one");
    vf::distinct(n.g.hash());
}
M_KIND(copies, 5)
M_KIND(empty, 1)
#endif
