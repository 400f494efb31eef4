// C14: results do not depend on threads, and no data race
#include "subs.hpp"
#include <atomic>
#include <thread>
#ifdef VF_SHIM
void shim_seed(unsigned long long s);
unsigned long long shim_regions();
#else
#include <omp.h>
inline void shim_seed(unsigned long long) {}
inline unsigned long long shim_regions() { return 0; }
#endif
using namespace m;
#ifndef VT
const char* vf_rule = "The same sequences of operations (construction from arrays, files and mask positions, reading under masks, layers of other extents, no-data replaced, values reclassified, valid positions, statistics, subsets, copies, writing as other cell types, array initialisation, sums and statistics of arrays) run with one thread and with 2-8 threads; everything observable, files byte by byte, is compared. One part runs under ThreadSanitizer over an OpenMP runtime it can see through, with random delays, where rasters are also read by several threads at once and threads work on rasters of their own; the other runs the real runtime on larger rasters. Distinct (sequence, threads) are counted.";
void vf_init() { init(); }
#else
struct Log {
    vector<string> label;
    vector<uint64_t> exact;
    vector<double> num, scale;
    void bytes(const string& l, const void* p, size_t n) { label.push_back(l); exact.push_back(vf::hash_bytes(p, n)); num.push_back(0); scale.push_back(0); }
    void put(const string& l, uint64_t v) { label.push_back(l); exact.push_back(v); num.push_back(0); scale.push_back(0); }
    void real(const string& l, double v, double s) { label.push_back(l); exact.push_back(std::isnan(v) ? 1 : std::isinf(v) ? v > 0 ? 2 : 3 : 0); num.push_back(std::isfinite(v) ? v : 0); scale.push_back(s); }
};
template <class T> void put(Log& o, const string& l, const vector<T>& v) { o.bytes(l, v.data(), v.size() * sizeof(T)); }
template <class T, class R> void look(Log& o, const string& l, R* p) {
    if (!p) { o.put(l + ": no raster", 0); return; }
    o.put(l + ": valid", p->ValidateRasterData());
    if (!p->ValidateRasterData()) return;
    int rows = p->GetRows(), cols = p->GetCols(), lyrs = p->GetLayers();
    o.put(l + ": size", (uint64_t) rows * 100000 + cols * 100 + lyrs);
    o.put(l + ": cells", p->GetCellNumber());
    double d[4] = {p->GetXllCenter(), p->GetYllCenter(), p->GetCellWidth(), p->GetDefaultValue()};
    o.bytes(l + ": header", d, sizeof d);
    T nd = p->GetNoDataValue();
    o.bytes(l + ": no-data", &nd, sizeof nd);
    o.put(l + ": flags", p->PositionsCalculated() + p->Is2DRaster() * 2 + p->MaskExtented() * 4 + p->StatisticsCalculated() * 8);
    vector<T> v;
    for (int k = 0; k < lyrs; k++) for (int i = 0; i < rows * cols; i++) v.push_back(p->GetValue(i / cols, i % cols, k + 1));
    put(o, l + ": values", v);
    if (p->PositionsCalculated()) {
        int n = 0, *q = nullptr;
        p->GetRasterPositionData(&n, &q);
        if (q) o.bytes(l + ": positions", q, n * sizeof(int));
    }
    for (auto& kv: p->GetSubset()) {
        auto* s = kv.second;
        int w[7] = {kv.first, s->n_cells, s->n_lyrs, s->g_srow, s->g_erow, s->g_scol, s->g_ecol};
        o.bytes(l + ": subset", w, sizeof w);
        if (s->global_) o.bytes(l + ": subset cells", s->global_, s->n_cells * sizeof(int));
        if (s->local_posidx_) o.bytes(l + ": subset positions", s->local_posidx_, s->n_cells * sizeof(int));
        if (s->data_) o.bytes(l + ": subset data", s->data_, s->n_cells * sizeof(*s->data_));
    }
}
inline void files(Log& o, const string& l, const string& dir, const string& tag) {
    for (auto& f: listing(dir)) if (f.find(tag) != string::npos) { string b; vf::read_file(dir + "/" + f, b); o.put(l + ": file " + f, vf::hash_str(b)); }
}
template <class T, class R> void stats(Log& o, R* p) {
    for (int l = 1; l <= p->GetLayers(); l++) {
        double mx = p->GetStatistics("MAX", l), mn = p->GetStatistics("MIN", l), s = std::max(std::fabs(mx), std::fabs(mn));
        for (const char* k: {"VALID_CELLNUMBER", "MEAN", "MAX", "MIN", "STD", "RANGE"}) o.real(string("statistic ") + k, p->GetStatistics(k, l), s);
    }
    vf::tally("statistics of rasters");
}
// One sequence of operations; what it does depends on r only.
template <class T, class M> void story(Rng r, Log& o, int big) {
    typedef Lib<T, M> L;
    typedef typename L::R R;
    typedef std::numeric_limits<T> LT;
    string dir = vf::scratch();
    Built<T, M> b;
    MkOpt mo;
    mo.gen.big = big;
    if (LT::is_integer && sizeof(T) < 8) mo.gen.mode = r.chance(.5) ? 0 : -1;
    else mo.gen.mode = (int) r.below(2);
    build(r, b, mo);
    look<T>(o, "built " + b.how, b.r.get());
    Grid<T> g0 = b.g;
    int steps = (int) r.range(2, 5);
    for (int s = 0; s < steps; s++) {
        string tag = "t" + std::to_string(s) + "_";
        R* p = b.r.get();
        switch (r.below(11)) {
            case 0: p->ReplaceNoData(gen_nodata<T>(r)); look<T>(o, "no-data replaced", p); break;
            case 1: { map<int, T> rc; int k = (int) r.range(1, 6); for (int i = 0; i < k; i++) rc[(int) r.range(LT::is_signed ? -6 : 0, 9)] = (T) r.below(20); p->Reclassify(rc); look<T>(o, "reclassified", p); break; }
            case 2: o.put("positions calculated", p->SetCalcPositions()); look<T>(o, "positions", p); break;
            case 3: if (p->ValidateRasterData()) { p->UpdateStatistics(); stats<T>(o, p); } break;
            case 4: {
                bool ok = true;
                for (int i = 0; i < g0.n() && ok; i++) if (!(std::fabs((double) p->GetValue(i / g0.cols, i % g0.cols)) < 1e9)) ok = false;
                if (!ok || p->PositionsCalculated() != b->PositionsCalculated()) break;
                o.put("subsets built", p->BuildSubSet());
                look<T>(o, "subsets", p);
                if (r.chance(.5)) { o.put("subsets written", p->OutputSubsetToFile(true, r.chance(.5), dir + "/" + tag + "z.tif")); files(o, "subsets", dir, tag); }
                break;
            }
            case 5: { R c(p); look<T>(o, "copy", &c); Built<T, M> other; MkOpt q; build(r, other, q); other->Copy(p); look<T>(o, "copied over", other.r.get()); break; }
            case 6: case 7: {
                if (r.chance(.6)) p->SetOutDataType(r.pickv({dr::RDT_UInt8, dr::RDT_Int16, dr::RDT_Int32, dr::RDT_Float, dr::RDT_Double}));
                string f = dir + "/" + tag + (r.chance(.3) ? "o.asc" : "o.tif");
                o.put("written", p->OutputToFile(f));
                files(o, "written", dir, tag);
                vf::tally("rasters written");
                break;
            }
            default: { // layers of other extents, under a mask
                GenOpt go;
                go.lyrs = 1;
                go.big = big;
                go.mode = 0;
                int n = (int) r.range(1, 3);
                Grid<T> a = gen_grid<T>(r, go);
                vector<string> in;
                for (int l = 0; l < n; l++) {
                    Grid<T> d = a;
                    if (l > 0) { (Geo&) d = r.chance(.5) ? (Geo) a : gen_near_safe(r, a, false); fill(r, d, go); }
                    in.push_back(dir + "/" + tag + "in" + std::to_string(l) + ".tif");
                    gdal_write(in.back(), d);
                }
                Grid<M> k = like<T, M>(r, r.chance(.4) ? (Geo) a : gen_near_safe(r, a, false), r.pickv({0., .2, .5}));
                std::unique_ptr<dr::clsRasterData<M>> mask;
                if (r.chance(.6)) { mask.reset(Lib<M, M>::make(k)); if (r.chance(.4)) mask->SetCalcPositions(); }
                bool calc = r.chance(.5), ext = r.chance(.5);
                double defv = n == 1 && r.chance(.4) ? 3 : -9999;
                std::unique_ptr<R> q(n == 1 ? R::Init(in[0], calc, mask.get(), ext, defv) : R::Init(in, calc, mask.get(), ext, defv));
                look<T>(o, mask ? "loaded under a mask" : "loaded", q.get());
                if (mask) look<M>(o, "mask", mask.get());
                if (q && r.chance(.5)) { o.put("extended", q->SetUseMaskExt()); look<T>(o, "extended", q.get()); }
                if (q && r.chance(.4)) { o.put("loaded written", q->OutputToFile(dir + "/" + tag + "l.tif")); files(o, "loaded written", dir, tag + "l"); }
                if (q && r.chance(.5)) stats<T>(o, q.get());
                vf::tally("rasters loaded");
            }
        }
    }
}
template <class T> void arrays(Rng r, Log& o, int big) {
    int n = (int) r.range(1, 40 + big * big), m = (int) r.range(1, 5);
    vector<T> v(n);
    double mx = 0;
    for (auto& x: v) { x = gen_value<T>(r, 0); mx = std::max(mx, std::fabs((double) x)); }
    T* a = nullptr; ccgl::utils_array::Initialize1DArray(n, a, (T) 3); o.bytes("1D by value", a, n * sizeof(T));
    T* b = nullptr; ccgl::utils_array::Initialize1DArray(n, b, v.data()); o.bytes("1D by array", b, n * sizeof(T));
    double* c = nullptr; ccgl::utils_array::Initialize1DArray(n, c, v.data()); o.bytes("1D converted", c, n * sizeof(double));
    T** d = nullptr; ccgl::utils_array::Initialize2DArray(n, m, d, (T) 2);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { o.exact.size(); if (d[i][j] != (T) 2) vf::fail("array", "2D array by value"); d[i][j] = (T) (v[i] + (T) j); }
    T** e = nullptr; ccgl::utils_array::Initialize2DArray(n, m, e, d); o.bytes("2D by array", e[0], (size_t) n * m * sizeof(T));
    vector<int> idx(n);
    for (int i = 0; i < n; i++) idx[i] = (int) r.below(n);
    int* ix = idx.data();
    vector<long long> w(v.begin(), v.end());
    o.put("sum", (uint64_t) ccgl::utils_math::Sum(n, w.data()));
    o.put("sum by index", (uint64_t) ccgl::utils_math::Sum(n, ix, w.data()));
    double* st = nullptr; ccgl::utils_math::BasicStatistics(v.data(), n, &st, (T) 5);
    for (int k = 0; k < 6; k++) o.real("statistics of an array", st[k], mx);
    double** st2 = nullptr; ccgl::utils_math::BasicStatistics(d, n, m, &st2, (T) 5);
    for (int k = 0; k < 6; k++) for (int j = 0; j < m; j++) o.real("statistics of columns", st2[k][j], mx + m);
    ccgl::utils_array::Release1DArray(a); ccgl::utils_array::Release1DArray(b); ccgl::utils_array::Release1DArray(c);
    ccgl::utils_array::Release2DArray(d); ccgl::utils_array::Release2DArray(e);
    ccgl::utils_array::Release1DArray(st);
    for (int k = 0; k < 6; k++) delete[] st2[k];
    delete[] st2;
}
inline void compare_logs(const Log& a, const Log& b, const string& what) {
    size_t n = std::min(a.label.size(), b.label.size());
    for (size_t i = 0; i < n; i++) {
        VF_CHECK(a.label[i] == b.label[i], "threads:course", what + ": " + b.label[i] + " instead of " + a.label[i]);
        VF_CHECK(a.exact[i] == b.exact[i] && std::fabs(a.num[i] - b.num[i]) <= 1e-9 * (std::fabs(a.num[i]) + a.scale[i]), "threads:" + a.label[i].substr(0, a.label[i].find(" t")), Str() << what << ": " << a.label[i] << " differs from the run with one thread" << (a.num[i] != b.num[i] ? (string) (Str() << " (" << b.num[i] << ", " << a.num[i] << ")") : string()));
    }
    VF_CHECK(a.label.size() == b.label.size(), "threads:course", what + ": another number of results");
    vf::tally("results compared", n);
}
#ifdef VF_SHIM
static const int kBig = 0;
#else
static const int kBig = 150;
#endif
template <class T, class M> void same_result(vf::Case& c) {
    auto& r = c.r;
    uint64_t seed = r.next();
    int times = vf::thorough() ? 3 : 2;
    bool arr = r.chance(.25);
    Log one;
    shim_seed(r.next());
    auto run = [&](int k, Log& o) { ccgl::SetOpenMPThread(k); if (arr) arrays<T>(Rng(seed), o, kBig); else story<T, M>(Rng(seed), o, kBig); };
    vf::desc(Str() << (arr ? "arrays" : "story") << " with one thread");
    run(1, one);
    for (int i = 0; i < times; i++) {
        int k = (int) r.range(2, 8);
        string what = Str() << (arr ? "arrays" : "story") << " with " << k << " threads: " << one.label[0];
        vf::desc(what);
        vf::rm_tree(vf::scratch());
        mkdir(vf::scratch().c_str(), 0755);
        Log o;
        unsigned long long before = shim_regions();
        run(k, o);
        vf::tally("parallel regions under observation", shim_regions() - before);
        compare_logs(one, o, what);
        vf::tally(Str() << "runs with " << k << " threads");
        vf::distinct(vf::mix(seed, k));
    }
    ccgl::SetOpenMPThread(2);
}
// Reading a raster whose positions and statistics are known changes nothing: many threads may do so
template <class T, class M> void readers(vf::Case& c) {
    auto& r = c.r;
    Built<T, M> b;
    MkOpt o;
    o.gen.mode = (int) r.below(2);
    build(r, b, o);
    vf::desc("concurrent readers of " + b.str());
    auto* p = b.r.get();
    if (b->PositionsCalculated() || r.chance(.5)) { int n, *d; p->GetRasterPositionData(&n, &d); b.compacted(); }
    p->UpdateStatistics();
    int k = (int) r.range(2, 6);
    std::atomic<int> go(0), bad(0);
    vector<std::thread> th;
    uint64_t seed = r.next();
    bool pos = p->PositionsCalculated();
    double avg = p->GetAverage(1);
    const Grid<T>& g = b.g;
    for (int t = 0; t < k; t++)
        th.emplace_back([&, t] {
            Rng q(vf::mix(seed, t));
            go++;
            while (go < k) std::this_thread::yield();
            for (int i = 0; i < 60; i++) {
                int cell = (int) q.below(g.n()), l = (int) q.below(g.lyrs), row = cell / g.cols, col = cell % g.cols;
                T v = p->GetValue(row, col, l + 1);
                if (g.nd(l, cell) ? !ndeq((double) v, (double) g.nodata) : !same<T>(v, g.v[l][cell])) bad++;
                if (p->IsNoData(row, col, l + 1) != g.nd(l, cell)) bad++;
                if (pos) { int x = p->GetPosition(row, col); if (x >= 0 && !same<T>(p->GetValueByIndex(x, l + 1), v)) bad++; }
                XY_COOR xy = p->GetCoordinateByRowCol(row, col);
                ROW_COL rc = p->GetPositionByCoordinate(xy.first, xy.second);
                if (rc.first != row || rc.second != col) bad++;
                double a = p->GetAverage(1);
                if (!(a == avg || (std::isnan(a) && std::isnan(avg)))) bad++;
                if (p->GetRows() != g.rows || p->GetCellNumber() != b.cells() || p->GetSrsString().size() > 5000) bad++;
                double dd = 0; (void) dd;
                if (p->GetLayers() != g.lyrs || !(p->GetCellWidth() > 0)) bad++;
            }
        });
    for (auto& t: th) t.join();
    VF_CHECK(bad == 0, "readers", Str() << bad << " wrong answers to " << k << " concurrent readers");
    vf::tally("concurrent readers", k);
    vf::distinct(vf::mix(g.hash(), k));
}
// Rasters that share nothing may be used by different threads
template <class T, class M> void own(vf::Case& c) {
    auto& r = c.r;
    typedef Lib<T, M> L;
    typedef typename L::R R;
    int k = (int) r.range(2, 5);
    string dir = vf::scratch();
    vf::desc(Str() << k << " threads with rasters of their own");
    vector<Grid<T>> gs;
    for (int t = 0; t < k; t++) { GenOpt o; o.mode = (int) r.below(2); gs.push_back(gen_grid<T>(r, o)); gdal_write(dir + "/own" + std::to_string(t) + ".tif", gs[t]); }
    vector<string> err(k);
    vector<std::thread> th;
    std::atomic<int> go(0);
    uint64_t seed = r.next();
    for (int t = 0; t < k; t++)
        th.emplace_back([&, t] {
            Rng q(vf::mix(seed, t));
            go++;
            while (go < k) std::this_thread::yield();
            const Grid<T>& g = gs[t];
            string f = dir + "/own" + std::to_string(t) + ".tif", o = dir + "/out" + std::to_string(t) + (sizeof(T) < 8 && q.chance(.3) ? ".asc" : ".tif");
            bool calc = q.chance(.5);
            std::unique_ptr<R> p(q.chance(.5) ? R::Init(f, calc) : L::make(g));
            if (!p) { err[t] = "not read"; return; }
            for (int i = 0; i < g.n(); i++) if (!g.nd(0, i) && !same<T>(p->GetValue(i / g.cols, i % g.cols), g.v[0][i])) err[t] = "wrong value";
            p->CalculateStatistics();
            if (p->GetValidNumber(1) != g.nvalid()) err[t] = "wrong number of valid cells";
            R c2(p.get());
            c2.ReplaceNoData((T) 77);
            if (!p->OutputToFile(o)) err[t] = "not written";
            std::unique_ptr<R> back(R::Init(o, false));
            if (!back || back->GetRows() != g.rows || back->GetCols() != g.cols) err[t] = "not read back";
        });
    for (auto& t: th) t.join();
    for (int t = 0; t < k; t++) VF_CHECK(err[t].empty(), "own:" + err[t], err[t] + " in one of several threads: " + gs[t].str());
    vf::tally("threads with rasters of their own", k);
    vf::distinct(seed);
}
static vf::Reg reg_s("same_result<" M_STR(VT) "," M_STR(VM) ">", 5, &same_result<VT, VM>);
static vf::Reg reg_r("readers<" M_STR(VT) "," M_STR(VM) ">", 1, &readers<VT, VM>);
static vf::Reg reg_o("own<" M_STR(VT) "," M_STR(VM) ">", 1, &own<VT, VM>);
#endif
