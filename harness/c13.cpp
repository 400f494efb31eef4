// C13: sequences of raster operations under memory instrumentation
#include "subs.hpp"
#include <omp.h>
#ifdef VF_MEMCHECK
#include <valgrind/memcheck.h>
#endif
using namespace m;
#ifndef VT
const char* vf_rule = "Random sequences of 4-40 operations on up to six rasters, three masks and their subsets (12 pairs of cell and mask type) are run under AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions, with the bytes still allocated compared after each sequence, and fewer under Valgrind memcheck to see uninitialised reads: construction in all ways, loading valid, truncated, foreign and missing files with and without masks, copying onto anything, editing and querying inside and outside the grid, statistics, decomposition, handing data to subsets, writing in every way, and destruction in any order; every pointer a raster hands out is read to its end; distinct operation sequences are counted.";
void vf_init() { init(); }
#else
#ifndef VM
#define VM VT
#endif
static volatile uint64_t sink;
template <class X> inline void eat(const X& x) { // branches on the value so that memcheck sees undefined ones
    const unsigned char* p = (const unsigned char*) &x;
    for (size_t i = 0; i < sizeof(X); i++) if (p[i] == 0x5a) sink++;
}
template <class R> struct Val; // value type of a raster
template <class T, class M> struct Val<dr::clsRasterData<T, M>> { typedef T type; };
template <class R> void touch(R* p) { // reads everything a raster hands out
    typedef typename Val<R>::type T;
    int n = 0, l = 0, *pi = nullptr, **pd = nullptr;
    T *d = nullptr, **d2 = nullptr;
    eat(p->Initialized()); eat(p->Is2DRaster()); eat(p->PositionsAllocated()); eat(p->MaskExtented()); eat(p->StatisticsCalculated());
    eat(p->GetNoDataValue()); eat(p->GetDefaultValue()); eat(p->GetLayers()); eat(p->GetRows()); eat(p->GetCols()); eat(p->GetCellNumber()); eat(p->GetDataLength()); eat(p->GetXllCenter()); eat(p->GetYllCenter()); eat(p->GetCellWidth());
    eat(p->GetDataType()); eat(p->GetOutDataType());
    for (auto& kv: p->GetOptions()) { if (kv.first.size() + kv.second.size() == 12345) sink++; }
    for (auto& kv: p->GetRasterHeader()) eat(kv.second);
    for (auto& kv: p->GetStatistics()) eat(kv.second);
    if (p->GetSrsString() == "x" || string(p->GetSrs()) == "y" || p->GetFilePath() == "z" || p->GetFullFileName() == "w" || p->GetCoreName() == "v") sink++;
    if (p->GetRasterData(&n, &d) && d) for (int i = 0; i < n; i++) eat(d[i]);
    if (p->Get2DRasterData(&n, &l, &d2) && d2) for (int i = 0; i < n; i++) for (int k = 0; k < l; k++) eat(d2[i][k]);
    if (p->PositionsCalculated() && p->ValidateRasterData()) {
        p->GetRasterPositionData(&n, &pi);
        for (int i = 0; pi && i < n; i++) eat(pi[i]);
        p->GetRasterPositionData(&n, &pd);
        for (int i = 0; pd && i < n; i++) { eat(pd[i][0]); eat(pd[i][1]); }
    }
    if (p->StatisticsCalculated()) for (auto& kv: p->GetStatistics2D()) for (int i = 0; kv.second && i < p->GetLayers(); i++) eat(kv.second[i]);
    for (auto& kv: p->GetSubset()) {
        auto* s = kv.second;
        for (int i = 0; i < s->n_cells; i++) {
            if (s->global_) eat(s->global_[i]);
            if (s->local_pos_) { eat(s->local_pos_[i][0]); eat(s->local_pos_[i][1]); }
            if (s->local_posidx_) eat(s->local_posidx_[i]);
            if (s->data_) eat(s->data_[i]);
            for (int k = 0; s->data2d_ && k < s->n_lyrs; k++) eat(s->data2d_[i][k]);
        }
    }
    for (int row = 0; row < p->GetRows() && row < 100; row++) for (int col = 0; col < p->GetCols() && col < 100; col++) for (int k = 1; k <= p->GetLayers(); k++) eat(p->GetValue(row, col, k));
    for (int i = 0; i < p->GetCellNumber() && i < 5000; i++) for (int k = 1; k <= p->GetLayers(); k++) eat(p->GetValueByIndex(i, k));
}
inline int weird(Rng& r, int n) { return r.chance(.7) ? (int) r.below(std::max(n, 1)) : r.pickv({-1, n, n + 1, -2, 0, 2147483647, -2147483647 - 1, n - 1}); }
// operations any raster supports, whatever it holds
template <class R> void common(Rng& r, R* p, string& log, const string& dir, bool shape) {
    typedef typename Val<R>::type T;
    int rows = p->GetRows(), cols = p->GetCols(), lyrs = p->GetLayers(), n = p->GetCellNumber();
    switch (r.below(22)) {
        case 0: log += "set;"; for (int k = 0; k < 4; k++) p->SetValue(weird(r, rows), weird(r, cols), r.chance(.2) ? p->GetNoDataValue() : gen_value<T>(r, (int) r.below(3)), r.chance(.7) ? 1 : weird(r, lyrs + 1)); break;
        case 1: log += "get;"; for (int k = 0; k < 6; k++) { eat(p->GetValue(weird(r, rows), weird(r, cols), weird(r, lyrs + 1))); eat(p->GetValueByIndex(weird(r, n), weird(r, lyrs + 1))); eat(p->IsNoData(weird(r, rows), weird(r, cols), weird(r, lyrs + 1))); } break;
        case 2: {
            log += "layers;";
            T* v = nullptr;
            for (int k = 0; k < 4; k++) {
                if (r.chance(.5)) p->GetValue(weird(r, rows), weird(r, cols), v); else p->GetValueByIndex(weird(r, n), v);
                if (v) for (int l = 0; l < lyrs; l++) eat(v[l]);
                if (r.chance(.3) && v) { ccgl::utils_array::Release1DArray(v); v = nullptr; }
            }
            if (v) ccgl::utils_array::Release1DArray(v);
            break;
        }
        case 3: {
            log += "address;";
            double w = p->GetCellWidth(), x = p->GetXllCenter() + (r.unit() * (cols + 2) - 1.5) * w, y = p->GetYllCenter() + (r.unit() * (rows + 2) - 1.5) * w;
            if (r.chance(.2)) x = r.pickv({1e300, -1e300, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -9999., 0.});
            if (r.chance(.2)) y = r.pickv({1e300, -1e300, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -9999., 0.});
            eat(p->GetPosition(x, y)); eat(p->GetPosition((float) x, (float) y)); eat(p->GetPosition(weird(r, rows), weird(r, cols)));
            auto rc = p->GetPositionByCoordinate(x, y);
            eat(rc.first);
            auto xy = p->GetCoordinateByRowCol(weird(r, rows), weird(r, cols));
            eat(xy.first);
            break;
        }
        case 4: case 5: {
            log += "stats;";
            string k = r.pick({"mean", "MIN", "max", "std", "range", "valid_cellnumber", "nothing", ""});
            eat(p->GetStatistics(k, weird(r, lyrs + 1)));
            eat(p->GetAverage()); eat(p->GetRange(weird(r, lyrs + 1))); eat(p->GetValidNumber());
            double* v = nullptr;
            int q = 0;
            if (p->Is2DRaster()) { p->GetStatistics(k, &q, &v); if (v) for (int i = 0; i < q; i++) eat(v[i]); p->GetStd(&q, &v); if (v) for (int i = 0; i < q; i++) eat(v[i]); }
            break;
        }
        case 6: log += "recalc;"; if (r.chance(.5)) p->CalculateStatistics(); else p->UpdateStatistics(); break;
        case 7: log += "relstats;"; p->ReleaseStatsMap2D(); break;
        case 8: log += "options;"; p->SetOutDataType(r.pickv({dr::RDT_Float, dr::RDT_UInt8, dr::RDT_Int16, dr::RDT_Double, dr::RDT_Unknown, dr::RDT_Int64})); if (r.chance(.3)) p->SetOutDataType(string(r.pick({"FLOAT", "nonsense", "INT32"}))); p->SetCoreName("c" + std::to_string(r.below(5))); p->SetDefaultValue((double) r.range(-9, 9)); eat(p->GetOption("SRS").size()); eat(p->GetOption("none").size()); break;
        case 9: log += "nodata;"; p->ReplaceNoData(gen_nodata<T>(r)); break;
        case 10: { log += "reclass;"; std::map<int, T> rc; for (int k = 0; k < 5; k++) rc[(int) r.range(-5, 9)] = gen_value<T>(r, 0); p->Reclassify(rc); break; }
        case 11: case 12: log += "split;"; { std::map<int, int> g; if (r.chance(.5)) for (int k = 0; k < 4; k++) g[(int) r.range(-5, 9)] = (int) r.range(0, 2); if (r.chance(.7)) p->BuildSubSet(g); else p->RebuildSubSet(g); } break;
        case 13: log += "unsplit;"; p->ReleaseSubset(); break;
        case 14: case 15: {
            log += "hand;";
            int k = 0;
            for (auto& kv: p->GetSubset()) {
                auto* s = kv.second;
                if (++k > 12 || r.chance(.2)) continue;
                int len = s->n_cells + (r.chance(.1) ? (int) r.range(-1, 1) : 0), ly = (int) r.range(1, 3);
                if (r.chance(.5)) { vector<float> v(std::max(len, 1), 1.5f); s->SetData(len, r.chance(.95) ? v.data() : (float*) nullptr); }
                else if (len > 0) { T** q = nullptr; ccgl::utils_array::Initialize2DArray(len, ly, q, (T) 3); s->Set2DData(len, r.chance(.95) ? ly : 0, q); ccgl::utils_array::Release2DArray(q); }
                if (r.chance(.2)) s->usable = r.chance(.5);
                if (r.chance(.4)) { vector<T*> full; s->Output(p->GetNoDataValue(), full); int bn = (s->g_erow - s->g_srow + 1) * (s->g_ecol - s->g_scol + 1); for (auto* f: full) { for (int i = 0; i < bn; i++) eat(f[i]); delete[] f; } }
                if (r.chance(.2)) { dr::SubsetPositions* c = new dr::SubsetPositions(s, r.chance(.5)); if (c->global_) eat(c->global_[0]); delete c; }
            }
            break;
        }
        case 16: case 17: {
            log += "write;";
            string f = dir + r.pick({"o.tif", "o.asc", "o.img", "none/x/y/o.tif", "o", ".tif", "d.tif"});
            if (r.chance(.1)) f = r.pick({"", "o.tif"}); // relative: the working directory may not be written
            if (r.chance(.8)) p->OutputToFile(f, r.chance(.8)); else if (r.chance(.5)) p->OutputAscFile(dir + "q.asc"); else p->OutputFileByGdal(dir + "q.tif");
            break;
        }
        case 18: case 19: {
            log += "writesub;";
            std::map<ccgl::vint, vector<double>> t;
            if (r.chance(.5)) { int nv = (int) r.range(1, 4); for (int k = 0; k < 5; k++) t[r.range(-5, 9)] = vector<double>(r.chance(.9) ? nv : r.below(3), (double) r.range(-300, 300)); }
            p->OutputSubsetToFile(r.chance(.5), r.chance(.5), r.chance(.9) ? dir + r.pick({"s.tif", "s.asc"}) : "", t, r.chance(.5) ? -9999 : (double) r.range(-9, 9));
            break;
        }
        case 20: if (shape) { log += "positions;"; p->SetCalcPositions(); } break;
        default:
            if (shape) { log += "compact;"; int k; int* d; int** d2; if (r.chance(.5)) { p->GetRasterPositionData(&k, &d); for (int i = 0; d && i < k; i++) eat(d[i]); } else { p->GetRasterPositionData(&k, &d2); for (int i = 0; d2 && i < k; i++) eat(d2[i][0]); } }
    }
}
template <class T, class M> struct World {
    typedef dr::clsRasterData<T, M> R;
    typedef dr::clsRasterData<M> MR;
    struct Obj { std::unique_ptr<R> p; std::set<int> masks; bool dead; };
    struct Mask { std::unique_ptr<MR> p; int id; };
    vector<Obj> rs;
    vector<Mask> ms;
    int nextmask;
    vector<string> files;
    World(): nextmask(0) {}
    bool inuse(int id) { for (auto& o: rs) if (o.masks.count(id)) return true; return false; }
};
template <class T> Grid<T> small_grid(Rng& r) {
    GenOpt o;
    o.lyrs = r.chance(.6) ? 1 : (int) r.range(2, 3);
    Grid<T> g;
    (Geo&) g = gen_geo(r);
    g.rows = std::min(g.rows, 12); g.cols = std::min(g.cols, 12);
    g.lyrs = o.lyrs;
    g.nodata = gen_nodata<T>(r);
    o.mode = r.chance(.7) ? 0 : -1;
    fill(r, g, o);
    if (r.chance(.05)) for (auto& l: g.v) for (auto& x: l) x = g.nodata; // nothing valid
    if (r.chance(.2)) g.srs = gen_srs(r);
    return g;
}
template <class T, class M> void sequence(vf::Case& c) {
    auto& r = c.r;
    typedef World<T, M> W;
    typedef typename W::R R;
    typedef typename W::MR MR;
    string dir = vf::scratch() + "/", log;
    omp_set_num_threads((int) r.range(1, 4));
    {
        W w;
        // sources
        vector<Geo> geos;
        for (int k = 0; k < 4; k++) {
            Grid<T> g = small_grid<T>(r);
            if (!geos.empty() && r.chance(.7)) { Geo n = r.chance(.6) ? geos[0] : gen_near(r, geos[0]); (Geo&) g = n; g.rows = std::min(g.rows, 12); g.cols = std::min(g.cols, 12); GenOpt o; o.mode = 0; fill(r, g, o); }
            geos.push_back(g);
            string f = dir + "f" + std::to_string(k) + (k == 3 ? ".asc" : ".tif");
            if (k == 3) vf::write_file(f, asc_text(g)); else if (k == 2 && r.chance(.5)) { Grid<float> h; (Geo&) h = g; h.lyrs = 1; h.nodata = -9999; GenOpt o; o.mode = 1; fill(r, h, o); gdal_write(f, h); } else gdal_write(f, g);
            w.files.push_back(f);
        }
        string junk = dir + r.pick({"junk.tif", "junk.asc"}), text;
        if (r.chance(.5)) { vf::read_file(w.files[r.below(4)], text); text.resize(r.below(text.size() + 1)); } else { text = "NCOLS 3\nNROWS 2\nXLLCENTER 0\nYLLCENTER 0\nCELLSIZE 1\nNODATA_VALUE -9\n1 2 3 4 5"; }
        vf::write_file(junk, text);
        w.files.push_back(junk);
        w.files.push_back(dir + "missing.tif");
        mkdir((dir + "d.tif").c_str(), 0777);
        w.files.push_back(dir + "d.tif");
        auto file = [&]() -> string { return r.chance(.85) ? w.files[r.below(4)] : r.pick(w.files); };
        auto mask = [&]() -> typename W::Mask* { return w.ms.empty() || r.chance(.4) ? nullptr : &w.ms[r.below(w.ms.size())]; };
        auto add = [&](R* p, std::set<int> ms) { if (!p) return; w.rs.push_back({std::unique_ptr<R>(p), ms, false}); };
        int steps = (int) r.range(4, vf::thorough() ? 80 : 40);
        uint64_t h = 0;
        for (int q = 0; q < steps; q++) {
            size_t l0 = log.size();
            if (log.size() > 900) log = "..." + log.substr(log.size() - 600);
            l0 = log.size();
            int op = (int) r.below(20);
            typename W::Obj* o = nullptr;
            if (!w.rs.empty()) { o = &w.rs[r.below(w.rs.size())]; if (o->dead) o = nullptr; }
            vf::desc("sequence " + log);
            if (w.rs.size() < 2 ? op < 12 : op < 3 && w.rs.size() < 6) { // construct
                auto* k = mask();
                int how = (int) r.below(10);
                std::set<int> uses;
                if (how < 2) { Grid<T> g = small_grid<T>(r); log += "array;"; add(Lib<T, M>::make(g, r.chance(.2)), uses); }
                else if (how == 2) { Grid<T> g = small_grid<T>(r); log += "array2;"; if (g.lyrs > 1) add(new R(Lib<T, M>::arr2(g), g.cols, g.rows, g.lyrs, g.nodata, g.dx, g.xll, g.yll, g.srs), uses); else add(new R(Lib<T, M>::arr(g), g.cols, g.rows, g.nodata, g.dx, g.xll, g.yll, g.srs), uses); }
                else if (how == 3) { log += "empty;"; add(new R(r.chance(.5)), uses); }
                else if (how < 7) {
                    bool calc = r.chance(.5), ext = r.chance(.5);
                    double def = r.chance(.7) ? -9999 : (double) r.range(0, 9);
                    if (k) uses.insert(k->id);
                    ccgl::STRING_MAP opt;
                    if (r.chance(.2)) opt["RASTER_OUT_DATATYPE"] = "FLOAT";
                    R* p = nullptr;
                    MR* kp = k ? k->p.get() : nullptr;
                    if (r.chance(.6)) { string f = file(); log += "file" + string(k ? "+mask;" : ";"); p = r.chance(.5) ? R::Init(f, calc, kp, ext, def, opt) : new R(f, calc, kp, ext, def, opt); }
                    else { vector<string> f; for (int z = (int) r.range(r.chance(.1) ? 0 : 1, 3); z > 0; z--) f.push_back(file()); log += "files" + string(k ? "+mask;" : ";"); p = r.chance(.5) ? R::Init(f, calc, kp, ext, def, opt) : new R(f, calc, kp, ext, def, opt); }
                    add(p, uses);
                } else if (how == 7 && o) { log += "copyctor;"; uses = o->masks; add(new R(o->p.get()), uses); }
                else if (k) {
                    uses.insert(k->id);
                    if (!k->p->PositionsCalculated()) k->p->SetCalcPositions();
                    int n = k->p->GetCellNumber(), ly = (int) r.range(1, 3);
                    if (n > 0 && n < 100000) {
                        if (r.chance(.1)) n += (int) r.range(-1, 1);
                        if (r.chance(.5)) { log += "onmask;"; vector<T> v(std::max(n, 1)); for (auto& x: v) x = gen_value<T>(r, 0); add(new R(k->p.get(), v.data(), n), uses); }
                        else if (n > 0) { log += "onmask2;"; T** v = nullptr; ccgl::utils_array::Initialize2DArray(n, ly, v, (T) 2); add(new R(k->p.get(), v, n, ly), uses); ccgl::utils_array::Release2DArray(v); }
                    }
                }
            } else if (op < 4 && w.ms.size() < 3) { // another mask
                log += "mask;";
                Grid<M> g = small_grid<M>(r);
                g.lyrs = 1; g.v.resize(1);
                Geo n = r.chance(.5) ? geos[r.below(geos.size())] : gen_near(r, geos[0]);
                (Geo&) g = n;
                g.rows = std::min(g.rows, 12); g.cols = std::min(g.cols, 12);
                GenOpt go; go.mode = 0;
                fill(r, g, go);
                std::unique_ptr<MR> p(Lib<M, M>::make(g));
                if (r.chance(.5)) p->SetCalcPositions();
                if (r.chance(.4)) p->BuildSubSet();
                w.ms.push_back({std::move(p), w.nextmask++});
            } else if (op == 4 && !w.ms.empty()) { // something is done to a mask
                auto& k = w.ms[r.below(w.ms.size())];
                if (r.chance(.25)) { // destroyed; rasters that use it may only be destroyed from here on
                    log += "delmask;";
                    for (auto& x: w.rs) if (x.masks.count(k.id)) x.dead = true;
                    w.ms.erase(w.ms.begin() + (&k - &w.ms[0]));
                } else { log += "mask:"; common(r, k.p.get(), log, dir, true); touch(k.p.get()); }
            } else if (op == 5 && !w.rs.empty()) {
                log += "delete;";
                w.rs.erase(w.rs.begin() + r.below(w.rs.size()));
            } else if (op == 6 && o) {
                auto& s = w.rs[r.below(w.rs.size())];
                if (!s.dead) { log += "copy;"; o->p->Copy(s.p.get()); o->masks = s.masks; touch(o->p.get()); touch(s.p.get()); }
            } else if (op == 7 && o) {
                auto* k = mask();
                MR* kp = k ? k->p.get() : nullptr;
                bool calc = r.chance(.5), ext = r.chance(.5);
                double def = r.chance(.7) ? -9999 : (double) r.range(0, 9);
                if (k) o->masks.insert(k->id); // the old ones may still be referred to if the read is refused early
                if (r.chance(.6)) { log += "reread;"; o->p->ReadFromFile(file(), calc, kp, ext, def); }
                else { log += "rereads;"; vector<string> f; for (int z = (int) r.range(1, 3); z > 0; z--) f.push_back(file()); o->p->ReadFromFiles(f, calc, kp, ext, def); }
            } else if (op == 8 && o) { log += "extend;"; eat(o->p->SetUseMaskExt()); }
            else if (o) common(r, o->p.get(), log, dir, true);
            if (o && q % 3 == 0) for (auto& x: w.rs) if (!x.dead && r.chance(.5)) { vf::desc("sequence " + log + " (touch)"); touch(x.p.get()); }
            h = vf::mix(h, vf::hash_str(log.substr(l0)));
        }
        vf::distinct(h);
        vf::tally("operations", steps);
        vf::tally("rasters alive at the end", w.rs.size());
        // destroyed in any order
        vf::desc("sequence " + log + " (destruction)");
        while (!w.rs.empty() || !w.ms.empty()) {
            if (!w.rs.empty() && (w.ms.empty() || r.chance(.6))) w.rs.erase(w.rs.begin() + r.below(w.rs.size()));
            else w.ms.erase(w.ms.begin() + r.below(w.ms.size()));
        }
    }
}
static vf::Reg reg_sequence("sequence<" M_STR(VT) "," M_STR(VM) ">", 1, &sequence<VT, VM>, true);
#endif
