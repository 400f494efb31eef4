// C10: zone remapping on output
#include "subs.hpp"
#include <omp.h>
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters decomposed by their own or their mask's zones (12 pairs of cell and mask type, with and without grouping, any storage mode, with and without data handed to the subsets, copied) are written with zone-to-value tables (all, some, none or more than the zones listed; one to four values; values that fall on no-data) and a default value, as separate files and merged, to GeoTIFF and ASCII grid; each file is parsed without the library and every cell compared with the table; tables of unequal lengths must be refused or written by the table; distinct (raster, table) pairs are counted.";
void vf_init() { init(); }
#else
#ifndef VM
#define VM VT
#endif
template <class T> double mapped(Rng& r, T nodata) { // a value of the table, representable in T
    for (;;) {
        T x = r.chance(.05) ? nodata : gen_value<T>(r, (int) r.below(2));
        if (r.chance(.1)) x = r.pickv({std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), (T) 0});
        if (std::numeric_limits<T>::is_integer && sizeof(T) == 8 && std::fabs((double) x) > 9007199254740992.) { if (x == nodata && ndeq((double) (T) (double) x, (double) nodata)) {} continue; }
        if (ndeq((double) x, -9999) || !std::isfinite((double) x)) continue;
        return (double) x;
    }
}
template <class T, class M> void remap(vf::Case& c) {
    auto& r = c.r;
    Decomposed<T, M> d;
    omp_set_num_threads((int) r.range(1, 4));
    if (!decompose(r, d) || d.bl.empty()) { vf::tally("nothing left under the mask"); return; }
    auto* p = d.p;
    std::unique_ptr<dr::clsRasterData<T, M>> copy;
    if (r.chance(.15)) { copy.reset(new dr::clsRasterData<T, M>(p)); p = copy.get(); d.how += "copied "; }
    const Grid<T>& g = d.g;
    if (r.chance(.3))
        for (auto& kv: p->GetSubset()) {
            vector<double> v(kv.second->n_cells);
            for (auto& x: v) x = (double) r.range(0, 9);
            kv.second->SetData((int) v.size(), v.data());
        }
    int rounds = (int) r.range(1, 3);
    for (int q = 0; q < rounds; q++) {
        int nv = r.chance(.5) ? 1 : (int) r.range(2, 4);
        std::map<int, vector<double>> table;
        int how = (int) r.below(4); // all, some, extra ones, few
        for (auto& kv: d.bl) if (how == 0 || how == 2 || r.chance(how == 1 ? .6 : .2)) for (int k = 0; k < nv; k++) table[kv.first].push_back(mapped<T>(r, g.nodata));
        if (how >= 2 || table.empty()) for (int z: {4712, -77}) if (table.empty() || r.chance(.5)) { table[z].clear(); for (int k = 0; k < nv; k++) table[z].push_back(mapped<T>(r, g.nodata)); }
        double def = r.chance(.15) ? (double) g.nodata : mapped<T>(r, g.nodata);
        if (ndeq(def, -9999)) def = 7;
        if (sizeof(T) == 8 && std::numeric_limits<T>::is_integer && std::fabs(def) > 9007199254740992.) def = 5;
        bool comb = r.chance(.5), asc = r.chance(.25) && sizeof(T) < 8;
        string out = vf::scratch() + "/out" + std::to_string(q);
        mkdir(out.c_str(), 0777);
        string path = out + (asc ? "/r.asc" : "/r.tif");
        Str ts;
        for (auto& kv: table) { ts << kv.first << ":"; for (double x: kv.second) ts << x << ","; ts << " "; }
        string ttext = Str() << (comb ? "merged" : "separate") << " table {" << (string) ts << "} default " << def << " for zones " << d.how;
        vf::desc(ttext + g.str());
        ccgl::data_raster::clsRasterData<T, M>* w = p;
        std::map<ccgl::vint, vector<double>> recls(table.begin(), table.end());
        d.g.srs = asc ? "" : p->GetSrsString();
        VF_CHECK(w->OutputSubsetToFile(false, comb, path, recls, def), "refused", "writing with a table failed: " + ttext);
        auto want = [&](int zone, int, int l) -> T { auto it = table.find(zone); return (T) (it == table.end() ? def : it->second[l]); };
        compare_subset_files(path, g, d.bl, nv, comb, want, comb ? "merged" : "separate", "remapped");
        vf::distinct(vf::mix(g.hash(), vf::hash_str(ttext)));
        vf::tally(nv > 1 ? "tables of several values" : "tables of one value");
    }
    d.g.srs = p->GetSrsString();
    agree(p, g, "after", "raster after writing with tables");
}
// by the original value when the raster itself is written
template <class T, class M> void original(vf::Case& c) {
    auto& r = c.r;
    Decomposed<T, M> d;
    decompose_own(r, d, 1);
    if (d.own.is2d) return;
    const Grid<T>& g = d.g;
    int nv = (int) r.range(1, 2);
    std::map<ccgl::vint, vector<double>> table;
    Zones z = zones_of(g, std::map<int, int>());
    for (auto& kv: z) if (r.chance(.7)) for (int k = 0; k < nv; k++) table[kv.first].push_back(mapped<T>(r, g.nodata));
    if (table.empty()) for (int k = 0; k < nv; k++) table[4713].push_back(1);
    double def = mapped<T>(r, g.nodata);
    bool comb = r.chance(.5);
    string out = vf::scratch() + "/out";
    mkdir(out.c_str(), 0777);
    vf::desc("original " + d.how + g.str());
    d.g.srs = d.p->GetSrsString();
    VF_CHECK(d.p->OutputSubsetToFile(true, comb, out + "/r.tif", table, def), "original:refused", "writing with a table by original values failed");
    auto want = [&](int, int cell, int l) -> T { auto it = table.find((int) g.v[0][cell]); return (T) (it == table.end() ? def : it->second[l]); };
    compare_subset_files(out + "/r.tif", g, d.bl, nv, comb, want, "original", "remapped by original value");
    vf::distinct(vf::mix(g.hash(), 77));
}
template <class T, class M> void original_layers(vf::Case& c) {
    auto& r = c.r;
    Decomposed<T, M> d;
    decompose_own(r, d, (int) r.range(2, 4));
    Grid<T>& g = d.g;
    std::set<int> used;
    for (auto& kv: d.bl) for (int cell: kv.second.cell) for (int l = 0; l < g.lyrs; l++) {
        if (l) {
            T x;
            do x = (T) r.range(0, 12); while (ndeq((double) x, (double) g.nodata));
            d.p->SetValue(cell / g.cols, cell % g.cols, x, l + 1);
            g.v[l][cell] = x;
        }
        used.insert((int) g.v[l][cell]);
    }
    int nv = (int) r.range(1, g.lyrs);
    std::map<ccgl::vint, vector<double>> table;
    for (int z: used) if (r.chance(.7)) for (int k = 0; k < nv; k++) table[z].push_back(mapped<T>(r, g.nodata));
    if (table.empty()) for (int k = 0; k < nv; k++) table[4713].push_back(1);
    double def = mapped<T>(r, g.nodata);
    bool comb = r.chance(.5);
    string out = vf::scratch() + "/out";
    mkdir(out.c_str(), 0777);
    vf::desc(Str() << "original of " << nv << " layers " << d.how << g.str());
    g.srs = d.p->GetSrsString();
    VF_CHECK(d.p->OutputSubsetToFile(true, comb, out + "/r.tif", table, def), "original:refused", "writing with a table by original values failed");
    auto want = [&](int, int cell, int l) -> T { auto it = table.find((int) g.v[l][cell]); return (T) (it == table.end() ? def : it->second[l]); };
    compare_subset_files(out + "/r.tif", g, d.bl, nv, comb, want, "original", "remapped by original value of each layer");
    vf::distinct(vf::mix(g.hash(), 78));
}
static vf::Reg reg_origlyr("original_layers<" M_STR(VT) "," M_STR(VM) ">", 1, &original_layers<VT, VM>);
static vf::Reg reg_remap("remap<" M_STR(VT) "," M_STR(VM) ">", 5, &remap<VT, VM>);
static vf::Reg reg_original("original<" M_STR(VT) "," M_STR(VM) ">", 1, &original<VT, VM>);
#endif
