// C09: splitting into subsets and merging back
#include "subs.hpp"
#include <omp.h>
using namespace m;
#ifndef VT
const char* vf_rule = "Zone rasters (12 pairs of cell and mask type; stripes, patches, chequerboards, noise, single cells; 1-40 zones, with or without grouping, 1-4 layers, every storage mode) are decomposed by their own zones or loaded under a decomposed mask lying in, around or across them; every subset's cells, block, local and global positions and header are compared with a model, then separate files, merged rasters and rasters merged from data handed to the subsets are read back without the library and compared cell by cell; distinct (raster, zones) pairs are counted.";
void vf_init() { init(); }
#else
#ifndef VM
#define VM VT
#endif
template <class T> double handed(Rng& r, const Grid<T>& g) { // a value a subset may be given
    for (;;) {
        T x = r.chance(.05) ? g.nodata : gen_value<T>(r, (int) r.below(3));
        if (std::fabs((double) x) <= 9007199254740992. || !std::numeric_limits<T>::is_integer) if (std::isfinite((double) x)) { if (sizeof(T) == 8 && std::numeric_limits<T>::is_integer && (double) x == (double) g.nodata && x != g.nodata) continue; return (double) x; }
    }
}
template <class T, class M> void split(vf::Case& c) {
    auto& r = c.r;
    Decomposed<T, M> d;
    omp_set_num_threads((int) r.range(1, 4));
    if (!decompose(r, d)) { vf::tally("nothing left under the mask"); return; }
    if (d.bl.empty()) { VF_CHECK(d.g.nvalid() == 0, "split:none", "no subsets although there are valid cells"); vf::tally("nothing but no-data under the mask"); return; }
    const Grid<T>& g = d.g;
    vf::distinct(vf::mix(g.hash(), vf::hash_str(d.how)));
    string dir = vf::scratch() + "/out", log;
    int steps = (int) r.range(1, 4), nf = 0;
    std::map<int, vector<vector<double>>> data; // what the subsets were handed: zone -> [layer][cell of the subset]
    int dl = 0;
    auto hand = [&](int lyrs) {
        data.clear();
        dl = lyrs;
        for (auto& kv: d.bl) {
            int n = (int) kv.second.cell.size();
            vector<vector<double>> v(lyrs, vector<double>(n));
            for (auto& l: v) for (auto& x: l) x = handed<T>(r, g);
            auto* s = d.p->GetSubset().at(kv.first);
            VF_CHECK(!s->SetData(n + 1, v[0].data()) && !s->SetData(n - 1, v[0].data()), "hand:length", "data of a wrong length were accepted");
            bool ok, typed = r.chance(.5);
            if (lyrs == 1) {
                if (typed) { vector<T> t(v[0].begin(), v[0].end()); for (int i = 0; i < n; i++) t[i] = (T) v[0][i]; ok = s->SetData(n, t.data()); }
                else ok = s->SetData(n, v[0].data());
            } else {
                double** q = nullptr;
                ccgl::utils_array::Initialize2DArray(n, lyrs, q, 0.);
                for (int i = 0; i < n; i++) for (int l = 0; l < lyrs; l++) q[i][l] = v[l][i];
                ok = s->Set2DData(n, lyrs, q);
                ccgl::utils_array::Release2DArray(q);
            }
            VF_CHECK(ok, "hand:refused", Str() << "data for subset " << kv.first << " were refused");
            data[kv.first] = v;
            vector<T*> full;
            s->Output(g.nodata, full);
            Geo b = kv.second.geo(g);
            string bad;
            if ((int) full.size() != lyrs) bad = Str() << full.size() << " layers of a subset put out, expected " << lyrs;
            for (int l = 0; bad.empty() && l < lyrs; l++) {
                vector<T> e(b.n(), g.nodata);
                for (int i = 0; i < n; i++) { int q = kv.second.cell[i]; e[(q / g.cols - kv.second.r0) * b.cols + q % g.cols - kv.second.c0] = (T) v[l][i]; }
                for (int i = 0; i < b.n() && bad.empty(); i++) if (!same<T>(e[i], full[l][i])) bad = Str() << "cell " << i << " of layer " << l + 1 << " of the block of subset " << kv.first << " is " << +full[l][i] << ", expected " << +e[i];
            }
            for (auto* f: full) delete[] f;
            VF_CHECK(bad.empty(), "hand:output", bad);
        }
        vf::tally("data handed to subsets");
    };
    auto value = [&](int zone, int cell, int l) -> T { // of the data handed out
        return (T) data[zone][l][d.bl[zone].at(cell)];
    };
    auto orig = [&](int, int cell, int l) -> T { return g.nd(l, cell) ? g.nodata : g.v[l][cell]; };
    for (int q = 0; q < steps; q++) {
        bool asc = r.chance(.25) && sizeof(T) < 8;
        string out = dir + std::to_string(nf++);
        mkdir(out.c_str(), 0777);
        string path = out + (asc ? "/z.asc" : "/z.tif");
        if (asc) d.g.srs = ""; else d.g.srs = d.p->GetSrsString();
        switch (r.below(10)) {
            case 0: case 1:
                VF_CHECK(d.p->OutputSubsetToFile(true, false, path), "separate:refused", "writing the subsets to separate files failed");
                compare_subset_files(path, g, d.bl, g.lyrs, false, orig, "separate", "separate files");
                if (!asc && r.chance(.3)) // read back with the library
                    for (auto& kv: d.bl) {
                        string f = prefixed(g.lyrs > 1 ? numbered(path, 1) : path, kv.first);
                        std::unique_ptr<dr::clsRasterData<T, M>> b(dr::clsRasterData<T, M>::Init(f));
                        VF_CHECK(b != nullptr, "separate:unreadable", "a file of a subset cannot be read: " + f);
                        Geo e = kv.second.geo(g);
                        VF_CHECK(b->GetRows() == e.rows && b->GetCols() == e.cols, "separate:reread", "size of a file read back");
                        for (int cell: kv.second.cell) VF_CHECK(same<T>(b->GetValue(cell / g.cols - kv.second.r0, cell % g.cols - kv.second.c0), orig(0, cell, 0)), "separate:reread", "a cell read back differs");
                    }
                log += "separate; ";
                break;
            case 2:
                VF_CHECK(d.p->OutputSubsetToFile(true, true, path), "merged:refused", "writing the merged raster failed");
                compare_subset_files(path, g, d.bl, g.lyrs, true, orig, "merged", "merged raster");
                log += "merged; ";
                break;
            case 3: case 4: case 5:
                if (data.empty() || r.chance(.5)) hand(r.chance(.6) ? 1 : (int) r.range(2, 3));
                if (r.chance(.5)) {
                    VF_CHECK(r.chance(.5) ? d.p->OutputSubsetToFile(false, true, path) : d.p->OutputToFile(path, false), "handed:refused", "writing merged data of the subsets failed");
                    compare_subset_files(path, g, d.bl, dl, true, value, "handed", "merged data of the subsets");
                } else {
                    VF_CHECK(d.p->OutputSubsetToFile(false, false, path), "handed:refused", "writing data of the subsets failed");
                    compare_subset_files(path, g, d.bl, dl, false, value, "handed", "data of the subsets");
                }
                log += "handed; ";
                break;
            case 6: // cells are edited
                for (int k = 0; k < 5; k++) {
                    auto it = d.bl.begin();
                    std::advance(it, r.below(d.bl.size()));
                    int cell = r.pick(it->second.cell), l = (int) r.below(g.lyrs);
                    if (g.nd(l, cell)) continue;
                    T x = r.chance(.5) ? g.v[l][r.pick(d.bl.rbegin()->second.cell)] : r.chance(.5) ? (T) r.range(0, 9) : gen_value<T>(r, 1);
                    if (ndeq((double) x, (double) g.nodata)) continue;
                    d.p->SetValue(cell / g.cols, cell % g.cols, x, l + 1);
                    d.g.v[l][cell] = x;
                }
                log += "edited; ";
                break;
            case 8: { // data of unequal numbers of layers cannot be merged
                if (d.bl.size() < 2) break;
                hand((int) r.range(1, 2));
                auto it = d.bl.begin();
                std::advance(it, r.below(d.bl.size()));
                int n = (int) it->second.cell.size(), other = dl + (int) r.range(1, 2);
                double** q = nullptr;
                ccgl::utils_array::Initialize2DArray(n, other, q, 1.);
                VF_CHECK(d.p->GetSubset().at(it->first)->Set2DData(n, other, q), "hand:refused", "data of more layers were refused");
                ccgl::utils_array::Release2DArray(q);
                VF_CHECK(!d.p->OutputSubsetToFile(false, true, path), "unequal", Str() << "data of " << dl << " and " << other << " layers were merged");
                hand(dl); // equal again
                vf::tally("unequal layers refused");
                log += "unequal; ";
                break;
            }
            case 9: { // subsets marked as not usable are left out, or hold the default value
                bool own = r.chance(.4), comb = r.chance(.7);
                if (!own) hand(r.chance(.6) ? 1 : (int) r.range(2, 3));
                Blocks on = d.bl;
                std::set<int> off;
                for (auto& kv: d.bl) if (r.chance(.4)) off.insert(kv.first);
                if (off.size() == d.bl.size()) off.erase(off.begin());
                for (int z: off) { on.erase(z); d.p->GetSubset().at(z)->usable = false; }
                double def = r.chance(.3) ? (double) g.nodata : handed<T>(r, g);
                if (ndeq(def, -9999)) def = 4;
                VF_CHECK(d.p->OutputSubsetToFile(own, comb, path, std::map<ccgl::vint, vector<double>>(), def), "unusable:refused", "writing failed when some subsets are not usable");
                compare_subset_files(path, g, comb ? d.bl : on, own ? g.lyrs : dl, comb, [&](int zone, int cell, int l) -> T { return off.count(zone) ? ndeq(def, (double) g.nodata) ? g.nodata : (T) def : own ? orig(zone, cell, l) : value(zone, cell, l); }, "unusable", "raster with unusable subsets");
                for (int z: off) d.p->GetSubset().at(z)->usable = true;
                vf::tally("with unusable subsets");
                log += "unusable; ";
                break;
            }
            default: { // decomposed again by the values it holds now
                bool fits = true;
                for (int i = 0; i < g.n(); i++) if (g.valid(i)) { double x = (double) g.v[0][i]; if (std::fabs(x) > 2e9 || x != std::floor(x)) fits = false; }
                if (!fits || g.nvalid() == 0) break;
                auto groups = gen_groups(r, g);
                if (r.chance(.4)) groups.clear();
                VF_CHECK(d.p->RebuildSubSet(groups), "rebuild:refused", "RebuildSubSet failed");
                d.z = zones_of(g, groups);
                data.clear();
                if (!d.p->PositionsCalculated()) vf::fail("rebuild:positions", "decomposed without positions");
                d.bl = check_subsets(d.p, g, d.z, Zones(), "rebuild", "decomposed again " + str(groups));
                log += "rebuilt; ";
            }
        }
    }
    d.g.srs = d.p->GetSrsString();
    agree(d.p, g, "after", "raster after " + log);
}
static vf::Reg reg_split("split<" M_STR(VT) "," M_STR(VM) ">", 1, &split<VT, VM>);
#endif
