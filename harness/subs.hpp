// Rasters decomposed into subsets, and the model of their zones.
#ifndef VF_SUBS_HPP
#define VF_SUBS_HPP
#include <dirent.h>
#include <unordered_map>
#include "mk.hpp"
namespace m {
// Fills a grid with whole zone numbers in some spatial arrangement; v uses gaps of no-data.
template <class T> inline void zones(Rng& r, Grid<T>& g) {
    typedef std::numeric_limits<T> L;
    int style = (int) r.below(7), nz = (int) r.range(1, g.n() > 5000 ? 6 : r.chance(.2) ? 40 : g.n() < 1500 && r.chance(.02) ? 400 : 6);
    vector<T> id;
    double lo = L::is_signed ? -9 : 0;
    for (int k = 0; k < nz; k++) {
        double z = r.chance(.6) ? k + 1 : r.chance(.7) ? (double) r.range((long long) lo, 30) : std::min(r.pickv({100., 127., 32000., 65535., 999999., 16777216., -128., -30000.}), (double) L::max());
        if (z < lo && (!L::is_signed || z < (double) L::lowest())) z = lo;
        if (z > 127 && sizeof(T) == 1) z = 127;
        T t = (T) z;
        if (ndeq((double) t, (double) g.nodata)) t = (T) (ndeq(3, (double) g.nodata) ? 4 : 3);
        id.push_back(t);
    }
    vector<std::pair<double, double>> seed;
    for (int k = 0; k < nz; k++) seed.push_back({r.real(0, g.rows), r.real(0, g.cols)});
    for (int i = 0; i < g.n(); i++) {
        int row = i / g.cols, col = i % g.cols, k = 0;
        switch (style) {
            case 0: k = (int) r.below(nz); break;
            case 1: k = row % nz; break;
            case 2: k = col % nz; break;
            case 3: k = (row + col) % nz; break;
            case 4: k = (row / 3 + col / 3) % nz; break;
            default: { double best = 1e300; for (int q = 0; q < nz; q++) { double d = (row - seed[q].first) * (row - seed[q].first) + (col - seed[q].second) * (col - seed[q].second); if (d < best) { best = d; k = q; } } }
        }
        if (g.valid(i)) g.v[0][i] = id[k];
    }
    if (g.nvalid() == 0) g.v[0][0] = id[0];
}
typedef std::map<int, vector<int>> Zones; // zone -> cells, row by row
template <class T> inline Zones zones_of(const Grid<T>& g, const std::map<int, int>& groups) {
    Zones z;
    for (int i = 0; i < g.n(); i++) if (g.valid(i)) { int k = (int) g.v[0][i]; auto it = groups.find(k); z[it == groups.end() ? k : it->second].push_back(i); }
    return z;
}
template <class T> inline std::map<int, int> gen_groups(Rng& r, const Grid<T>& g) {
    std::map<int, int> m;
    if (r.chance(.45)) return m;
    std::set<int> ids;
    for (int i = 0; i < g.n(); i++) if (g.valid(i)) ids.insert((int) g.v[0][i]);
    vector<int> v(ids.begin(), ids.end());
    int ng = (int) r.range(1, 4);
    bool all = r.chance(.6);
    for (int x: v) if (all || r.chance(.6)) m[x] = r.chance(.2) ? r.pick(v) : (int) r.range(-2, ng); // groups may take numbers that zones have
    if (r.chance(.2)) m[4711] = 1;
    return m;
}
inline string str(const std::map<int, int>& m) { Str s; s << "["; for (auto& kv: m) s << kv.first << ">" << kv.second << " "; return (string) s + "]"; }
struct Block { // of a subset
    int r0, r1, c0, c1;
    vector<int> cell; // of the raster, in the subset's order
    mutable std::unordered_map<int, int> index;
    size_t at(int c) const { // place of a cell in the order
        if (index.size() != cell.size() || cell[index[c]] != c) { index.clear(); for (size_t i = 0; i < cell.size(); i++) index[cell[i]] = (int) i; }
        return index.at(c);
    }
    template <class G> Geo geo(const G& g) const {
        Geo b;
        b.rows = r1 - r0 + 1; b.cols = c1 - c0 + 1; b.dx = g.dx; b.xll = g.cx(c0); b.yll = g.cy(r1);
        return b;
    }
};
typedef std::map<int, Block> Blocks;
// Checks the subsets of p against zones; valid cells of a zone must all be there, cells of may (zone -> cells) can be there as well.
template <class R, class T> inline Blocks check_subsets(R* p, const Grid<T>& g, const Zones& z, const Zones& may, const string& sig, const string& what) {
    Blocks out;
    int n = -1, *d = nullptr;
    auto& sub = p->GetSubset();
    if (p->PositionsCalculated()) p->GetRasterPositionData(&n, &d);
    vector<int> owner(g.n(), 0);
    for (auto& kv: z) VF_CHECK(sub.count(kv.first) == 1, sig + ":missing", Str() << what << ": zone " << kv.first << " of " << kv.second.size() << " cells has no subset");
    for (auto& kv: sub) {
        auto* s = kv.second;
        int id = kv.first;
        auto mz = may.find(id), vz = z.find(id);
        VF_CHECK(vz != z.end() || mz != may.end(), sig + ":extra", Str() << what << ": there is a subset " << id << " but no such zone");
        VF_CHECK(s && s->n_cells > 0 && s->global_ && s->local_pos_ && s->local_posidx_, sig + ":empty", Str() << what << ": subset " << id << " is empty");
        Block b = {g.rows, -1, g.cols, -1, {}};
        std::set<int> cells;
        for (int i = 0; i < s->n_cells; i++) {
            int gi = s->global_[i];
            VF_CHECK(gi >= 0 && gi < (d ? n : g.n()), sig + ":global", Str() << what << ": subset " << id << " refers to cell index " << gi);
            int cell = d ? d[gi] : gi;
            VF_CHECK(cells.insert(cell).second && owner[cell]++ == 0, sig + ":twice", Str() << what << ": cell " << cell << " is in two subsets or twice in subset " << id);
            b.cell.push_back(cell);
            b.r0 = std::min(b.r0, cell / g.cols); b.r1 = std::max(b.r1, cell / g.cols); b.c0 = std::min(b.c0, cell % g.cols); b.c1 = std::max(b.c1, cell % g.cols);
            bool ok = (vz != z.end() && std::binary_search(vz->second.begin(), vz->second.end(), cell)) || (mz != may.end() && std::binary_search(mz->second.begin(), mz->second.end(), cell));
            VF_CHECK(ok, sig + ":foreign", Str() << what << ": cell " << cell << " is in subset " << id << " but not in that zone");
        }
        if (vz != z.end()) for (int c: vz->second) VF_CHECK(cells.count(c), sig + ":lost", Str() << what << ": cell " << c << " of zone " << id << " is in no subset");
        VF_CHECK(s->g_srow == b.r0 && s->g_erow == b.r1 && s->g_scol == b.c0 && s->g_ecol == b.c1, sig + ":block", Str() << what << ": block of subset " << id << " is rows " << s->g_srow << "-" << s->g_erow << " cols " << s->g_scol << "-" << s->g_ecol << ", expected rows " << b.r0 << "-" << b.r1 << " cols " << b.c0 << "-" << b.c1);
        int bc = b.c1 - b.c0 + 1;
        for (int i = 0; i < s->n_cells; i++) {
            int lr = b.cell[i] / g.cols - b.r0, lc = b.cell[i] % g.cols - b.c0;
            VF_CHECK(s->local_pos_[i][0] == lr && s->local_pos_[i][1] == lc && s->local_posidx_[i] == lr * bc + lc, sig + ":local", Str() << what << ": local position " << i << " of subset " << id << " is (" << s->local_pos_[i][0] << "," << s->local_pos_[i][1] << ") index " << s->local_posidx_[i] << ", expected (" << lr << "," << lc << ") index " << lr * bc + lc);
        }
        std::map<string, double> h;
        ccgl::STRDBL_MAP sh;
        s->GetHeader(p->GetXllCenter(), p->GetYllCenter(), p->GetRows(), p->GetCellWidth(), (double) p->GetNoDataValue(), sh);
        for (auto& q: sh) h[q.first] = q.second;
        Geo e = b.geo(g);
        double sc = g.dx * (g.rows + g.cols);
        VF_CHECK(h[dr::HEADER_RS_NROWS] == e.rows && h[dr::HEADER_RS_NCOLS] == e.cols && close_enough(h[dr::HEADER_RS_XLL], e.xll, sc) && close_enough(h[dr::HEADER_RS_YLL], e.yll, sc) && close_enough(h[dr::HEADER_RS_CELLSIZE], e.dx, 0) && ndeq(h[dr::HEADER_RS_NODATA], (double) p->GetNoDataValue()), sig + ":header", Str() << what << ": header of subset " << id << " does not describe its block");
        out[id] = b;
    }
    vf::tally("subsets checked", sub.size());
    return out;
}
inline std::set<string> listing(const string& dir) {
    std::set<string> s;
    if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (string(e->d_name) != "." && string(e->d_name) != "..") s.insert(e->d_name); closedir(d); }
    return s;
}
// Compares one written file with layer l of the model.
template <class T> inline void compare_file(const string& path, const Grid<T>& g, int l, const string& sig, const string& what) {
    if (path.substr(path.size() - 4) == ".tif") { compare_tif(path, g, l, sig, what); return; }
    AscFile f;
    VF_CHECK(asc_read(path, f), sig + ":file", what + ": file " + path + " is missing or no complete grid");
    VF_CHECK(f.g.rows == g.rows && f.g.cols == g.cols, sig + ":file-size", Str() << what << ": file size is " << f.g.rows << "x" << f.g.cols << ", expected " << g.rows << "x" << g.cols);
    double sc = g.dx * (g.rows + g.cols);
    VF_CHECK(close_enough(f.g.xll, g.xll, sc) && close_enough(f.g.yll, g.yll, sc) && close_enough(f.g.dx, g.dx, 0), sig + ":file-location", Str() << what << ": file lies at " << f.g.str() << ", expected " << g.Geo::str());
    VF_CHECK(f.has_nd && ndeq((double) (T) f.nd, (double) g.nodata), sig + ":file-nodata", Str() << what << ": no-data in file is " << f.nd_text << ", expected " << +g.nodata);
    for (int i = 0; i < g.n(); i++) VF_CHECK(g.nd(l, i) ? f.v[i] == f.nd : six<T>(f.v[i], g.v[l][i]) && f.v[i] != f.nd, sig + ":file-cell", Str() << what << ": cell (" << i / g.cols << "," << i % g.cols << ") of layer " << l + 1 << " in file is " << f.text[i] << ", expected " << +g.v[l][i]);
    vf::tally("file cells compared", (uint64_t) g.n());
}
// Files of every subset (separate) or of all (prefix 0); want(zone, cell, layer) is what the cell holds.
template <class T, class F> inline void compare_subset_files(const string& path, const Grid<T>& g, const Blocks& bl, int lyrs, bool combined, F want, const string& sig, const string& what) {
    size_t sl = path.find_last_of('/');
    std::set<string> files;
    auto one = [&](Grid<T>& e, int prefix, const string& w) {
        for (int l = 0; l < lyrs; l++) {
            string p = prefixed(lyrs > 1 ? numbered(path, l + 1) : path, prefix);
            files.insert(p.substr(sl + 1));
            compare_file(p, e, l, sig, w);
        }
    };
    if (combined) {
        Grid<T> e;
        (Geo&) e = g;
        e.lyrs = lyrs; e.nodata = g.nodata; e.srs = g.srs;
        e.v.assign(lyrs, vector<T>(e.n(), g.nodata));
        for (auto& kv: bl) for (int c: kv.second.cell) for (int l = 0; l < lyrs; l++) e.v[l][c] = want(kv.first, c, l);
        one(e, 0, what);
    } else
        for (auto& kv: bl) {
            const Block& b = kv.second;
            Grid<T> e;
            (Geo&) e = b.geo(g);
            e.lyrs = lyrs; e.nodata = g.nodata; e.srs = g.srs;
            e.v.assign(lyrs, vector<T>(e.n(), g.nodata));
            for (int c: b.cell) for (int l = 0; l < lyrs; l++) e.v[l][(c / g.cols - b.r0) * e.cols + c % g.cols - b.c0] = want(kv.first, c, l);
            one(e, kv.first, Str() << what << " of subset " << kv.first);
        }
    auto have = listing(path.substr(0, sl));
    for (auto& f: have) VF_CHECK(files.count(f), sig + ":file-extra", what + ": an unexpected file " + f + " appears");
    vf::tally(combined ? "merged rasters compared" : "sets of separate files compared");
}
// A raster decomposed by its own zones, or by those of the mask it is loaded with.
template <class T, class M> struct Decomposed {
    typedef dr::clsRasterData<T, M> R;
    Built<T, M> own; // when by its own zones
    std::unique_ptr<dr::clsRasterData<M>> mask;
    std::unique_ptr<R> loaded;
    R* p;
    Grid<T> g; // what every cell reads as
    Zones z, may;
    Blocks bl;
    string how;
    Decomposed(): p(nullptr) {}
};
template <class T, class M> inline void decompose_own(Rng& r, Decomposed<T, M>& d, int lyrs = 0) {
    MkOpt o;
    o.lyrs = lyrs;
    o.gen.pnd = r.pickv({0., .1, .3, .6, .95});
    o.tweak = [&](void* q) { zones<T>(r, *(Grid<T>*) q); };
    build(r, d.own, o);
    d.p = d.own.r.get();
    Grid<T>& g = d.own.g;
    T nd = d.p->GetNoDataValue(); // equal, but 64 bit integers may differ in the last bits
    if (ndeq((double) nd, (double) g.nodata)) { for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) nd)) x = nd; g.nodata = nd; }
    auto groups = gen_groups(r, d.own.g);
    d.how = "by its own zones " + str(groups) + " ";
    vf::desc(d.how + d.own.str());
    VF_CHECK(d.p->BuildSubSet(groups), "split:refused", "BuildSubSet failed");
    d.own.compacted();
    d.g = d.own.g;
    d.z = zones_of(d.g, groups);
    d.bl = check_subsets(d.p, d.g, d.z, Zones(), "split", "decomposed " + d.how);
    agree(d.p, d.g, "split:raster", "raster after decomposition");
}
// false: nothing is left under the mask
template <class T, class M> inline bool decompose_mask(Rng& r, Decomposed<T, M>& d, int lyrs = 0) {
    typedef dr::clsRasterData<T, M> R;
    GenOpt o;
    o.lyrs = lyrs ? lyrs : gen_lyrs(r, .7, 2, 3);
    Grid<T> s = gen_grid<T>(r, o);
    for (auto& l: s.v) for (auto& x: l) if (ndeq((double) x, (double) s.nodata)) x = s.nodata;
    for (int l = 1; l < s.lyrs; l++) for (int i = 0; i < s.n(); i++) if (!s.valid(i)) s.v[l][i] = s.nodata;
    Geo kg = r.chance(.4) ? (Geo) s : gen_near_safe(r, s, true);
    Grid<M> k = like<T, M>(r, kg, r.pickv({0., .1, .3, .5, .8, -1.}));
    zones<M>(r, k);
    for (auto& x: k.v[0]) if (ndeq((double) x, (double) k.nodata)) x = k.nodata;
    bool ext = r.chance(.5), calc = r.chance(.5);
    double defv = r.chance(.7) || s.lyrs > 1 ? -9999 : (double) r.range(0, 20);
    bool hasdef = !ndeq(defv, -9999) && !ndeq(defv, (double) s.nodata);
    auto groups = gen_groups(r, k);
    string dir = vf::scratch() + "/in_";
    d.how = Str() << "by the zones " << str(groups) << " of its mask " << (ext ? "mask extent " : "cropped ") << (calc ? "positions " : "") << "default " << defv << " ";
    vf::desc(d.how + s.str() + " mask " + k.str());
    vector<string> in;
    for (int l = 0; l < s.lyrs; l++) { in.push_back(dir + std::to_string(l) + ".tif"); if (!gdal_write(in.back(), s, l)) return false; }
    d.mask.reset(Lib<M, M>::make(k));
    VF_CHECK(d.mask->BuildSubSet(groups), "split:mask", "BuildSubSet of the mask failed");
    Zones kz = zones_of(k, groups);
    check_subsets(d.mask.get(), k, kz, Zones(), "split:mask", "mask");
    Grid<T> w;
    (Geo&) w = kg;
    w.lyrs = s.lyrs; w.nodata = s.nodata; w.srs = "";
    w.v.assign(w.lyrs, vector<T>(kg.n(), s.nodata));
    int matched = 0, valid = 0, r0 = kg.rows, r1 = -1, c0 = kg.cols, c1 = -1;
    for (int i = 0; i < kg.n(); i++) {
        if (!k.valid(i)) continue;
        int q = s.cell(kg.cx(i % kg.cols), kg.cy(i / kg.cols));
        if (q < 0) continue;
        if (s.nd(0, q)) { if (hasdef) { w.v[0][i] = (T) defv; valid++; } continue; }
        matched++; valid++;
        for (int l = 0; l < s.lyrs; l++) w.v[l][i] = s.v[l][q];
        r0 = std::min(r0, i / kg.cols); r1 = std::max(r1, i / kg.cols); c0 = std::min(c0, i % kg.cols); c1 = std::max(c1, i % kg.cols);
    }
    d.loaded.reset(s.lyrs == 1 ? R::Init(in[0], calc, d.mask.get(), ext, defv) : R::Init(in, calc, d.mask.get(), ext, defv));
    check_subsets(d.mask.get(), k, kz, Zones(), "split:mask", "mask after loading");
    for (auto& f: in) unlink(f.c_str());
    d.p = d.loaded.get();
    if (!d.p) { VF_CHECK(matched == 0, "split:mask-refused", Str() << "loading under the mask was refused although " << matched << " cells carry data"); return false; }
    d.g = w;
    if (!ext) {
        VF_CHECK(matched > 0, "split:mask-accepted", "no cell carries data");
        d.g.rows = r1 - r0 + 1; d.g.cols = c1 - c0 + 1; d.g.xll = kg.cx(c0); d.g.yll = kg.cy(r1);
        for (int l = 0; l < d.g.lyrs; l++) { d.g.v[l].assign(d.g.n(), d.g.nodata); for (int i = 0; i < d.g.n(); i++) d.g.v[l][i] = w.v[l][(r0 + i / d.g.cols) * kg.cols + c0 + i % d.g.cols]; }
    } else r0 = c0 = 0;
    bool shared = d.p->PositionsCalculated() && !d.p->PositionsAllocated();
    for (auto& kv: kz) {
        vector<int> v, a;
        for (int c: kv.second) {
            int row = c / kg.cols - r0, col = c % kg.cols - c0;
            if (row < 0 || col < 0 || row >= d.g.rows || col >= d.g.cols) continue;
            int cell = row * d.g.cols + col;
            if (d.g.valid(cell)) v.push_back(cell);
            if (shared) a.push_back(cell);
        }
        if (!v.empty()) d.z[kv.first] = v;
        if (!v.empty() && !a.empty()) d.may[kv.first] = a;
    }
    agree(d.p, d.g, "split:raster", "raster decomposed by its mask");
    d.bl = check_subsets(d.p, d.g, d.z, d.may, "split:by-mask", "decomposed " + d.how);
    vf::tally(shared ? "zones of the mask, shared positions" : d.p->PositionsCalculated() ? "zones of the mask, own positions" : "zones of the mask, whole block");
    return true;
}
template <class T, class M> inline bool decompose(Rng& r, Decomposed<T, M>& d, int lyrs = 0) {
    if (r.chance(.35)) return decompose_mask(r, d, lyrs);
    decompose_own(r, d, lyrs);
    return true;
}
}
#endif
