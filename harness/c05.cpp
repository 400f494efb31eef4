// C05: masked loading
#include "mk.hpp"
#include <omp.h>
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters (12 pairs of cell and mask type, GeoTIFF or ASCII grid, 1-3 layers) are loaded under masks lying in, around, beside or across them, aligned or shifted by part of a cell, of coarser or finer cells, with or without a default value, the mask's extent, and valid positions worked out before or while loading; every cell, position and index, the extent, the unchanged mask and the raster as written to file are compared with a model that places cell centres of the mask in the source; a refused load is compared with the conditions under which nothing is left; distinct (source, mask, mode) cases are counted.";
void vf_init() { init(); }
#else
#ifndef VM
#define VM VT
#endif
template <class T, class M> void load(vf::Case& c) {
    auto& r = c.r;
    typedef Lib<T, M> L;
    typedef typename L::R R;
    typedef std::numeric_limits<T> LT;
    GenOpt o;
    o.lyrs = gen_lyrs(r, .75, 2, 3);
    Grid<T> s = gen_grid<T>(r, o);
    for (auto& l: s.v) for (auto& x: l) if (ndeq((double) x, (double) s.nodata)) x = s.nodata;
    bool asc = r.chance(.2) && sizeof(T) < 8;
    s.srs = asc ? "" : r.chance(.15) ? gen_srs(r) : "";
    // later layers of cells without data in the first one are not specified
    for (int l = 1; l < s.lyrs; l++) for (int i = 0; i < s.n(); i++) if (!s.valid(i)) s.v[l][i] = s.nodata;
    Geo kg = gen_near_safe(r, s, false);
    Grid<M> k = like<T, M>(r, kg, r.pickv({0., .1, .3, .5, .8, -1.}));
    k.srs = r.chance(.2) ? gen_srs(r) : "";
    for (auto& x: k.v[0]) if (ndeq((double) x, (double) k.nodata)) x = k.nodata;
    bool ext = r.chance(.5), calc = r.chance(.5), maskcalc = r.chance(.5), maskfile = r.chance(.3);
    double defv = r.chance(.5) || s.lyrs > 1 ? -9999 : r.chance(.2) ? (double) s.nodata : (double) r.range(LT::is_signed ? -5 : 0, 20);
    int threads = (int) r.range(1, 4);
    omp_set_num_threads(threads);
    bool hasdef = !ndeq(defv, -9999) && !ndeq(defv, (double) s.nodata);
    string dir = vf::scratch() + "/";
    vf::desc(Str() << "load " << (ext ? "mask extent " : "cropped ") << (calc ? "positions " : "") << (maskcalc ? "mask positions " : "") << "default " << defv << (asc ? " asc " : " tif ") << s.str() << " mask " << k.str());
    vector<string> in;
    for (int l = 0; l < s.lyrs; l++) {
        in.push_back(dir + "s" + std::to_string(l) + (asc ? ".asc" : ".tif"));
        if (asc) vf::write_file(in.back(), asc_text(s, l)); else if (!gdal_write(in.back(), s, l)) return;
    }
    std::unique_ptr<dr::clsRasterData<M>> mask;
    if (maskfile) {
        if (!gdal_write(dir + "m.tif", k)) return;
        mask.reset(dr::clsRasterData<M>::Init(dir + "m.tif", maskcalc));
        VF_CHECK(mask != nullptr, "mask", "the mask cannot be read");
    } else {
        mask.reset(Lib<M, M>::make(k));
        if (maskcalc) VF_CHECK(mask->SetCalcPositions(), "mask", "SetCalcPositions of the mask failed");
    }
    // model
    Grid<T> w;
    (Geo&) w = kg;
    w.lyrs = s.lyrs;
    w.nodata = s.nodata;
    w.srs = k.srs;
    w.v.assign(w.lyrs, vector<T>(kg.n(), s.nodata));
    bool overlap = false;
    int matched = 0, valid = 0, r0 = kg.rows, r1 = -1, c0 = kg.cols, c1 = -1;
    for (int i = 0; i < kg.n(); i++) {
        if (!k.valid(i)) continue;
        int q = s.cell(kg.cx(i % kg.cols), kg.cy(i / kg.cols));
        if (q < 0) continue;
        overlap = true;
        if (s.nd(0, q)) { if (hasdef) { w.v[0][i] = (T) defv; valid++; } continue; }
        matched++;
        valid++;
        for (int l = 0; l < s.lyrs; l++) w.v[l][i] = s.v[l][q];
        r0 = std::min(r0, i / kg.cols); r1 = std::max(r1, i / kg.cols); c0 = std::min(c0, i % kg.cols); c1 = std::max(c1, i % kg.cols);
    }
    bool may_fail = !overlap || (calc && valid == 0) || (!ext && matched == 0);
    // s.lyrs files: positions of the first layer decide; a source that was stored compact may itself fail without valid cells
    bool again = r.chance(.2);
    std::unique_ptr<R> a;
    if (again) { // read into an object that held something else
        MkOpt mo;
        mo.masks = false;
        Built<T, M> other;
        build(r, other, mo);
        bool ok = s.lyrs == 1 ? other->ReadFromFile(in[0], calc, mask.get(), ext, defv) : other->ReadFromFiles(in, calc, mask.get(), ext, defv);
        if (ok) a.reset(other.r.release());
        else VF_CHECK(!other->ValidateRasterData(), "failed-valid", "reading failed but the raster claims to be valid");
    } else a.reset(s.lyrs == 1 ? R::Init(in[0], calc, mask.get(), ext, defv) : R::Init(in, calc, mask.get(), ext, defv));
    compare(mask.get(), k, "mask-after", "mask after loading");
    if (!a) {
        VF_CHECK(may_fail, "refused", Str() << "loading under the mask was refused although " << valid << " cells are valid");
        vf::tally("nothing left");
        vf::distinct(vf::mix(s.hash(), k.hash()));
        return;
    }
    VF_CHECK(overlap, "accepted", "a mask that does not touch the raster yields a raster");
    Grid<T> e = w;
    if (!ext) {
        VF_CHECK(matched > 0, "accepted", "no cell carries data, yet a raster is made");
        e.rows = r1 - r0 + 1;
        e.cols = c1 - c0 + 1;
        e.xll = kg.cx(c0);
        e.yll = kg.cy(r1);
        for (int l = 0; l < e.lyrs; l++) { e.v[l].assign(e.n(), e.nodata); for (int i = 0; i < e.n(); i++) e.v[l][i] = w.v[l][(r0 + i / e.cols) * kg.cols + c0 + i % e.cols]; }
    }
    agree(a.get(), e, "loaded", "loaded under the mask");
    vf::tally(ext ? "loaded with mask extent" : "loaded cropped");
    vf::tally(a->PositionsCalculated() ? a->PositionsAllocated() ? "own positions" : "positions of the mask" : "whole block");
    if (hasdef) vf::tally("default values requested");
    if (r.chance(.3) && e.nvalid() > 0) { // what is written
        string p = dir + "o.tif";
        VF_CHECK(a->OutputToFile(p), "write", "writing the masked raster failed");
        for (int l = 0; l < e.lyrs; l++) compare_tif(e.lyrs == 1 ? p : numbered(p, l + 1), e, l, "written", "masked raster as written");
    }
    if (r.chance(.3)) { // the mask's extent may be asked for later
        bool had = a->GetMask() != nullptr;
        bool ok = a->SetUseMaskExt();
        if (ok) { // default values may now fill any valid cell of the mask that the block covers
            Grid<T> f = e;
            (Geo&) f = kg;
            for (int l = 0; l < f.lyrs; l++) f.v[l] = w.v[l];
            VF_CHECK(had, "extend", "extended without a mask");
            agree(a.get(), f, "extended", "after asking for the mask's extent");
        } else agree(a.get(), e, "extended", "after asking for the mask's extent in vain");
    }
    vf::distinct(vf::mix(vf::mix(s.hash(), k.hash()), ext * 2 + calc));
}
// values in memory placed on the valid cells of a mask
template <class T, class M> void place(vf::Case& c) {
    auto& r = c.r;
    typedef Lib<T, M> L;
    typedef typename L::R R;
    Geo geo = gen_geo(r);
    Grid<M> k = like<T, M>(r, geo);
    k.srs = r.chance(.3) ? gen_srs(r) : "";
    for (auto& x: k.v[0]) if (ndeq((double) x, (double) k.nodata)) x = k.nodata;
    vector<int> pos;
    for (int i = 0; i < k.n(); i++) if (k.valid(i)) pos.push_back(i);
    int lyrs = gen_lyrs(r, .6, 2, 4), n = (int) pos.size(), len = r.chance(.8) ? n : r.pickv({n - 1, n + 1, 0, -1, k.n() + 1, 1});
    bool two = lyrs > 1 || r.chance(.2), stat = r.chance(.3);
    double knd = (double) k.nodata;
    bool fits = knd >= (double) std::numeric_limits<T>::lowest() && knd <= (double) std::numeric_limits<T>::max() && (double) (T) knd == knd;
    Grid<T> g;
    (Geo&) g = geo;
    g.lyrs = lyrs;
    g.srs = k.srs;
    std::unique_ptr<dr::clsRasterData<M>> mask(Lib<M, M>::make(k));
    if (r.chance(.5)) mask->SetCalcPositions();
    vf::desc(Str() << "place " << len << " values of " << lyrs << " layers on mask " << k.str());
    vector<vector<T>> in(lyrs, vector<T>(std::max(len, 0)));
    for (auto& l: in) for (auto& x: l) { do x = gen_value<T>(r, (int) r.below(3)); while (ndeq((double) x, knd)); if (fits && r.chance(.1)) x = (T) k.nodata; }
    T* d = new T[std::max(len, 1)];
    T** d2 = nullptr;
    if (two && len > 0) { ccgl::utils_array::Initialize2DArray(len, lyrs, d2, T()); for (int i = 0; i < len; i++) for (int l = 0; l < lyrs; l++) d2[i][l] = in[l][i]; }
    for (int i = 0; i < len; i++) d[i] = in[0][i];
    ccgl::STRING_MAP op;
    if (stat) op["NOTE"] = "x";
    std::unique_ptr<R> a(two ? new R(mask.get(), d2, len, lyrs, op) : new R(mask.get(), d, len, op));
    delete[] d;
    if (d2) ccgl::utils_array::Release2DArray(d2);
    if (len != n) {
        VF_CHECK(!a->Initialized() && !a->ValidateRasterData(), "place:accepted", "a wrong number of values was accepted");
        vf::tally("wrong lengths refused");
        return;
    }
    VF_CHECK(a->Initialized(), "place:refused", "values on a mask were refused");
    g.nodata = a->GetNoDataValue();
    if (fits) VF_CHECK((double) g.nodata == knd, "place:nodata", Str() << "no-data is " << +g.nodata << ", that of the mask is " << knd);
    if (stat) VF_CHECK(a->GetOption("NOTE") == "x", "place:option", "option is lost");
    g.v.assign(lyrs, vector<T>(g.n(), g.nodata));
    for (int l = 0; l < lyrs; l++) for (int i = 0; i < n; i++) g.v[l][pos[i]] = in[l][i];
    agree(a.get(), g, "placed", "values placed on the mask");
    if (r.chance(.3) && g.nvalid() > 0) {
        string p = vf::scratch() + "/o.tif";
        VF_CHECK(a->OutputToFile(p), "write", "writing failed");
        for (int l = 0; l < lyrs; l++) compare_tif(two ? numbered(p, l + 1) : p, g, l, "written", "placed values as written");
    }
    vf::tally("values placed", (uint64_t) n * lyrs);
    vf::distinct(g.hash());
}
static vf::Reg reg_load("load<" M_STR(VT) "," M_STR(VM) ">", 4, &load<VT, VM>);
static vf::Reg reg_place("place<" M_STR(VT) "," M_STR(VM) ">", 1, &place<VT, VM>);
#endif
