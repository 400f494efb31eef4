// C07: layers stay aligned and in order
#include "mk.hpp"
#include <omp.h>
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters of 2-5 files whose extents, cell sizes, no-data values, cell types and formats (GeoTIFF, ASCII) differ from layer to layer are read into ten cell types, with and without worked-out positions and masks, and then written (GeoTIFF, ASCII or another suffix); every cell of every layer is compared with the value its file holds at the cell's centre, and every written file, its number and order with the layers; distinct stacks are counted.";
void vf_init() { init(); }
#else
// a layer as a file of cell type F; returns what a raster of cell type T reads from it
template <class T, class F> bool file_of(const Grid<double>& d, const string& path, bool asc) {
    Grid<F> f;
    (Geo&) f = d;
    f.lyrs = 1;
    f.srs = d.srs;
    f.nodata = (F) d.nodata;
    f.v.assign(1, vector<F>(d.n()));
    for (int i = 0; i < d.n(); i++) f.v[0][i] = (F) d.v[0][i];
    if (asc) { vf::write_file(path, asc_text(f, 0)); return true; }
    return gdal_write(path, f);
}
template <class T> void stack(vf::Case& c) {
    auto& r = c.r;
    typedef std::numeric_limits<T> LT;
    typedef typename Lib<T>::R R;
    omp_set_num_threads((int) r.range(1, 4));
    int lyrs = gen_lyrs(r, 0, 2, 5);
    string dir = vf::scratch() + "/";
    bool withmask = r.chance(.25), calc = r.chance(.5), ext = r.chance(.5), reuse = r.chance(.15);
    vector<Grid<double>> ly;
    vector<string> files;
    Geo base = gen_geo(r);
    string srs = r.chance(.2) ? gen_srs(r) : "";
    Grid<T> k; // mask
    if (withmask) { k = like<T, T>(r, gen_near_safe(r, base, false), r.pickv({0., .2, .5})); for (auto& x: k.v[0]) if (ndeq((double) x, (double) k.nodata)) x = k.nodata; }
    const Geo& out = withmask ? (const Geo&) k : base;
    string log;
    bool wide = sizeof(T) >= 4; // values every file type of this stack can hold
    for (int l = 0; l < lyrs; l++) {
        Grid<double> d;
        if (l == 0) (Geo&) d = base;
        else if (r.chance(.45)) (Geo&) d = base;
        else { (Geo&) d = gen_near_safe(r, base, false); if (withmask && ambiguous(d, out)) (Geo&) d = base; for (int q = 0; q < 20 && ambiguous(d, base); q++) (Geo&) d = gen_near_safe(r, base, false); if (ambiguous(d, base) || ambiguous(d, out)) (Geo&) d = base; }
        d.lyrs = 1;
        d.srs = srs;
        int ft = (int) r.below(10); // cell type of the file
        static const bool sg[] = {true, false, true, false, true, false, true, false, true, true};
        bool fs = sg[ft] && LT::is_signed;
        d.nodata = fs ? r.pickv({-9., -1., 99., 0., -100.}) : r.pickv({0., 99., 100., 7.});
        if (sg[ft] && ft >= 2 && r.chance(.4)) d.nodata = -9999;
        if (LT::is_signed == false && d.nodata < 0 && r.chance(.8)) d.nodata = 99; // otherwise the raster's type cannot hold it
        d.v.assign(1, vector<double>(d.n()));
        double pnd = r.pickv({0., .1, .4, .7});
        int keep = (int) r.below(d.n());
        for (int i = 0; i < d.n(); i++) {
            double x;
            do x = (double) r.range(fs ? -20 : 0, 60); while (x == d.nodata);
            if (!LT::is_integer && ft >= 8 && r.chance(.5)) x += .25;
            d.v[0][i] = r.chance(pnd) && !(l == 0 && i == keep) ? d.nodata : x;
        }
        bool asc = r.chance(.25);
        string f = dir + (r.chance(.5) ? "lyr_" : "in") + std::to_string(l + 1) + (asc ? r.pick({".asc", ".ASC"}) : string(".tif"));
        bool ok;
        switch (ft) {
            case 0: ok = file_of<T, int8_t>(d, f, asc); break;
            case 1: ok = file_of<T, uint8_t>(d, f, asc); break;
            case 2: ok = file_of<T, int16_t>(d, f, asc); break;
            case 3: ok = file_of<T, uint16_t>(d, f, asc); break;
            case 4: ok = file_of<T, int32_t>(d, f, asc); break;
            case 5: ok = file_of<T, uint32_t>(d, f, asc); break;
            case 6: ok = file_of<T, int64_t>(d, f, asc); break;
            case 7: ok = file_of<T, uint64_t>(d, f, asc); break;
            case 8: ok = file_of<T, float>(d, f, asc); break;
            default: ok = file_of<T, double>(d, f, asc);
        }
        if (!ok) return;
        // cells the raster's type cannot hold would be refused or altered: not this property
        if (!LT::is_signed && d.nodata < 0) return;
        if (sizeof(T) == 1 && LT::is_signed && std::fabs(d.nodata) > 120) return;
        if (sizeof(T) == 1 && std::fabs(d.nodata) > 250) return;
        log += Str() << "[" << (asc ? "asc " : "tif ") << "type " << ft << " " << d.Geo::str() << " nodata " << d.nodata << "] ";
        ly.push_back(d);
        files.push_back(f);
    }
    (void) wide;
    vf::desc(Str() << "stack " << Ty<T>::name() << (withmask ? ext ? " mask extent" : " masked" : "") << (calc ? " positions " : " ") << log);
    // the raster's grid
    Grid<T> w;
    (Geo&) w = out;
    w.lyrs = lyrs;
    w.nodata = (T) ly[0].nodata;
    w.srs = "";
    w.v.assign(lyrs, vector<T>(w.n(), w.nodata));
    vector<char> valid(w.n(), 0);
    int nv = 0, r0 = w.rows, r1 = -1, c0 = w.cols, c1 = -1;
    for (int i = 0; i < w.n(); i++) {
        if (withmask && !k.valid(i)) continue;
        for (int l = 0; l < lyrs; l++) {
            int q = l == 0 && !withmask ? i : ly[l].cell(w.cx(i % w.cols), w.cy(i / w.cols));
            bool nd = q < 0 || ly[l].nd(0, q);
            if (!nd) w.v[l][i] = (T) ly[l].v[0][q];
            if (l == 0 && !nd) { valid[i] = 1; nv++; r0 = std::min(r0, i / w.cols); r1 = std::max(r1, i / w.cols); c0 = std::min(c0, i % w.cols); c1 = std::max(c1, i % w.cols); }
        }
    }
    // a valid value of a later layer may equal the raster's no-data; it then is no-data (or is it? not this property)
    for (int l = 1; l < lyrs; l++) for (int i = 0; i < w.n(); i++) {
        int q = ly[l].cell(w.cx(i % w.cols), w.cy(i / w.cols));
        if (valid[i] && q >= 0 && !ly[l].nd(0, q) && ly[l].v[0][q] == ly[0].nodata) vf::tally("later layers holding the first one's no-data value");
    }
    std::unique_ptr<dr::clsRasterData<T>> mask;
    if (withmask) mask.reset(Lib<T, T>::make(k));
    std::unique_ptr<R> a;
    if (reuse) {
        Built<T> o;
        MkOpt mo;
        mo.masks = false;
        build(r, o, mo);
        if (o->ReadFromFiles(files, calc, mask.get(), ext)) a.reset(o.r.release());
    } else if (r.chance(.3)) { a.reset(new R(files, calc, mask.get(), ext)); if (!a->ValidateRasterData()) a.reset(); }
    else a.reset(R::Init(files, calc, mask.get(), ext));
    if (!a) { VF_CHECK(nv == 0, "refused", "the layers cannot be read"); vf::tally("refused without valid cells"); return; }
    VF_CHECK(nv > 0 || !calc, "accepted", "no cell is valid, yet a raster is made");
    if (withmask && !ext) {
        if (nv == 0) vf::fail("accepted", "no cell is valid, yet a raster is made");
        Geo o = w;
        w.rows = r1 - r0 + 1; w.cols = c1 - c0 + 1; w.xll = o.cx(c0); w.yll = o.cy(r1);
        vector<vector<T>> v2(lyrs, vector<T>(w.n()));
        vector<char> val2(w.n());
        for (int l = 0; l < lyrs; l++) for (int i = 0; i < w.n(); i++) { int q = (r0 + i / w.cols) * o.cols + c0 + i % w.cols; v2[l][i] = w.v[l][q]; val2[i] = valid[q]; }
        w.v = v2;
        valid = val2;
    }
    VF_CHECK(a->GetLayers() == lyrs && a->Is2DRaster(), "layers", Str() << a->GetLayers() << " layers of " << lyrs << " files");
    for (int i = 0; i < w.n(); i++) if (!valid[i]) for (int l = 1; l < lyrs; l++) w.v[l][i] = a->GetValue(i / w.cols, i % w.cols, l + 1); // not specified
    w.srs = a->GetSrsString();
    agree(a.get(), w, "stack", "layers read");
    // output
    string suffix = r.pick({".tif", ".asc", ".img", ".TIF", ".ASC"}), name = r.pick({"out", "a_b", "x.y"}), path = dir + "o" + std::to_string(r.below(9)) + "/" + name + suffix;
    vf::desc(Str() << "stack written as " << suffix << " " << Ty<T>::name() << " " << log);
    a->SetOutDataType(Ty<T>::rdt());
    VF_CHECK(a->OutputToFile(path), "write", "writing the layers failed");
    string sfx = suffix;
    for (auto& ch: sfx) ch = (char) tolower((unsigned char) ch);
    string real = sfx == ".img" ? path.substr(0, path.size() - 4) + ".tif" : path;
    if (sfx != ".asc" && !exists(numbered(real, 1)) && sfx == ".tif") real = path.substr(0, path.size() - 4) + ".tif";
    for (int l = 0; l < lyrs; l++) {
        string f = numbered(real, l + 1), at = Str() << "file " << f << " of layer " << l + 1;
        if (sfx == ".asc") {
            AscFile t;
            VF_CHECK(asc_read(f, t), "written:file", at + " is missing or no complete grid");
            VF_CHECK(t.g.rows == w.rows && t.g.cols == w.cols && close_enough(t.g.xll, w.xll, w.dx * (w.rows + w.cols)) && close_enough(t.g.yll, w.yll, w.dx * (w.rows + w.cols)), "written:extent", at + " has another extent");
            for (int i = 0; i < w.n(); i++) VF_CHECK(t.v[i] == (double) w.v[l][i], "written:cell", Str() << at << ": cell " << i << " is " << t.v[i] << ", expected " << (double) w.v[l][i]);
        } else compare_tif(f, w, l, "written", at);
    }
    VF_CHECK(!exists(numbered(real, lyrs + 1)) && !exists(numbered(real, 0)) && !exists(real), "written:extra", "there are more files than layers");
    vf::tally("layers compared", lyrs);
    vf::distinct(vf::hash_str(log, w.hash()));
}
M_KIND(stack, 1)
#endif
