// C01: GeoTIFF write/read round trip
#include "rast.hpp"
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters of all ten cell types (1-40 cells a side, 1-4 layers, values over the whole range of the type incl. infinities and NaN, any no-data value, coordinate systems, locations, and cell sizes) kept in full or compact storage, made from arrays or loaded from GeoTIFFs written by GDAL directly (striped, tiled, compressed, interleaved), are written by the library, and each file is read back both by GDAL directly and by the library and compared cell by cell and field by field with the model; distinct grids are counted.";
void vf_init() { init(); }
#else
template <class T> void roundtrip(vf::Case& c) {
    auto& r = c.r;
    GenOpt o;
    o.lyrs = gen_lyrs(r, .65, 2, 4);
    o.special = true;
    Grid<T> g = gen_grid<T>(r, o);
    g.srs = gen_srs(r);
    bool compact = r.chance(.5), fromfile = r.chance(.4), as2d = o.lyrs == 1 && !fromfile && r.chance(.2);
    string dir = vf::scratch() + "/";
    typedef Lib<T, T> L;
    typedef typename L::R R;
    vf::desc(Str() << "roundtrip " << (compact ? "compact " : "full ") << (fromfile ? "from file " : "from array ") << g.str());
    std::unique_ptr<R> a;
    bool cells_compact = compact; // cells invalid in layer one lose the other layers
    if (fromfile) {
        char** opt = nullptr;
        switch (r.below(4)) {
            case 0: break;
            case 1: opt = CSLSetNameValue(opt, "TILED", "YES"); opt = CSLSetNameValue(opt, "BLOCKXSIZE", "16"); opt = CSLSetNameValue(opt, "BLOCKYSIZE", "16"); break;
            case 2: opt = CSLSetNameValue(opt, "COMPRESS", "DEFLATE"); break;
            default: opt = CSLSetNameValue(opt, "COMPRESS", "LZW"); opt = CSLSetNameValue(opt, "BIGTIFF", "YES"); break;
        }
        vector<string> in;
        for (int l = 0; l < g.lyrs; l++) {
            in.push_back(dir + "in" + std::to_string(l) + ".tif");
            if (!gdal_write(in.back(), g, l, opt)) { CSLDestroy(opt); return; }
        }
        CSLDestroy(opt);
        a.reset(g.lyrs == 1 ? R::Init(in[0], compact) : R::Init(in, compact));
        VF_CHECK(a != nullptr, "read:refused", "a GeoTIFF written by GDAL is refused");
        // cells of other layers are unspecified where the first layer is no-data
        if (g.lyrs > 1) for (int i = 0; i < g.n(); i++) if (!g.valid(i)) for (int l = 1; l < g.lyrs; l++) g.v[l][i] = compact ? g.nodata : a->GetValue(i / g.cols, i % g.cols, l + 1);
        compare(a.get(), g, "read", "reading a file written by GDAL", compact);
        VF_CHECK(a->GetDataType() == Ty<T>::rdt() || sizeof(T) == 1, "read:type", Str() << "cell type of the source is reported as " << dr::RasterDataTypeToString(a->GetDataType()));
    } else {
        a.reset(L::make(g, as2d));
        VF_CHECK(a->Initialized(), "construct", "raster from an array is not initialized");
        if (compact) VF_CHECK(a->SetCalcPositions(), "calcpos", "SetCalcPositions failed");
    }
    static const char* names[] = {"out.tif", "out.TIF", "a b.tif", "x.y.tif", "sub/out.tif", "out.img"};
    string name = names[r.below(6)], path = dir + name;
    VF_CHECK(a->OutputToFile(path), "write:refused", "OutputToFile(" + name + ") failed");
    if (name == "out.img") path = dir + "out.tif";
    vector<string> files;
    for (int l = 0; l < g.lyrs; l++) {
        files.push_back(g.lyrs == 1 && !as2d ? path : numbered(path, l + 1)); // layers of a two-dimensional raster are numbered
        compare_tif(files.back(), g, l, "write", "writing " + name, cells_compact);
    }
    VF_CHECK(!exists(numbered(path, g.lyrs + 1)) && !exists(numbered(path, 0)), "write:extra", "more files than layers");
    // the raster itself is not changed by writing
    compare(a.get(), g, "after", "raster after writing it", cells_compact);
    // read it back by the library, in any storage
    bool compact2 = r.chance(.5);
    std::unique_ptr<R> b(g.lyrs == 1 ? R::Init(files[0], compact2) : R::Init(files, compact2));
    VF_CHECK(b != nullptr, "back:refused", "the library cannot read its own file");
    Grid<T> h = g;
    if (g.lyrs > 1) {
        for (int i = 0; i < g.n(); i++) if (!g.valid(i)) for (int l = 1; l < g.lyrs; l++) h.v[l][i] = compact2 || cells_compact ? g.nodata : b->GetValue(i / g.cols, i % g.cols, l + 1);
        compare(b.get(), h, "back", "reading the written files back");
    } else {
        compare(b.get(), g, "back", "reading the written file back");
    }
    if (r.chance(.3)) { // and once more through the second generation
        string p2 = dir + "again.tif";
        VF_CHECK(b->OutputToFile(p2), "write2:refused", "second write failed");
        for (int l = 0; l < g.lyrs; l++) if (g.lyrs == 1) compare_tif(p2, g, l, "write2", "second write");
        if (g.lyrs > 1) for (int l = 0; l < g.lyrs; l++) compare_tif(numbered(p2, l + 1), h, l, "write2", "second write");
        vf::tally("second generations");
    }
    vf::tally(compact ? "compact rasters" : "full rasters");
    if (g.lyrs > 1) vf::tally("multi-layer rasters");
    vf::distinct(g.hash());
}
M_KIND(roundtrip, 1)
#endif
