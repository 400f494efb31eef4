// C02: ASCII grid write/read round trip
#include "rast.hpp"
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters of all ten cell types (1-40 cells a side, 1-4 layers, values over the whole range of the type, any no-data value including ones whose text needs more than six digits, locations from 0 to 1e7 and cell sizes from 1e-4 to 1e3) in full or compact storage, from arrays or files, are written as ASCII grids; each file is parsed by an independent strict parser and read back by the library, and header, no-data set and six-digit values are compared with the model; distinct grids are counted.";
void vf_init() { init(); }
#else
template <class T> void roundtrip(vf::Case& c) {
    auto& r = c.r;
    GenOpt o;
    o.lyrs = gen_lyrs(r, .65, 2, 4);
    Grid<T> g = gen_grid<T>(r, o);
    if (sizeof(T) == 8 && std::numeric_limits<T>::is_integer) { // text is read through double precision
        auto lim = [](T x) -> T { return (T) (x / 2048); };
        bool ndlim = std::fabs((double) g.nodata) > 9e15;
        T nd = ndlim ? lim(g.nodata) : g.nodata;
        for (auto& l: g.v) for (auto& x: l) { if (x == g.nodata) { x = nd; continue; } if (std::fabs((double) x) > 9e15) { x = lim(x); if (x == nd) x = nd == 5 ? 6 : 5; } else if (x == nd) x = nd == 5 ? 6 : 5; }
        g.nodata = nd;
    }
    if (!std::numeric_limits<T>::is_integer && r.chance(.15)) { // valid values which look like no-data in six digits
        T nd = (T) r.pickv({-9999.4375, 12345.678, -3.4028234663852886e+38, 0.333333333, -9999., -9999., 0.5, 100., -1e10, -99., -32768.});
        for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) g.nodata)) x = nd; else if (r.chance(.3) || x == nd) { T y = (T) ((double) nd * (1 + std::pow(10., -(double) r.pickv({6, 7, 7, 8, 10, 13})) * (1 + (double) r.below(8)) * (nd < -1e38 ? -1 : 1))); if (y != nd && std::isfinite((double) y)) x = y; else if (x == nd) x = 1; }
        g.nodata = nd;
        vf::tally("values close to no-data");
    }
    bool compact = r.chance(.5), fromfile = r.chance(.25), as2d = o.lyrs == 1 && !fromfile && r.chance(.2);
    string dir = vf::scratch() + "/";
    typedef Lib<T, T> L;
    typedef typename L::R R;
    vf::desc(Str() << "roundtrip " << (compact ? "compact " : "full ") << (fromfile ? "from file " : "from array ") << g.str());
    std::unique_ptr<R> a;
    if (fromfile) {
        vector<string> in;
        for (int l = 0; l < g.lyrs; l++) {
            in.push_back(dir + "in" + std::to_string(l) + ".tif");
            if (!gdal_write(in.back(), g, l)) return;
        }
        a.reset(g.lyrs == 1 ? R::Init(in[0], compact) : R::Init(in, compact));
        VF_CHECK(a != nullptr, "read:refused", "a GeoTIFF written by GDAL is refused");
        if (g.lyrs > 1) for (int i = 0; i < g.n(); i++) if (!g.valid(i)) for (int l = 1; l < g.lyrs; l++) g.v[l][i] = compact ? g.nodata : a->GetValue(i / g.cols, i % g.cols, l + 1);
    } else {
        a.reset(L::make(g, as2d));
        if (compact) VF_CHECK(a->SetCalcPositions(), "calcpos", "SetCalcPositions failed");
    }
    string name = r.pick({"out.asc", "out.ASC", "a b.asc", "x.y.asc", "sub/out.asc"}), path = dir + name;
    VF_CHECK(a->OutputToFile(path), "write:refused", "OutputToFile(" + name + ") failed");
    double sc = g.dx * (g.rows + g.cols);
    vector<string> files;
    for (int l = 0; l < g.lyrs; l++) {
        string f = g.lyrs == 1 && !as2d ? path : numbered(path, l + 1);
        files.push_back(f);
        AscFile t;
        VF_CHECK(asc_read(f, t), "file:invalid", "the file " + f + " is missing or no complete ASCII grid");
        VF_CHECK(t.g.rows == g.rows && t.g.cols == g.cols, "file:size", Str() << "file has size " << t.g.rows << "x" << t.g.cols);
        VF_CHECK(close_enough(t.g.xll, g.xll, sc) && close_enough(t.g.yll, g.yll, sc), "file:location", Str() << "lower left in file is " << t.g.xll << "," << t.g.yll << ", expected " << g.xll << "," << g.yll);
        VF_CHECK(close_enough(t.g.dx, g.dx, 0), "file:cellsize", Str() << "cell size in file is " << t.g.dx << ", expected " << g.dx);
        VF_CHECK(t.has_nd, "file:nodata", "no no-data value in file");
        for (int i = 0; i < g.n(); i++) {
            bool nd = g.nd(l, i) || (compact && !g.valid(i));
            string at = Str() << "cell (" << i / g.cols << "," << i % g.cols << ") of layer " << l + 1 << " in file is " << t.text[i] << ", no-data in file " << t.nd_text << ", expected ";
            if (nd) VF_CHECK((T) t.v[i] == (T) t.nd && t.v[i] == t.nd, "file:cell-nodata", at + "no-data");
            else VF_CHECK(six<T>(t.v[i], g.v[l][i]) && t.v[i] != t.nd, "file:cell", at + sv(g.v[l][i]));
        }
        vf::tally("file cells compared", g.n());
    }
    VF_CHECK(!exists(numbered(path, g.lyrs + 1)) && !exists(numbered(path, 0)), "write:extra", "more files than layers");
    compare(a.get(), g, "after", "raster after writing it", compact, false);
    bool compact2 = r.chance(.5);
    std::unique_ptr<R> b(g.lyrs == 1 ? R::Init(files[0], compact2) : R::Init(files, compact2));
    VF_CHECK(b != nullptr, "back:refused", "the library cannot read its own file");
    VF_CHECK(b->GetRows() == g.rows && b->GetCols() == g.cols && b->GetLayers() == g.lyrs, "back:size", Str() << "size read back is " << b->GetRows() << "x" << b->GetCols() << " layers " << b->GetLayers());
    VF_CHECK(close_enough(b->GetXllCenter(), g.xll, sc) && close_enough(b->GetYllCenter(), g.yll, sc), "back:location", Str() << "lower left read back is " << b->GetXllCenter() << "," << b->GetYllCenter() << ", expected " << g.xll << "," << g.yll);
    VF_CHECK(close_enough(b->GetCellWidth(), g.dx, 0), "back:cellsize", Str() << "cell size read back is " << b->GetCellWidth());
    for (int l = 0; l < g.lyrs; l++)
        for (int i = 0; i < g.n(); i++) {
            if (l > 0 && !g.valid(i)) continue; // other layers are unspecified where the first is no-data
            T got = b->GetValue(i / g.cols, i % g.cols, l + 1);
            bool nd = ndeq((double) got, (double) b->GetNoDataValue());
            VF_CHECK(nd == g.nd(l, i), "back:nodata-set", Str() << "cell (" << i / g.cols << "," << i % g.cols << ") of layer " << l + 1 << " read back is " << +got << " (no-data " << +b->GetNoDataValue() << "), expected " << +g.v[l][i] << " (no-data " << +g.nodata << ")");
            if (!nd) VF_CHECK(six<T>((double) got, g.v[l][i]), "back:cell", Str() << "cell (" << i / g.cols << "," << i % g.cols << ") of layer " << l + 1 << " read back is " << +got << ", expected " << +g.v[l][i]);
        }
    vf::tally("cells compared", (uint64_t) g.n() * g.lyrs);
    if (!std::numeric_limits<T>::is_integer) VF_CHECK(!exists(path + ".aux.xml"), "extra", "unexpected file");
    vf::distinct(g.hash());
}
M_KIND(roundtrip, 1)
#endif
