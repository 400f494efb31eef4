// C04: output type conversion
#include "rast.hpp"
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters of every cell type written as GeoTIFF with every output type (by option and by name, from arrays and files, full and compact), their values drawn around the limits of the output type, halfway points of single precision, fractions, infinities, NaN and values that collide with the no-data value after conversion; the decision to write or refuse and every cell of the file, read by GDAL, are compared with exact conversion rules; distinct (grid, type) pairs are counted.";
void vf_init() { init(); }
#else
template <class T, class O> void one(vf::Case& c) {
    auto& r = c.r;
    typedef std::numeric_limits<T> LT;
    typedef std::numeric_limits<O> LO;
    GenOpt o;
    o.lyrs = r.chance(.85) ? 1 : 2;
    o.special = true;
    Grid<T> g = gen_grid<T>(r, o);
    // keep most rasters inside the output type, with a few values at its limits
    int style = (int) r.below(6);
    vector<double> lim;
    for (double d: {(double) LO::lowest(), (double) LO::max()}) for (double e: {-2., -1., -.75, -.5, -.25, 0., .25, .5, .75, 1., 2.}) lim.push_back(d + e);
    for (double d: {0.5, -0.5, 0.99999999, -0.99999999, 1.0000000596046448, 16777217., 16777219., -16777217., 3.4028235e38, 3.4028236e38, -3.4028236e38, 1e300, 9007199254740993., -0.}) lim.push_back(d);
    for (double d: {(double) g.nodata + .3, (double) g.nodata - .3, (double) g.nodata * (1 + 1e-12), (double) g.nodata, -128., 255., 127., -32768., 65535.}) lim.push_back(d);
    auto cast = [&](double d) -> T {
        if (LT::is_integer) { double t = std::floor(d); if (!(t >= (double) LT::lowest())) return LT::lowest(); if (t >= std::ldexp(1., LT::digits)) return LT::max(); return (T) t; }
        if (std::fabs(d) > (double) LT::max() && std::isfinite(d)) return d < 0 ? LT::lowest() : LT::max();
        return (T) d;
    };
    for (auto& l: g.v)
        for (auto& x: l) {
            if (ndeq((double) x, (double) g.nodata)) continue;
            O t;
            double u = r.unit();
            if (style <= 2 && (!Conv<T, O>::fits(x, t) || (style == 0 && ndeq((double) t, (double) g.nodata)))) x = cast(LO::is_signed ? (double) r.range(-40, 40) : (double) r.range(0, 80));
            if (style == 2 && u < .02) x = cast(r.pick(lim));
            if (style >= 3 && u < .3) x = cast(r.pick(lim));
            if (style == 4 && !Conv<T, O>::fits(x, t)) x = cast(3);
        }
    for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) g.nodata)) x = g.nodata; // a zero is a zero
    if (g.nvalid() == 0) g.v[0][0] = (T) (ndeq(1, (double) g.nodata) ? 2 : 1);
    bool compact = r.chance(.4), fromfile = r.chance(.25);
    g.srs = r.chance(.2) ? gen_srs(r) : "";
    typedef Lib<T, T> L;
    typedef typename L::R R;
    vf::desc(Str() << "to " << Ty<O>::name() << " " << (compact ? "compact " : "full ") << g.str());
    string dir = vf::scratch() + "/";
    std::unique_ptr<R> a;
    ccgl::STRING_MAP opts;
    int how = (int) r.below(3); // how the type is requested
    static const char* nm[] = {"", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"};
    string tname = nm[Ty<O>::rdt()];
    if (r.chance(.3)) for (auto& ch: tname) ch = (char) tolower(ch);
    if (how == 2) opts["DATATYPE_OUT"] = tname;
    if (fromfile) {
        vector<string> in;
        for (int l = 0; l < g.lyrs; l++) { in.push_back(dir + "in" + std::to_string(l) + ".tif"); if (!gdal_write(in.back(), g, l)) return; }
        a.reset(g.lyrs == 1 ? R::Init(in[0], compact, nullptr, true, -9999., opts) : R::Init(in, compact, nullptr, true, -9999., opts));
        VF_CHECK(a != nullptr, "read:refused", "a GeoTIFF written by GDAL is refused");
    } else {
        if (g.lyrs == 1) a.reset(new R(L::arr(g), g.cols, g.rows, g.nodata, g.dx, g.xll, g.yll, opts));
        else a.reset(new R(L::arr2(g), g.cols, g.rows, g.lyrs, g.nodata, g.dx, g.xll, g.yll, opts));
        if (compact) VF_CHECK(a->SetCalcPositions(), "calcpos", "SetCalcPositions failed");
    }
    if (how == 0) a->SetOutDataType(Ty<O>::rdt());
    if (how == 1) a->SetOutDataType(tname);
    Grid<T> m = g; // what the raster holds
    for (int l = 0; l < g.lyrs; l++) for (int i = 0; i < g.n(); i++) m.v[l][i] = l == 0 && g.nd(0, i) ? g.nodata : a->GetValue(i / g.cols, i % g.cols, l + 1);
    for (int i = 0; i < g.n(); i++) VF_CHECK(same<T>(m.v[0][i], g.v[0][i]), "memory", "the raster does not hold its data");
    // Expected outcome. The no-data value of the file is the raster's if the output type can hold it, else any other.
    O ndo = O();
    bool nd_fits = Conv<T, O>::fits(g.nodata, ndo) && (!LO::is_integer || (double) ndo == (double) g.nodata);
    const double ndw = nd_fits && !LO::is_integer ? (double) ndo : (double) g.nodata; // rounded in a floating point file
    bool same_type = Ty<T>::rdt() == Ty<O>::rdt();
    bool outside = false, clash = false, unsure = false;
    vector<vector<O>> want(g.lyrs, vector<O>(g.n()));
    for (int l = 0; l < g.lyrs; l++)
        for (int i = 0; i < g.n(); i++) {
            T x = m.v[l][i];
            if (m.nd(l, i)) continue;
            if (!Conv<T, O>::fits(x, want[l][i])) outside = true;
            else if (nd_fits && ndeq((double) want[l][i], ndw)) clash = true;
            else if (!nd_fits && !same_type && (ndeq((double) want[l][i], (double) LO::lowest()) || ndeq((double) want[l][i], (double) LO::max()) || ndeq((double) want[l][i], -3.4028234663852886e+38))) unsure = true;
        }
    string path = dir + "out.tif";
    bool ok = a->OutputToFile(path);
    if (outside) VF_CHECK(!ok, "outside-range-written", Str() << "a value outside " << Ty<O>::name() << " did not make the write fail");
    if (!outside && !clash && !unsure) VF_CHECK(ok, "refused", Str() << "writing as " << Ty<O>::name() << " was refused although every value fits");
    vf::tally(ok ? "written" : "refused");
    if (ok) {
        for (int l = 0; l < g.lyrs; l++) {
            TifFile<O> f;
            string p = g.lyrs == 1 ? path : numbered(path, l + 1);
            VF_CHECK(gdal_read(p, f), "file", Str() << "file missing or of cell type " << GDALGetDataTypeName(f.type) << " instead of " << Ty<O>::name());
            VF_CHECK(f.g.rows == g.rows && f.g.cols == g.cols && f.has_nd, "file-header", "size or no-data value of the file is wrong");
            if (nd_fits) VF_CHECK(ndeq(f.nd, ndw), "file-nodata", Str() << "no-data value of the file is " << f.nd << ", expected " << ndw);
            for (int i = 0; i < g.n(); i++) {
                O got = f.v[i];
                string at = Str() << "cell (" << i / g.cols << "," << i % g.cols << ") layer " << l + 1 << " holding " << +m.v[l][i] << " (no-data " << +g.nodata << ") is " << +got << " in a " << Ty<O>::name() << " file with no-data " << f.nd;
                bool is = ndeq((double) got, f.nd);
                if (m.nd(l, i)) VF_CHECK(is, "nodata-lost", at);
                else {
                    VF_CHECK(!is, "became-nodata", at);
                    VF_CHECK(same<O>(got, want[l][i]), "altered", at + ", expected " + sv(want[l][i]));
                }
            }
            vf::tally("file cells compared", g.n());
        }
    }
    // the raster is not changed
    for (int l = 0; l < g.lyrs; l++) for (int i = 0; i < g.n(); i++) if (l == 0 || g.valid(i)) VF_CHECK(same<T>(a->GetValue(i / g.cols, i % g.cols, l + 1), m.v[l][i]), "memory-changed", "writing changed the raster in memory");
    vf::tally(string("pair ") + Ty<T>::name() + ">" + Ty<O>::name());
    vf::distinct(vf::mix(g.hash(), Ty<O>::rdt()));
}
template <class T> void convert(vf::Case& c) {
    switch (c.r.below(10)) {
        case 0: one<T, int8_t>(c); break;
        case 1: one<T, uint8_t>(c); break;
        case 2: one<T, int16_t>(c); break;
        case 3: one<T, uint16_t>(c); break;
        case 4: one<T, int32_t>(c); break;
        case 5: one<T, uint32_t>(c); break;
        case 6: one<T, int64_t>(c); break;
        case 7: one<T, uint64_t>(c); break;
        case 8: one<T, float>(c); break;
        default: one<T, double>(c); break;
    }
}
M_KIND(convert, 1)
#endif
