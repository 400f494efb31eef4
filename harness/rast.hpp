// Reference model of rasters, generators, and file access that does not go through the code under test.
#ifndef VF_RAST_HPP
#define VF_RAST_HPP
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <typeinfo>
#include <vector>
#include <gdal_priv.h>
#include <ogr_spatialref.h>
#include "vf.hpp"
#include "data_raster.hpp"
namespace m {
using vf::Rng;
using vf::Str;
using std::string;
using std::vector;
namespace dr = ccgl::data_raster;
using dr::ROW_COL;
using dr::XY_COOR;

inline void init(bool unpriv = true) {
    if (!getenv("VF_SHOW") && !freopen("/dev/null", "w", stdout)) {}
    GDALAllRegister();
    CPLSetErrorHandler(CPLQuietErrorHandler);
    if (unpriv) vf::drop_privileges();
}
template <class T> struct Ty;
#define M_TY(T, N, G, R) template <> struct Ty<T> { static const char* name() { return N; } static GDALDataType gdal() { return G; } static dr::RasterDataType rdt() { return dr::R; } };
M_TY(int8_t, "int8", GDT_Int8, RDT_Int8)
M_TY(uint8_t, "uint8", GDT_Byte, RDT_UInt8)
M_TY(int16_t, "int16", GDT_Int16, RDT_Int16)
M_TY(uint16_t, "uint16", GDT_UInt16, RDT_UInt16)
M_TY(int32_t, "int32", GDT_Int32, RDT_Int32)
M_TY(uint32_t, "uint32", GDT_UInt32, RDT_UInt32)
M_TY(int64_t, "int64", GDT_Int64, RDT_Int64)
M_TY(uint64_t, "uint64", GDT_UInt64, RDT_UInt64)
M_TY(float, "float", GDT_Float32, RDT_Float)
M_TY(double, "double", GDT_Float64, RDT_Double)

template <class T> inline bool same(T a, T b) {
    if (std::numeric_limits<T>::is_integer) return a == b;
    double x = (double) a, y = (double) b;
    if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
    return x == y && std::signbit(x) == std::signbit(y);
}
inline bool ndeq(double v, double nd) { return std::fabs(v - nd) < 1e-32; } // the library's documented notion of equality
template <class T> inline string sv(T v) { Str s; s << +v; return s; }

struct Geo {
    int rows, cols;
    double xll, yll, dx; // centre of the lower left cell
    double cx(int c) const { return xll + c * dx; }
    double cy(int r) const { return yll + (rows - 1 - r) * dx; }
    int n() const { return rows * cols; }
    string str() const { return Str() << rows << "x" << cols << " at " << xll << "," << yll << " cell " << dx; }
    // the cell whose half open square [left,right) x (bottom,top] contains the point; -1 outside
    int cell(double x, double y) const {
        double fc = (x - (xll - dx / 2)) / dx, fr = (yll - dx / 2 + rows * dx - y) / dx;
        if (!(fc >= 0) || !(fr >= 0) || fc >= cols || fr >= rows) return -1;
        return (int) std::floor(fr) * cols + (int) std::floor(fc);
    }
};
template <class T> struct Grid: Geo {
    int lyrs;
    T nodata;
    string srs;
    vector<vector<T>> v; // [layer][row * cols + col]
    bool nd(int l, int i) const { return ndeq((double) v[l][i], (double) nodata); }
    bool valid(int i) const { return !nd(0, i); } // a cell is valid by its first layer
    int nvalid(int l = 0) const { int k = 0; for (int i = 0; i < n(); i++) k += !nd(l, i); return k; }
    uint64_t hash() const {
        uint64_t h = vf::mix((uint64_t) rows * 7919 + cols, lyrs);
        for (auto& x: v) h = vf::hash_bytes(x.data(), x.size() * sizeof(T), h);
        return vf::hash_bytes(&nodata, sizeof(T), h);
    }
    string str() const {
        Str s;
        s << Ty<T>::name() << " " << Geo::str() << " layers " << lyrs << " nodata " << +nodata << " {";
        int k = 0;
        for (auto& x: v) { for (auto y: x) { if (k++ < 24) s << +y << " "; } s << "|"; }
        return (string) s + (k >= 24 ? "...}" : "}");
    }
};
// a value written as another cell type: whether it fits, and what it becomes
template <class T, class O> struct Conv {
    typedef std::numeric_limits<T> LT;
    typedef std::numeric_limits<O> LO;
    static bool fits(T x, O& o) {
        if (LT::is_integer && LO::is_integer) {
            __int128 v = (__int128) x;
            if (v < (__int128) LO::lowest() || v > (__int128) LO::max()) return false;
            o = (O) x;
            return true;
        }
        if (LT::is_integer) { o = (O) x; return true; }
        double d = (double) x;
        if (LO::is_integer) {
            if (!std::isfinite(d)) return false;
            double t = std::trunc(d);
            if (t < (double) LO::lowest() || t >= std::ldexp(1., LO::digits)) return false;
            o = (O) t;
            return true;
        }
        if (std::isfinite(d) && std::fabs(d) > (double) LO::max()) return false;
        o = (O) d;
        return true;
    }
};
// ---- generators ---------------------------------------------------------
struct Dims { int maxr, maxc; };
inline int gen_lyrs(Rng& r, double single, int lo, int hi) { return r.chance(single) ? 1 : r.chance(.03) ? (int) r.range(9, 13) : (int) r.range(lo, hi); }
inline Geo gen_geo(Rng& r, int big = 0) {
    Geo g;
    int top = r.chance(.55) ? 7 : r.chance(.8) ? 16 : big ? big : 40;
    g.rows = (int) r.range(1, top);
    g.cols = (int) r.range(1, top);
    if (r.chance(1. / 800)) { // more cells, rows or columns than 16 bits count
        switch (r.below(3)) {
            case 0: g.rows = (int) r.range(257, 300); g.cols = (int) r.range(257, 300); break;
            case 1: g.rows = (int) r.range(1, 2); g.cols = (int) r.range(33000, 70000); break;
            default: g.rows = (int) r.range(33000, 70000); g.cols = (int) r.range(1, 2);
        }
    }
    g.dx = r.pickv({1., 1., 1., 10., 30., 0.5, 90.5, 0.1, 0.0008333333333333334, 1000.25});
    switch (r.below(5)) {
        case 0: g.xll = 0; g.yll = 0; break;
        case 1: g.xll = (double) r.range(-50, 50) * g.dx; g.yll = (double) r.range(-50, 50) * g.dx; break;
        case 2: g.xll = 5e5 + (double) r.range(0, 1000) * g.dx; g.yll = 4e6 + (double) r.range(0, 1000) * g.dx; break;
        case 3: g.xll = r.real(-180, 180); g.yll = r.real(-90, 90); break;
        default: g.xll = r.real(-1e6, 1e6); g.yll = r.real(-1e7, 1e7); break;
    }
    return g;
}
template <class T> inline T gen_nodata(Rng& r) {
    typedef std::numeric_limits<T> L;
    vector<double> c;
    for (double d: {-9999., -9999., -1., 0., 255., -128., -32768., 65535., 127., 99.}) if (d >= (double) L::lowest() && d <= (double) L::max()) c.push_back(d);
    if (r.chance(.2)) return r.chance(.5) ? L::lowest() : L::max();
    if (!L::is_integer && r.chance(.15)) return (T) r.pickv({-3.4028234663852886e+38, -9999.5, -1e30, 0.1});
    return (T) r.pick(c);
}
// mode 0: small integers, 1: ordinary, 2: whole range with extremes
template <class T> inline T gen_value(Rng& r, int mode, bool special = false) {
    typedef std::numeric_limits<T> L;
    if (mode == 0) { T x = (T) r.range(L::is_signed ? -6 : 0, 9); return x; }
    if (L::is_integer) {
        if (mode == 1) return (T) r.range(L::is_signed ? (long long) std::max<double>(-30000, (double) L::lowest()) : 0, (long long) std::min<double>(60000, (double) L::max()));
        if (r.chance(.2)) return r.pickv({L::lowest(), L::max(), (T) (L::max() - 1), (T) (L::lowest() + 1), (T) 0});
        T x; uint64_t b = r.next(); memcpy(&x, &b, sizeof(T)); return x;
    }
    if (mode == 1) return (T) (r.chance(.3) ? (double) r.range(-100000, 100000) / 8 : r.real(-1000, 1000));
    if (special && r.chance(.1)) return r.pickv({L::infinity(), (T) -L::infinity(), L::quiet_NaN(), (T) -0.0});
    if (r.chance(.15)) return r.pickv({L::lowest(), L::max(), L::min(), L::denorm_min(), (T) 0, L::epsilon()});
    for (;;) { T x; uint64_t b = r.next(); memcpy(&x, &b, sizeof(T)); if (std::isfinite((double) x)) return x; }
}
struct GenOpt {
    int lyrs; bool special; double pnd; int mode; int big;
    GenOpt(): lyrs(1), special(false), pnd(-1), mode(-1), big(0) {}
};
// At least one cell of the first layer is valid.
template <class T> inline void fill(Rng& r, Grid<T>& g, const GenOpt& o) {
    int mode = o.mode >= 0 ? o.mode : (int) r.below(3);
    double p = o.pnd >= 0 ? o.pnd : r.pickv({0., .1, .3, .3, .6, .9});
    g.v.assign(g.lyrs, vector<T>(g.n()));
    auto value = [&]() -> T {
        T x;
        int k = 0;
        do { x = gen_value<T>(r, mode, o.special); } while (ndeq((double) x, (double) g.nodata) && ++k < 50);
        return ndeq((double) x, (double) g.nodata) ? (T) (ndeq(1, (double) g.nodata) ? 2 : 1) : x;
    };
    int keep = (int) r.below(g.n());
    bool rim = r.chance(.25); // no-data rim around the data
    for (int l = 0; l < g.lyrs; l++)
        for (int i = 0; i < g.n(); i++) {
            int row = i / g.cols, col = i % g.cols;
            bool nd = r.chance(p) || (rim && (row == 0 || col == 0 || row == g.rows - 1 || col == g.cols - 1));
            if (l == 0 && i == keep) nd = false;
            g.v[l][i] = nd ? g.nodata : value();
        }
}
inline string gen_srs(Rng& r) {
    switch (r.below(6)) {
        case 0: case 1: return "";
        case 2: return "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563,AUTHORITY[\"EPSG\",\"7030\"]],AUTHORITY[\"EPSG\",\"6326\"]],PRIMEM[\"Greenwich\",0,AUTHORITY[\"EPSG\",\"8901\"]],UNIT[\"degree\",0.0174532925199433,AUTHORITY[\"EPSG\",\"9122\"]],AXIS[\"Latitude\",NORTH],AXIS[\"Longitude\",EAST],AUTHORITY[\"EPSG\",\"4326\"]]";
        case 3: return "PROJCS[\"WGS 84 / UTM zone 50N\",GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563,AUTHORITY[\"EPSG\",\"7030\"]],AUTHORITY[\"EPSG\",\"6326\"]],PRIMEM[\"Greenwich\",0,AUTHORITY[\"EPSG\",\"8901\"]],UNIT[\"degree\",0.0174532925199433,AUTHORITY[\"EPSG\",\"9122\"]],AUTHORITY[\"EPSG\",\"4326\"]],PROJECTION[\"Transverse_Mercator\"],PARAMETER[\"latitude_of_origin\",0],PARAMETER[\"central_meridian\",117],PARAMETER[\"scale_factor\",0.9996],PARAMETER[\"false_easting\",500000],PARAMETER[\"false_northing\",0],UNIT[\"metre\",1,AUTHORITY[\"EPSG\",\"9001\"]],AXIS[\"Easting\",EAST],AXIS[\"Northing\",NORTH],AUTHORITY[\"EPSG\",\"32650\"]]";
        default: return "PROJCS[\"custom\",GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"degree\",0.0174532925199433]],PROJECTION[\"Albers_Conic_Equal_Area\"],PARAMETER[\"latitude_of_center\",0],PARAMETER[\"longitude_of_center\",105],PARAMETER[\"standard_parallel_1\",25],PARAMETER[\"standard_parallel_2\",47],PARAMETER[\"false_easting\",0],PARAMETER[\"false_northing\",0],UNIT[\"metre\",1],AXIS[\"Easting\",EAST],AXIS[\"Northing\",NORTH]]";
    }
}
inline bool same_srs(const string& a, const string& b) {
    if (a.empty() || b.empty()) return a.empty() && b.empty();
    if (a == b) return true;
    OGRSpatialReference x, y;
    return x.importFromWkt(a.c_str()) == OGRERR_NONE && y.importFromWkt(b.c_str()) == OGRERR_NONE && x.IsSame(&y);
}
template <class T> inline Grid<T> gen_grid(Rng& r, const GenOpt& o = GenOpt()) {
    Grid<T> g;
    (Geo&) g = gen_geo(r, o.big);
    g.lyrs = o.lyrs;
    g.nodata = gen_nodata<T>(r);
    fill(r, g, o);
    return g;
}
// ---- files written and read without the code under test ------------------
inline bool close_enough(double a, double b, double scale) { return std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b) + scale); }

template <class T> inline bool gdal_write(const string& path, const Grid<T>& g, int lyr = 0, char** opt = nullptr, bool declare_nodata = true) {
    GDALDriver* d = GetGDALDriverManager()->GetDriverByName("GTiff");
    GDALDataset* ds = d->Create(path.c_str(), g.cols, g.rows, 1, Ty<T>::gdal(), opt);
    if (!ds) return false;
    double gt[6] = {g.xll - .5 * g.dx, g.dx, 0, g.yll + (g.rows - .5) * g.dx, 0, -g.dx};
    ds->SetGeoTransform(gt);
    if (!g.srs.empty()) ds->SetProjection(g.srs.c_str());
    GDALRasterBand* b = ds->GetRasterBand(1);
    if (declare_nodata) {
        if (Ty<T>::gdal() == GDT_Int64) b->SetNoDataValueAsInt64((int64_t) g.nodata);
        else if (Ty<T>::gdal() == GDT_UInt64) b->SetNoDataValueAsUInt64((uint64_t) g.nodata);
        else b->SetNoDataValue((double) g.nodata);
    }
    bool ok = b->RasterIO(GF_Write, 0, 0, g.cols, g.rows, (void*) g.v[lyr].data(), g.cols, g.rows, Ty<T>::gdal(), 0, 0) == CE_None;
    GDALClose(ds);
    return ok;
}
template <class T> struct TifFile { // what a file holds, in the file's own cell type
    TifFile(): type(GDT_Unknown), has_nd(false), nd(0), nd64(0), ndu64(0), bands(0) {}
    Geo g; GDALDataType type; string srs; bool has_nd; double nd; int64_t nd64; uint64_t ndu64; int bands; vector<T> v;
};
inline bool tif_type(const string& path, GDALDataType& t) {
    GDALDataset* ds = (GDALDataset*) GDALOpen(path.c_str(), GA_ReadOnly);
    if (!ds) return false;
    t = ds->GetRasterBand(1)->GetRasterDataType();
    GDALClose(ds);
    return true;
}
template <class T> inline bool gdal_read(const string& path, TifFile<T>& f) { // cells are fetched as T, which must be the file's type
    GDALDataset* ds = (GDALDataset*) GDALOpen(path.c_str(), GA_ReadOnly);
    if (!ds) { f.srs = CPLGetLastErrorMsg(); return false; }
    f.bands = ds->GetRasterCount();
    GDALRasterBand* b = ds->GetRasterBand(1);
    f.type = b->GetRasterDataType();
    f.g.rows = b->GetYSize();
    f.g.cols = b->GetXSize();
    double gt[6] = {0, 0, 0, 0, 0, 0};
    bool geo = ds->GetGeoTransform(gt) == CE_None;
    f.g.dx = gt[1];
    f.g.xll = gt[0] + .5 * gt[1];
    f.g.yll = gt[3] + (f.g.rows - .5) * gt[5];
    if (gt[2] != 0 || gt[4] != 0 || gt[5] != -gt[1]) geo = false;
    f.srs = ds->GetProjectionRef();
    int has = 0;
    f.nd = 0; f.nd64 = 0; f.ndu64 = 0;
    if (f.type == GDT_Int64) { f.nd64 = b->GetNoDataValueAsInt64(&has); f.nd = (double) f.nd64; }
    else if (f.type == GDT_UInt64) { f.ndu64 = b->GetNoDataValueAsUInt64(&has); f.nd = (double) f.ndu64; }
    else f.nd = b->GetNoDataValue(&has);
    f.has_nd = has != 0;
    f.v.resize((size_t) f.g.n());
    bool ok = f.type == Ty<T>::gdal() && b->RasterIO(GF_Read, 0, 0, f.g.cols, f.g.rows, f.v.data(), f.g.cols, f.g.rows, Ty<T>::gdal(), 0, 0) == CE_None;
    GDALClose(ds);
    return ok && geo;
}
struct AscFile { Geo g; bool has_nd; string nd_text; double nd; vector<string> text; vector<double> v; };
// strict reader of the grid text; false if it is no complete grid
inline bool asc_read(const string& path, AscFile& f) {
    string b;
    if (!vf::read_file(path, b)) return false;
    vector<string> tok;
    string cur;
    for (char ch: b) { if (strchr(" \t\r\n", ch) && ch) { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += ch; }
    if (!cur.empty()) tok.push_back(cur);
    auto up = [](string s) { for (auto& ch: s) ch = (char) toupper((unsigned char) ch); return s; };
    auto num = [](const string& s, double& d) { char* e; d = strtod(s.c_str(), &e); return !s.empty() && *e == 0; };
    size_t i = 0;
    bool r = false, c = false, x = false, y = false, d = false, xc = false, yc = false;
    f.has_nd = false;
    double t;
    while (i + 1 < tok.size() && isalpha((unsigned char) tok[i][0]) && up(tok[i]) != "NAN" && up(tok[i]) != "INF") {
        string k = up(tok[i]);
        if (!num(tok[i + 1], t)) return false;
        if (k == "NCOLS") { f.g.cols = (int) t; c = true; }
        else if (k == "NROWS") { f.g.rows = (int) t; r = true; }
        else if (k == "XLLCENTER" || k == "XLLCORNER") { f.g.xll = t; x = true; xc = k == "XLLCORNER"; }
        else if (k == "YLLCENTER" || k == "YLLCORNER") { f.g.yll = t; y = true; yc = k == "YLLCORNER"; }
        else if (k == "CELLSIZE") { f.g.dx = t; d = true; }
        else if (k == "NODATA_VALUE") { f.nd = t; f.nd_text = tok[i + 1]; f.has_nd = true; }
        else return false;
        i += 2;
    }
    if (!r || !c || !x || !y || !d || f.g.rows < 1 || f.g.cols < 1) return false;
    if (xc) f.g.xll += .5 * f.g.dx;
    if (yc) f.g.yll += .5 * f.g.dx;
    if (tok.size() - i != (size_t) f.g.n()) return false;
    for (; i < tok.size(); i++) { if (!num(tok[i], t)) return false; f.text.push_back(tok[i]); f.v.push_back(t); }
    return true;
}
template <class T> inline string asc_text(const Grid<T>& g, int lyr = 0, int style = 0) {
    Str s;
    s << "NCOLS " << g.cols << "\nNROWS " << g.rows << "\n";
    if (style & 1) s << "XLLCORNER " << g.xll - .5 * g.dx << "\nYLLCORNER " << g.yll - .5 * g.dx << "\n";
    else s << "XLLCENTER " << g.xll << "\nYLLCENTER " << g.yll << "\n";
    s << "CELLSIZE " << g.dx << "\nNODATA_VALUE " << +g.nodata << "\n";
    for (int i = 0; i < g.n(); i++) s << +g.v[lyr][i] << ((i + 1) % g.cols ? " " : "\n");
    return s;
}
// equal at the six significant digits an ASCII grid is written with
template <class T> inline bool six(double got, T want) {
    double w = (double) want;
    if (std::numeric_limits<T>::is_integer && std::fabs(w) < 1e6) return got == w;
    if (got == w || (T) got == want) return true;
    char b[64];
    snprintf(b, sizeof b, "%.5e", w); // six significant digits
    double s = strtod(b, nullptr);
    return got == s || (double) (T) got == (double) (T) s || std::fabs(got - w) <= 5.0000001e-6 * std::fabs(w);
}
// ---- rasters of the library ---------------------------------------------
template <class T, class M = T> struct Lib {
    typedef dr::clsRasterData<T, M> R;
    static T* arr(const Grid<T>& g) { T* d = nullptr; ccgl::utils_array::Initialize1DArray(g.n(), d, g.v[0].data()); return d; }
    static T** arr2(const Grid<T>& g) {
        T** d = nullptr;
        ccgl::utils_array::Initialize2DArray(g.n(), g.lyrs, d, T());
        for (int i = 0; i < g.n(); i++) for (int l = 0; l < g.lyrs; l++) d[i][l] = g.v[l][i];
        return d;
    }
    static R* make(const Grid<T>& g, bool as2d = false) {
        ccgl::STRING_MAP o;
        if (!g.srs.empty()) o["SRS"] = g.srs;
        if (g.lyrs > 1 || as2d) return new R(arr2(g), g.cols, g.rows, g.lyrs, g.nodata, g.dx, g.xll, g.yll, o);
        return new R(arr(g), g.cols, g.rows, g.nodata, g.dx, g.xll, g.yll, o);
    }
};
// Compares a raster with the model through its accessors. compact: cells invalid in the first layer hold no-data in every layer.
template <class R, class T> inline void compare(R* r, const Grid<T>& g, const string& sig, const string& what, bool compact = false, bool srs = true, bool nodata = true) {
    VF_CHECK(r->Initialized(), sig + ":initialized", what + ": the raster is not initialized");
    VF_CHECK(r->GetRows() == g.rows && r->GetCols() == g.cols, sig + ":size", Str() << what << ": size is " << r->GetRows() << "x" << r->GetCols() << ", expected " << g.rows << "x" << g.cols);
    double sc = g.dx * (g.rows + g.cols);
    VF_CHECK(close_enough(r->GetXllCenter(), g.xll, sc) && close_enough(r->GetYllCenter(), g.yll, sc), sig + ":location", Str() << what << ": lower left is " << r->GetXllCenter() << "," << r->GetYllCenter() << ", expected " << g.xll << "," << g.yll);
    VF_CHECK(close_enough(r->GetCellWidth(), g.dx, 0), sig + ":cellsize", Str() << what << ": cell size is " << r->GetCellWidth() << ", expected " << g.dx);
    VF_CHECK(r->GetLayers() == g.lyrs, sig + ":layers", Str() << what << ": " << r->GetLayers() << " layers, expected " << g.lyrs);
    if (nodata) VF_CHECK(same<T>(r->GetNoDataValue(), g.nodata) || ndeq((double) r->GetNoDataValue(), (double) g.nodata), sig + ":nodata", Str() << what << ": no-data is " << +r->GetNoDataValue() << ", expected " << +g.nodata);
    if (srs) VF_CHECK(same_srs(r->GetSrsString(), g.srs), sig + ":srs", Str() << what << ": coordinate system is " << vf::q(r->GetSrsString()) << ", expected " << vf::q(g.srs));
    const auto& h = r->GetRasterHeader(); // what is told in one place is told in the other
    auto head = [&](const char* key, double want) {
        auto it = h.find(key);
        VF_CHECK(it != h.end() && (it->second == want || ndeq(it->second, want)), sig + ":header", Str() << what << ": the header holds " << (it == h.end() ? NAN : it->second) << " as " << key << ", expected " << want);
    };
    head(ccgl::data_raster::HEADER_RS_NODATA, (double) r->GetNoDataValue());
    head(ccgl::data_raster::HEADER_RS_NROWS, g.rows);
    head(ccgl::data_raster::HEADER_RS_NCOLS, g.cols);
    head(ccgl::data_raster::HEADER_RS_LAYERS, g.lyrs);
    head(ccgl::data_raster::HEADER_RS_CELLSNUM, r->GetCellNumber());
    for (int l = 0; l < g.lyrs; l++)
        for (int i = 0; i < g.n(); i++) {
            T got = r->GetValue(i / g.cols, i % g.cols, l + 1);
            T want = compact && !g.valid(i) ? g.nodata : g.v[l][i];
            if (g.nd(l, i) || (compact && !g.valid(i))) {
                VF_CHECK(ndeq((double) got, (double) r->GetNoDataValue()), sig + ":cell-nodata", Str() << what << ": cell (" << i / g.cols << "," << i % g.cols << ") of layer " << l + 1 << " is " << +got << ", expected no-data " << +r->GetNoDataValue());
            } else {
                VF_CHECK(same<T>(got, want), sig + ":cell", Str() << what << ": cell (" << i / g.cols << "," << i % g.cols << ") of layer " << l + 1 << " is " << +got << ", expected " << +want);
            }
        }
    vf::tally("cells compared", (uint64_t) g.n() * g.lyrs);
}
// Compares a GeoTIFF with layer l of the model.
template <class T> inline void compare_tif(const string& path, const Grid<T>& g, int l, const string& sig, const string& what, bool compact = false, bool srs = true) {
    TifFile<T> f;
    VF_CHECK(gdal_read(path, f), sig + ":file", what + ": file " + path + " is missing, no north-up raster, or of another cell type (" + GDALGetDataTypeName(f.type) + ")");
    VF_CHECK(f.bands == 1, sig + ":file-bands", Str() << what << ": " << f.bands << " bands");
    VF_CHECK(f.g.rows == g.rows && f.g.cols == g.cols, sig + ":file-size", Str() << what << ": file size is " << f.g.rows << "x" << f.g.cols << ", expected " << g.rows << "x" << g.cols);
    double sc = g.dx * (g.rows + g.cols);
    VF_CHECK(close_enough(f.g.xll, g.xll, sc) && close_enough(f.g.yll, g.yll, sc), sig + ":file-location", Str() << what << ": lower left in file is " << f.g.xll << "," << f.g.yll << ", expected " << g.xll << "," << g.yll);
    VF_CHECK(close_enough(f.g.dx, g.dx, 0), sig + ":file-cellsize", Str() << what << ": cell size in file is " << f.g.dx << ", expected " << g.dx);
    VF_CHECK(f.has_nd, sig + ":file-nodata", what + ": no no-data value in file");
    VF_CHECK(ndeq(f.nd, (double) g.nodata), sig + ":file-nodata", Str() << what << ": no-data in file is " << f.nd << ", expected " << +g.nodata);
    if (srs) VF_CHECK(same_srs(f.srs, g.srs), sig + ":file-srs", Str() << what << ": coordinate system in file is " << vf::q(f.srs) << ", expected " << vf::q(g.srs));
    for (int i = 0; i < g.n(); i++) {
        T want = compact && !g.valid(i) ? g.nodata : g.v[l][i];
        VF_CHECK(same<T>(f.v[i], want), sig + ":file-cell", Str() << what << ": cell (" << i / g.cols << "," << i % g.cols << ") of layer " << l + 1 << " in file is " << +f.v[i] << ", expected " << +want);
    }
    vf::tally("file cells compared", (uint64_t) g.n());
}
// "dir/name.ext" -> "dir/name_k.ext"
inline string numbered(const string& path, int k) { size_t p = path.find_last_of('.'); return path.substr(0, p) + "_" + std::to_string(k) + path.substr(p); }
inline string prefixed(const string& path, int k) { size_t p = path.find_last_of('/'); return path.substr(0, p + 1) + std::to_string(k) + "_" + path.substr(p + 1); }
inline bool exists(const string& p) { return access(p.c_str(), F_OK) == 0; }
}
#ifdef VT
#define M_STR2(x) #x
#define M_STR(x) M_STR2(x)
// registers template <class T> void FN(vf::Case&) for this unit's cell type
#define M_KIND(FN, WEIGHT) static vf::Reg VF_CAT(reg_, FN)(#FN "<" M_STR(VT) ">", WEIGHT, &FN<VT>);
#define M_KIND_LEAK(FN, WEIGHT) static vf::Reg VF_CAT(reg_, FN)(#FN "<" M_STR(VT) ">", WEIGHT, &FN<VT>, true);
#endif
#endif
