// Rasters of the library in every storage mode, with the model of what they hold.
#ifndef VF_MK_HPP
#define VF_MK_HPP
#include "rast.hpp"
namespace m {
// A raster and its model. full: every cell of the grid is kept; otherwise only those of pos, in row-major order.
template <class T, class M = T> struct Built {
    typedef dr::clsRasterData<T, M> R;
    typedef dr::clsRasterData<M> MR;
    Grid<T> g; // what every cell reads as
    bool full, is2d;
    vector<int> pos;
    double defv;
    string how;
    std::unique_ptr<MR> mask; // outlives r
    std::unique_ptr<R> r;
    Built(): full(true), is2d(false), defv(-9999) {}
    R* operator->() { return r.get(); }
    int cells() const { return full ? g.n() : (int) pos.size(); }
    int cell(int idx) const { return full ? idx : pos[idx]; }
    int index(int cell) const {
        if (full) return cell;
        auto it = std::lower_bound(pos.begin(), pos.end(), cell);
        return it == pos.end() || *it != cell ? -1 : (int) (it - pos.begin());
    }
    void compacted() { // valid cells have been worked out
        if (!full) return;
        full = false;
        pos.clear();
        for (int i = 0; i < g.n(); i++) {
            if (g.valid(i)) pos.push_back(i);
            else for (int l = 0; l < g.lyrs; l++) g.v[l][i] = g.nodata;
        }
    }
    string str() const { return how + " " + g.str(); }
};
struct MkOpt {
    int lyrs; // 0: any
    bool files, masks, copies, srs;
    int storage; // -1 any, 0 full, 1 compact
    GenOpt gen;
    std::function<void(void*)> tweak; // changes the values of the Grid before the raster is made
    MkOpt(): lyrs(0), files(true), masks(true), copies(true), srs(true), storage(-1) {}
};
template <class T, class M = T> inline Grid<M> like(Rng& r, const Geo& geo, double pnd = -1) {
    Grid<M> k;
    (Geo&) k = geo;
    k.lyrs = 1;
    k.nodata = gen_nodata<M>(r);
    GenOpt o;
    o.mode = r.chance(.7) ? 0 : 1;
    o.pnd = pnd;
    fill(r, k, o);
    return k;
}
// refused: what the signature of a failed construction is called
template <class T, class M = T> inline void build(Rng& r, Built<T, M>& b, const MkOpt& o = MkOpt()) {
    typedef Lib<T, M> L;
    typedef typename L::R R;
    GenOpt go = o.gen;
    go.lyrs = o.lyrs ? o.lyrs : gen_lyrs(r, .65, 2, 4);
    b.g = gen_grid<T>(r, go);
    if (o.srs) b.g.srs = r.chance(.2) ? gen_srs(r) : "";
    Grid<T>& g = b.g;
    if (o.tweak) o.tweak(&g);
    for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) g.nodata)) x = g.nodata;
    b.full = o.storage < 0 ? r.chance(.5) : o.storage == 0;
    b.is2d = g.lyrs > 1;
    static int serial = 0;
    string dir = vf::scratch() + "/mk" + std::to_string(serial++ % 1000) + "_";
    int src = (int) r.below(10);
    if (o.files && src < 2) {
        vector<string> in;
        bool asc = sizeof(T) < 8 && r.chance(.3);
        for (int l = 0; l < g.lyrs; l++) {
            string f = dir + "in" + std::to_string(l) + (asc ? ".asc" : ".tif");
            in.push_back(f);
            if (asc) { vf::write_file(f, asc_text(g, l)); g.srs = ""; } else gdal_write(f, g, l);
        }
        bool calc = !b.full;
        b.r.reset(g.lyrs == 1 ? R::Init(in[0], calc) : R::Init(in, calc));
        b.how = asc ? "from ASCII grid" : "from GeoTIFF";
        VF_CHECK(b.r != nullptr, "build:refused", "a raster cannot be read " + b.how + ": " + g.str());
        if (asc && !std::numeric_limits<T>::is_integer) {} // %.17g-like text is exact for the values written
        if (b.full && g.lyrs > 1)
            for (int i = 0; i < g.n(); i++) if (!g.valid(i)) for (int l = 1; l < g.lyrs; l++) g.v[l][i] = g.nodata;
        if (!b.full) { b.full = true; b.compacted(); }
    } else if (o.masks && src < 5 && o.storage != 0) { // positions shared with a mask
        Grid<M> k = like<T, M>(r, g);
        k.srs = g.srs;
        for (int tries = 0; tries < 20; tries++) { // the raster takes over the mask's no-data value
            double nd = (double) k.nodata;
            if (nd >= (double) std::numeric_limits<T>::lowest() && nd <= (double) std::numeric_limits<T>::max() && (double) (T) nd == nd && nd < 9e15) break; // exact in both types
            k.nodata = (M) (tries < 19 ? (double) r.below(100) : 0);
            for (auto& x: k.v[0]) if (ndeq((double) x, (double) k.nodata)) x = (M) ((double) k.nodata == 1 ? 2 : 1);
        }
        b.mask.reset(Lib<M, M>::make(k));
        if (r.chance(.5)) VF_CHECK(b.mask->SetCalcPositions(), "build:mask-positions", "SetCalcPositions of a mask failed: " + k.str());
        for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) g.nodata)) x = (T) k.nodata;
        g.nodata = (T) k.nodata;
        b.full = false;
        b.pos.clear();
        for (int i = 0; i < g.n(); i++) if (k.valid(i)) b.pos.push_back(i);
        bool any = false;
        for (int i = 0; i < g.n(); i++) for (int l = 0; l < g.lyrs; l++) if (!k.valid(i)) g.v[l][i] = g.nodata; else if (l == 0 && !g.nd(0, i)) any = true;
        if (!any) g.v[0][b.pos[0]] = (T) (ndeq(1, (double) g.nodata) ? 2 : 1);
        for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) g.nodata)) x = g.nodata;
        int n = (int) b.pos.size();
        if (g.lyrs == 1) {
            T* d = new T[n];
            for (int i = 0; i < n; i++) d[i] = g.v[0][b.pos[i]];
            b.r.reset(new R(b.mask.get(), d, n));
            delete[] d;
        } else {
            T** d = nullptr;
            ccgl::utils_array::Initialize2DArray(n, g.lyrs, d, T());
            for (int i = 0; i < n; i++) for (int l = 0; l < g.lyrs; l++) d[i][l] = g.v[l][b.pos[i]];
            b.r.reset(new R(b.mask.get(), d, n, g.lyrs));
            ccgl::utils_array::Release2DArray(d);
        }
        VF_CHECK(b.r->Initialized(), "build:refused", "a raster cannot be made with positions of a mask: " + g.str());
        b.how = "positions of a mask";
    } else {
        bool as2d = g.lyrs == 1 && r.chance(.15);
        b.is2d = b.is2d || as2d;
        b.r.reset(L::make(g, as2d));
        b.how = as2d ? "from 2D array" : "from array";
        if (!b.full) {
            VF_CHECK(b.r->SetCalcPositions(), "build:positions", "SetCalcPositions failed: " + g.str());
            b.full = true;
            b.compacted();
        }
    }
    if (o.copies && r.chance(.15)) {
        std::unique_ptr<R> c(new R(b.r.get()));
        b.r.swap(c);
        b.how += ", copied";
    }
    b.how += b.full ? ", full" : ", compact";
}
template <class T, class M> inline void verify(Built<T, M>& b, const string& sig, const string& what) {
    compare(b.r.get(), b.g, sig, what, false, true);
    VF_CHECK(b->GetCellNumber() == b.cells(), sig + ":cells", Str() << what << ": " << b->GetCellNumber() << " cells are kept, expected " << b.cells());
}
}
namespace m {
// A second grid near the first: aligned, shifted, of another cell size, inside, around or beside it.
inline Geo gen_near(Rng& r, const Geo& a) {
    Geo b;
    double ratio = r.pickv({1., 1., 1., 1., 1., .5, 2., 3., 1. / 3, 1.3, .7, 5., .2});
    b.dx = a.dx * ratio;
    double shift = r.chance(.6) ? 0 : r.pickv({.25, -.25, .3, .4, -.45, .1});
    double shift2 = r.chance(.7) ? shift : r.pickv({.25, -.25, .3, .4, -.45, .1});
    int style = (int) r.below(8);
    auto span = [&](int n) { return std::max(1, std::min(std::max(60, std::max(a.rows, a.cols) > 60 ? std::max(a.rows, a.cols) : 0), (int) std::lround(n / ratio))); };
    switch (style) {
        case 0: b.rows = span(a.rows); b.cols = span(a.cols); b.xll = a.xll + shift * a.dx; b.yll = a.yll + shift2 * a.dx; break; // the same extent, about
        case 1: { // inside
            b.rows = (int) r.range(1, span(a.rows)); b.cols = (int) r.range(1, span(a.cols));
            b.xll = a.xll + (shift + (double) r.range(0, a.cols - 1)) * a.dx; b.yll = a.yll + (shift2 + (double) r.range(0, a.rows - 1)) * a.dx;
            break;
        }
        case 2: { // around
            int w = (int) r.range(1, 5), e = (int) r.range(0, 5), n = (int) r.range(0, 5), s = (int) r.range(1, 5);
            b.rows = span(a.rows + n + s); b.cols = span(a.cols + w + e);
            b.xll = a.xll + (shift - w) * a.dx; b.yll = a.yll + (shift2 - s) * a.dx;
            break;
        }
        case 3: // beside
            b.rows = span(a.rows); b.cols = span(a.cols); b.xll = a.xll + (shift + (double) r.range(-a.cols - 2, a.cols + 2)) * a.dx; b.yll = a.yll + (shift2 + (double) r.range(-a.rows - 2, a.rows + 2)) * a.dx;
            break;
        default: // overlapping
            b.rows = (int) r.range(1, 14); b.cols = (int) r.range(1, 14);
            b.xll = a.xll + (shift + (double) r.range(-b.cols / 2 - 1, a.cols - 1)) * a.dx; b.yll = a.yll + (shift2 + (double) r.range(-b.rows / 2 - 1, a.rows - 1)) * a.dx;
    }
    return b;
}
// Is the centre of a cell of b too close to the side of a cell of a for rounding to be ruled out?
inline bool ambiguous(const Geo& a, const Geo& b) {
    double tol = 1e-7 + 2e-14 * (std::fabs(a.xll) + std::fabs(a.yll) + (a.cols + a.rows) * a.dx) / std::min(a.dx, b.dx);
    for (int c = 0; c < b.cols; c++) { double f = (b.cx(c) - a.xll) / a.dx + .5; if (std::fabs(f - std::round(f)) < tol) return true; }
    for (int k = 0; k < b.rows; k++) { double f = (b.cy(k) - a.yll) / a.dx + .5; if (std::fabs(f - std::round(f)) < tol) return true; }
    return false;
}
inline Geo gen_near_safe(Rng& r, const Geo& a, bool both) {
    for (int k = 0; k < 40; k++) { Geo b = gen_near(r, a); if (!ambiguous(a, b) && !(both && ambiguous(b, a))) return b; }
    return a;
}
// Cells, indexes and positions of a raster agree with each other and with the model, in whatever way it is stored.
template <class R, class T> inline void agree(R* p, const Grid<T>& g, const string& sig, const string& what) {
    compare(p, g, sig, what);
    int n = p->GetCellNumber();
    if (!p->PositionsCalculated()) {
        VF_CHECK(n == g.n(), sig + ":cells", Str() << what << ": " << n << " cells are kept, expected " << g.n());
        for (int i = 0; i < n; i++) for (int l = 0; l < g.lyrs; l++) VF_CHECK(same<T>(p->GetValueByIndex(i, l + 1), p->GetValue(i / g.cols, i % g.cols, l + 1)), sig + ":index", what + ": value by index");
        return;
    }
    int n1 = -1, n2 = -1, *d = nullptr, **d2 = nullptr;
    p->GetRasterPositionData(&n1, &d);
    p->GetRasterPositionData(&n2, &d2);
    VF_CHECK(n1 == n && n2 == n && d && d2, sig + ":positions", Str() << what << ": " << n1 << " positions of " << n << " cells");
    vector<char> seen(g.n(), 0);
    for (int k = 0; k < n; k++) {
        VF_CHECK(d[k] >= 0 && d[k] < g.n() && (k == 0 || d[k] > d[k - 1]) && d2[k][0] == d[k] / g.cols && d2[k][1] == d[k] % g.cols, sig + ":positions", Str() << what << ": position " << k << " is " << d[k] << " and (" << d2[k][0] << "," << d2[k][1] << ")");
        seen[d[k]] = 1;
        VF_CHECK(p->GetPosition(d[k] / g.cols, d[k] % g.cols) == k, sig + ":index", Str() << what << ": index of position " << k);
        for (int l = 0; l < g.lyrs; l++) VF_CHECK(g.nd(l, d[k]) ? ndeq((double) p->GetValueByIndex(k, l + 1), (double) g.nodata) : same<T>(p->GetValueByIndex(k, l + 1), g.v[l][d[k]]), sig + ":index", Str() << what << ": value by index " << k << " is " << +p->GetValueByIndex(k, l + 1) << ", expected " << +g.v[l][d[k]]);
    }
    for (int i = 0; i < g.n(); i++) if (!g.nd(0, i)) VF_CHECK(seen[i], sig + ":positions", Str() << what << ": valid cell " << i << " has no position");
}
// What is left of s under the valid cells of the mask k.
template <class T> struct Masked { Grid<T> w, e; bool overlap; int matched, valid, r0, r1, c0, c1; };
template <class T, class M> inline Masked<T> masked(const Grid<T>& s, const Grid<M>& k, double defv, bool ext) {
    Masked<T> m;
    bool hasdef = !ndeq(defv, -9999) && !ndeq(defv, (double) s.nodata);
    Grid<T>& w = m.w;
    (Geo&) w = k;
    w.lyrs = s.lyrs; w.nodata = s.nodata; w.srs = k.srs;
    w.v.assign(w.lyrs, vector<T>(k.n(), s.nodata));
    m.overlap = false; m.matched = 0; m.valid = 0; m.r0 = k.rows; m.r1 = -1; m.c0 = k.cols; m.c1 = -1;
    for (int i = 0; i < k.n(); i++) {
        if (!k.valid(i)) continue;
        int q = s.cell(k.cx(i % k.cols), k.cy(i / k.cols));
        if (q < 0) continue;
        m.overlap = true;
        if (s.nd(0, q)) { if (hasdef) { w.v[0][i] = (T) defv; m.valid++; } continue; }
        m.matched++; m.valid++;
        for (int l = 0; l < s.lyrs; l++) w.v[l][i] = s.v[l][q];
        m.r0 = std::min(m.r0, i / k.cols); m.r1 = std::max(m.r1, i / k.cols); m.c0 = std::min(m.c0, i % k.cols); m.c1 = std::max(m.c1, i % k.cols);
    }
    m.e = w;
    if (!ext && m.matched > 0) {
        Grid<T>& e = m.e;
        e.rows = m.r1 - m.r0 + 1; e.cols = m.c1 - m.c0 + 1; e.xll = k.cx(m.c0); e.yll = k.cy(m.r1);
        for (int l = 0; l < e.lyrs; l++) { e.v[l].assign(e.n(), e.nodata); for (int i = 0; i < e.n(); i++) e.v[l][i] = w.v[l][(m.r0 + i / e.cols) * k.cols + m.c0 + i % e.cols]; }
    }
    return m;
}
}
#endif
