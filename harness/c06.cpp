// C06: addressing
#include "mk.hpp"
using namespace m;
#ifndef VT
const char* vf_rule = "Rasters of ten cell types in every storage mode (full, compact, sharing a mask's positions, 1-4 layers, from arrays, GeoTIFF and ASCII grids, copied) are asked for every cell by row and column, by index, by points inside the cell (centre, near the edges and corners) and by position arrays, and the answers are compared with an independent model; rows, columns, indexes, layers and coordinates outside the grid, NaN and infinities included, must be reported; distinct rasters are counted.";
void vf_init() { init(); }
#else
template <class T> struct Arr { T* p; Arr(): p(nullptr) {} ~Arr() { ccgl::utils_array::Release1DArray(p); } };

template <class T> void by_rowcol(vf::Case& c) {
    auto& r = c.r;
    Built<T> b;
    build(r, b);
    vf::desc("by_rowcol " + b.str());
    verify(b, "values", "by row and column");
    Grid<T>& g = b.g;
    int cols = g.cols;
    if (b.is2d) VF_CHECK(b->Is2DRaster(), "is2d", "not a two-dimensional raster");
    VF_CHECK(b->PositionsCalculated() == !b.full, "calculated", Str() << "PositionsCalculated is " << b->PositionsCalculated());
    VF_CHECK(b->GetDataLength() == b.cells() * g.lyrs, "datalength", Str() << "data length is " << b->GetDataLength());
    bool reuse = r.chance(.5);
    Arr<T> a, a2;
    for (int i = 0; i < g.n(); i++) {
        int row = i / cols, col = i % cols, want = b.index(i), k = b->GetPosition(row, col);
        VF_CHECK(want < 0 ? k == -1 : k == want, "index", Str() << "index of cell (" << row << "," << col << ") is " << k << ", expected " << want);
        for (int l = 0; l < g.lyrs; l++) {
            VF_CHECK(b->IsNoData(row, col, l + 1) == g.nd(l, i), "isnodata", Str() << "IsNoData of (" << row << "," << col << ") layer " << l + 1);
            if (k >= 0) {
                T v = b->GetValueByIndex(k, l + 1);
                VF_CHECK(same<T>(v, g.v[l][i]), "byindex", Str() << "value by index " << k << " layer " << l + 1 << " is " << +v << ", expected " << +g.v[l][i]);
            }
        }
        if (!reuse) { ccgl::utils_array::Release1DArray(a.p); ccgl::utils_array::Release1DArray(a2.p); a.p = a2.p = nullptr; }
        b->GetValue(row, col, a.p);
        VF_CHECK(a.p != nullptr, "all-layers", "no values of all layers");
        for (int l = 0; l < g.lyrs; l++) VF_CHECK(same<T>(a.p[l], g.v[l][i]), "all-layers", Str() << "value of layer " << l + 1 << " among all of (" << row << "," << col << ") is " << +a.p[l] << ", expected " << +g.v[l][i]);
        if (k >= 0) {
            b->GetValueByIndex(k, a2.p);
            VF_CHECK(a2.p != nullptr, "all-layers-index", "no values of all layers");
            for (int l = 0; l < g.lyrs; l++) VF_CHECK(same<T>(a2.p[l], g.v[l][i]), "all-layers-index", Str() << "value of layer " << l + 1 << " among all of index " << k << " is " << +a2.p[l] << ", expected " << +g.v[l][i]);
        }
    }
    // pointers
    int n = -9, ly = -9;
    T* d = nullptr;
    T** d2 = nullptr;
    bool is2 = b->Is2DRaster();
    VF_CHECK(b->GetRasterData(&n, &d) == !is2, "pointer", "GetRasterData");
    if (!is2) { VF_CHECK(n == b.cells() && d == b->GetRasterDataPointer(), "pointer", "GetRasterData"); for (int i = 0; i < n; i++) VF_CHECK(same<T>(d[i], g.v[0][b.cell(i)]), "pointer", "data array"); }
    else VF_CHECK(d == nullptr && n == -1, "pointer", "GetRasterData of a two-dimensional raster");
    VF_CHECK(b->Get2DRasterData(&n, &ly, &d2) == is2, "pointer", "Get2DRasterData");
    if (is2) { VF_CHECK(n == b.cells() && ly == g.lyrs, "pointer", "Get2DRasterData"); for (int i = 0; i < n; i++) for (int l = 0; l < ly; l++) VF_CHECK(same<T>(d2[i][l], g.v[l][b.cell(i)]), "pointer", "data array"); }
    else VF_CHECK(d2 == nullptr && n == -1, "pointer", "Get2DRasterData of a one-dimensional raster");
    // positions
    int** p2 = nullptr;
    int* p1 = nullptr;
    int n1 = -9, n2 = -9;
    bool first = r.chance(.5);
    if (first) b->GetRasterPositionData(&n2, &p2);
    b->GetRasterPositionData(&n1, &p1);
    if (!first) b->GetRasterPositionData(&n2, &p2);
    if (g.nvalid() == 0 && b.full) VF_CHECK(n1 == -1 && n2 == -1 && !p1 && !p2, "positions", "positions of a raster without valid cells");
    else {
        bool was = b.full;
        b.compacted();
        VF_CHECK(n1 == b.cells() && n2 == b.cells() && p1 && p2, "positions", Str() << n1 << " and " << n2 << " positions, expected " << b.cells());
        for (int i = 0; i < n1; i++) VF_CHECK(p1[i] == b.pos[i] && p2[i][0] == b.pos[i] / cols && p2[i][1] == b.pos[i] % cols, "positions", Str() << "position " << i << " is " << p1[i] << " and (" << p2[i][0] << "," << p2[i][1] << "), expected " << b.pos[i]);
        VF_CHECK(p1 == b->GetRasterPositionIndexPointer() && p2 == b->GetRasterPositionDataPointer(), "positions", "pointers to positions");
        if (was) {
            verify(b, "values-compact", "by row and column once positions are calculated");
            for (int i = 0; i < g.n(); i++) { int k = b->GetPosition(i / cols, i % cols); VF_CHECK(k == b.index(i), "index-compact", Str() << "index of cell " << i << " is " << k << ", expected " << b.index(i)); }
        }
        for (int k = 0; k < n1; k++) for (int l = 0; l < g.lyrs; l++) { T v = b->GetValueByIndex(k, l + 1); VF_CHECK(same<T>(v, g.v[l][b.pos[k]]), "byindex-compact", Str() << "value by index " << k << " is " << +v); }
    }
    vf::distinct(g.hash());
}
template <class T> void by_coordinate(vf::Case& c) {
    auto& r = c.r;
    Built<T> b;
    build(r, b);
    vf::desc("by_coordinate " + b.str());
    Grid<T>& g = b.g;
    double mag = std::fabs(g.xll) + std::fabs(g.yll) + g.dx * (g.rows + g.cols), eps = 4e-15 * mag / g.dx + 1e-9; // part of a cell that rounding can move a point
    if (eps > .2) return;
    double sc = g.dx * (g.rows + g.cols);
    auto ask = [&](double x, double y, int cell, const string& what) {
        ROW_COL rc = b->GetPositionByCoordinate(x, y);
        int got = rc.first < 0 || rc.second < 0 ? -1 : rc.first * g.cols + rc.second;
        VF_CHECK(got == cell && (cell < 0 || rc.second < g.cols), "coordinate", Str() << what << " (" << x << "," << y << ") is at row " << rc.first << " column " << rc.second << ", expected cell " << cell);
        int k = b->GetPosition(x, y);
        if (cell < 0) VF_CHECK(k < 0, "coordinate-index", Str() << what << " (" << x << "," << y << ") outside the grid has index " << k);
        else {
            int want = b.index(cell);
            VF_CHECK(want < 0 ? k < 0 : k == want, "coordinate-index", Str() << what << " (" << x << "," << y << ") has index " << k << ", expected " << want);
        }
    };
    uint64_t asked = 0;
    for (int i = 0; i < g.n(); i++) {
        int row = i / g.cols, col = i % g.cols;
        XY_COOR xy = b->GetCoordinateByRowCol(row, col);
        VF_CHECK(close_enough(xy.first, g.cx(col), sc) && close_enough(xy.second, g.cy(row), sc), "centre", Str() << "centre of (" << row << "," << col << ") is " << xy.first << "," << xy.second << ", expected " << g.cx(col) << "," << g.cy(row));
        ask(xy.first, xy.second, i, "centre");
        for (int k = 0; k < 3; k++) {
            double u = r.pickv({eps, 1 - eps, r.real(eps, 1 - eps), .5, eps * 2}), v = r.pickv({eps, 1 - eps, r.real(eps, 1 - eps), .5, eps * 2});
            ask(g.cx(col) + (u - .5) * g.dx, g.cy(row) + (v - .5) * g.dx, i, "point");
        }
        asked += 4;
        if (mag < 30000 && g.dx >= .5) { // single precision is enough for the centre
            int k = b->GetPosition((float) g.cx(col), (float) g.cy(row)), want = b.index(i);
            VF_CHECK(want < 0 ? k < 0 : k == want, "float", Str() << "single precision centre of cell " << i << " has index " << k);
        }
    }
    double L = g.xll - .5 * g.dx, B = g.yll - .5 * g.dx, Rt = L + g.cols * g.dx, Tp = B + g.rows * g.dx;
    for (int k = 0; k < 24; k++) {
        double x = r.real(L, Rt), y = r.real(B, Tp), far = r.pickv({eps * g.dx, .25 * g.dx, .5 * g.dx, g.dx, 1.5 * g.dx, 100 * g.dx, 1e6 * g.dx, 1e30});
        switch (r.below(6)) {
            case 0: x = L - far; break;
            case 1: x = Rt + far; break;
            case 2: y = B - far; break;
            case 3: y = Tp + far; break;
            case 4: x = L - far; y = Tp + far; break;
            default: x = Rt + far; y = B - far; break;
        }
        ask(x, y, -1, "outside point");
    }
    // points that rounding can move over a border: a cell that has the border, or none at the outer ones
    for (int k = 0; k < 40; k++) {
        int col = (int) r.below(g.cols + 1), row = (int) r.below(g.rows + 1), which = (int) r.below(3);
        if (r.chance(.4)) col = r.chance(.7) ? g.cols : 0;
        if (r.chance(.4)) row = r.chance(.7) ? g.rows : 0; // from the upper one
        double x = which == 1 ? g.cx((int) r.below(g.cols)) : L + col * g.dx, y = which == 2 ? g.cy((int) r.below(g.rows)) : r.chance(.5) ? Tp - row * g.dx : B + (g.rows - row) * g.dx;
        auto nudge = [&](double& v) { int n = (int) r.range(-4, 4); for (int q = 0; q < std::abs(n); q++) v = std::nextafter(v, n < 0 ? -INFINITY : INFINITY); };
        if (which != 1) nudge(x);
        if (which != 2) nudge(y);
        ROW_COL rc = b->GetPositionByCoordinate(x, y);
        auto near = [&](double v, double lo, double hi) { return v >= lo - eps * g.dx && v <= hi + eps * g.dx; };
        bool none = rc.first == -1 && rc.second == -1;
        if (none) VF_CHECK(!(x > L + eps * g.dx && x < Rt - eps * g.dx && y > B + eps * g.dx && y < Tp - eps * g.dx), "border", Str() << "point (" << x << "," << y << ") inside the grid is at no cell");
        else {
            VF_CHECK(rc.first >= 0 && rc.first < g.rows && rc.second >= 0 && rc.second < g.cols, "border", Str() << "a point at a border is at (" << rc.first << "," << rc.second << ")");
            VF_CHECK(near(x, g.cx(rc.second) - .5 * g.dx, g.cx(rc.second) + .5 * g.dx) && near(y, g.cy(rc.first) - .5 * g.dx, g.cy(rc.first) + .5 * g.dx), "border", Str() << "point (" << x << "," << y << ") is at (" << rc.first << "," << rc.second << ")");
        }
        int k2 = b->GetPosition(x, y);
        if (none) VF_CHECK(k2 < 0, "border-index", "a point at no cell has an index");
        else { int want = b.index(rc.first * g.cols + rc.second); VF_CHECK(want < 0 ? k2 < 0 : k2 == want, "border-index", Str() << "index " << k2 << " of a point at a border, expected " << want); }
    }
    double bad[] = {std::nan(""), INFINITY, -INFINITY, 1e308, -1e308};
    for (double v: bad) { ask(v, g.cy(0), -1, "outside point"); ask(g.cx(0), v, -1, "outside point"); ask(v, v, -1, "outside point"); }
    // positions in a grid of another header
    Geo o = gen_geo(r);
    ccgl::STRDBL_MAP h = b->GetRasterHeader();
    h["NCOLS"] = o.cols; h["NROWS"] = o.rows; h["XLLCENTER"] = o.xll; h["YLLCENTER"] = o.yll; h["CELLSIZE"] = o.dx;
    double omag = std::fabs(o.xll) + std::fabs(o.yll) + o.dx * (o.rows + o.cols), oeps = 4e-15 * omag / o.dx + 1e-9;
    if (oeps < .2) for (int k = 0; k < 12; k++) {
        int row = (int) r.range(-1, o.rows), col = (int) r.range(-1, o.cols);
        double x = o.cx(col) + r.real(-.5 + oeps, .5 - oeps) * o.dx, y = o.cy(row) + r.real(-.5 + oeps, .5 - oeps) * o.dx;
        bool in = row >= 0 && col >= 0 && row < o.rows && col < o.cols;
        ROW_COL rc = b->GetPositionByCoordinate(x, y, &h);
        VF_CHECK(in ? rc.first == row && rc.second == col : rc.first == -1 || rc.second == -1, "header", Str() << "point of (" << row << "," << col << ") in another header is at (" << rc.first << "," << rc.second << ")");
    }
    vf::tally("points asked", asked);
    vf::distinct(g.hash());
}
template <class T> void outside(vf::Case& c) {
    auto& r = c.r;
    Built<T> b;
    build(r, b);
    vf::desc("outside " + b.str());
    Grid<T>& g = b.g;
    const int big[] = {-1, -2, -1000000, INT_MIN, INT_MAX, INT_MAX - 1};
    auto out = [&](int n) { return r.chance(.4) ? n : r.chance(.3) ? n + (int) r.below(50) : big[r.below(6)]; };
    T nd = b->GetNoDataValue();
    for (int k = 0; k < 30; k++) {
        int row = (int) r.below(g.rows), col = (int) r.below(g.cols), lyr = (int) r.range(1, g.lyrs), how = (int) r.below(3);
        if (how == 0) row = out(g.rows); else if (how == 1) col = out(g.cols); else { row = out(g.rows); col = out(g.cols); }
        int p = b->GetPosition(row, col);
        VF_CHECK(p < 0, "outside-index", Str() << "index of (" << row << "," << col << ") is " << p);
        VF_CHECK(same<T>(b->GetValue(row, col, lyr), nd), "outside-value", Str() << "value of (" << row << "," << col << ") is no no-data");
        Arr<T> a;
        if (r.chance(.5)) ccgl::utils_array::Initialize1DArray(g.lyrs, a.p, T());
        b->GetValue(row, col, a.p);
        VF_CHECK(a.p == nullptr, "outside-values", Str() << "values of (" << row << "," << col << ")");
        VF_CHECK(b->IsNoData(row, col, lyr), "outside-isnodata", "IsNoData");
        VF_CHECK(!b->ValidateRowCol(row, col), "outside-validate", "ValidateRowCol");
        int idx = out(b.cells());
        VF_CHECK(same<T>(b->GetValueByIndex(idx, lyr), nd), "outside-index-value", Str() << "value of index " << idx << " is no no-data");
        if (r.chance(.5)) ccgl::utils_array::Initialize1DArray(g.lyrs, a.p, T());
        b->GetValueByIndex(idx, a.p);
        VF_CHECK(a.p == nullptr, "outside-index-values", Str() << "values of index " << idx);
        VF_CHECK(!b->ValidateIndex(idx), "outside-validate", "ValidateIndex");
        int l = r.chance(.4) ? 0 : out(g.lyrs + 1);
        int r0 = (int) r.below(g.rows), c0 = (int) r.below(g.cols);
        VF_CHECK(same<T>(b->GetValue(r0, c0, l), nd), "outside-layer", Str() << "value of layer " << l << " is no no-data");
        VF_CHECK(same<T>(b->GetValueByIndex((int) r.below(b.cells()), l), nd), "outside-layer", Str() << "value of layer " << l << " by index is no no-data");
        VF_CHECK(!b->ValidateLayer(l), "outside-validate", "ValidateLayer");
    }
    VF_CHECK(b->ValidateRowCol(g.rows - 1, g.cols - 1) && b->ValidateRowCol(0, 0) && b->ValidateIndex(0) && b->ValidateIndex(b.cells() - 1) && b->ValidateLayer(1) && b->ValidateLayer(g.lyrs) && b->ValidateRasterData(), "validate", "a valid address is reported as invalid");
    verify(b, "after", "after asking");
    vf::distinct(g.hash());
}
M_KIND(by_rowcol, 2)
M_KIND(by_coordinate, 2)
M_KIND(outside, 1)
#endif
