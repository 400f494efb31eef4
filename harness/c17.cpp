// C17: rasters in the document database
#include <memory>
#include "subs.hpp"
#include "mongod.hpp"
#include "db_mongoc.h"
#include <omp.h>
using namespace m;
namespace dbm = ccgl::db_mongoc;
#ifndef VT
#include <dlfcn.h>
const char* vf_rule = "Rasters (12 pairs of cell and mask type, every storage mode, 1-4 layers) stored in a document-database server inside the harness, with or without their no-data cells, under names and options that other stored rasters share, as the cell's or another type, whole or by subsets; the stored stream and metadata are read from the server's own memory and compared byte by byte, the raster is loaded again (as is, with positions, under masks, as another cell type, into subsets) and compared with the model; damaged stored rasters must be refused; with injected faults (error replies, lost connections, cut replies) success must mean the raster is there, and other stored rasters must stay; distinct (raster, mode) pairs are counted.";
extern "C" int usleep(useconds_t us) { // the client waits half a second before it looks for a lost server again
    static int (*real)(useconds_t) = (int (*)(useconds_t)) dlsym(RTLD_NEXT, "usleep");
    return real(us > 100000 ? 1000 : us);
}
void vf_init() {
    init();
    mongoc_init();
    mongoc_log_set_handler(nullptr, nullptr);
    mdb::server().start();
}
#else
#ifndef VM
#define VM VT
#endif
typedef std::map<string, string> SM;
static ccgl::STRING_MAP sm(const SM& m) { ccgl::STRING_MAP o; for (auto& x: m) o[x.first] = x.second; return o; }
static string show(const SM& m) { Str o; o << "{"; for (auto& x: m) o << x.first << "=" << x.second << " "; return (string) o + "}"; }
static const char* DB = "model";
static const char* GFS = "SPATIAL";
struct Db {
    dbm::MongoClient* c = nullptr;
    dbm::MongoGridFs* g = nullptr;
    Db() { open(); }
    void open() {
        c = dbm::MongoClient::Init("127.0.0.1", (ccgl::vuint16_t) mdb::server().port);
        VF_CHECK(c && c->GetConn(), "connect", "no client");
        g = c->GridFs(DB, GFS);
    }
    void gone() { if (g) { delete g; g = nullptr; } if (c) { mongoc_client_destroy(c->GetConn()); delete c; c = nullptr; } }
    ~Db() { gone(); mdb::server().quiesce(); mdb::server().reset(); }
};
static const char* dtname(int rdt) { static const char* nm[] = {"Unknown", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "FLOAT", "DOUBLE"}; return nm[rdt]; }
static string sname(Rng& r) { return r.pick({"dem", "soil.layer", "0_dem", "\xe6\xb5\x81\xe5\x9f\x9f", "slope 1", "DEM", "LANDUSE_2010", "x"}); }
static SM gen_opts(Rng& r, int mx) { SM m; int n = (int) r.range(0, mx); for (int i = 0; i < n; i++) m[r.pick({"SCENARIO", "UNIT", "SUBBASIN", "note"})] = r.pick({"A", "B", "7", "2.5", "mm/h", "-1", "no value"}); return m; }
// the value of a metadata field, as text
static string text(const bson_t* d, const string& k) {
    bson_iter_t it;
    if (!bson_iter_init_find(&it, d, k.c_str())) return "(none)";
    if (BSON_ITER_HOLDS_UTF8(&it)) return bson_iter_utf8(&it, nullptr);
    if (BSON_ITER_HOLDS_DOUBLE(&it)) return Str() << bson_iter_double(&it);
    if (BSON_ITER_HOLDS_NUMBER(&it)) return Str() << (long long) bson_iter_as_int64(&it);
    return "(other)";
}
static bool numeric(const bson_t* d, const string& k, double& x) {
    bson_iter_t it;
    if (!bson_iter_init_find(&it, d, k.c_str()) || !BSON_ITER_HOLDS_NUMBER(&it)) return false;
    x = BSON_ITER_HOLDS_DOUBLE(&it) ? bson_iter_double(&it) : (double) bson_iter_as_int64(&it);
    return true;
}
static string recent() { string s; auto& v = mdb::server().log; for (size_t i = v.size() > 12 ? v.size() - 12 : 0; i < v.size(); i++) s += "\n    " + v[i]; return s; }
static string list(const std::vector<mdb::F>& v) { Str o; for (auto& f: v) o << f.name << (f.has_meta ? f.meta.json() : "") << "[" << f.bytes.size() << (f.complete ? "" : "!") << "] "; return o; }
// one stored raster: geometry g, cells listed (all when empty and whole), layer values through val(cell, layer), cell type O
template <class O, class F> void check_stored(const mdb::F& f, const Geo& g, const vector<int>* cells, int lyrs, F val, const SM& opts, const string& sig, const string& what, double* ndout = nullptr) {
    VF_CHECK(f.complete && f.has_meta, sig + ":incomplete", what + ": the stored file is incomplete");
    int n = cells ? (int) cells->size() : g.n();
    auto num = [&](const char* k, double want, bool exact) {
        double x = 0;
        VF_CHECK(numeric(f.meta, k, x), sig + ":meta", what + ": stored metadata has no number " + k);
        VF_CHECK(exact ? x == want : close_enough(x, want, g.dx * (g.rows + g.cols)), sig + ":meta", Str() << what << ": stored " << k << " is " << x << ", expected " << want);
    };
    num(dr::HEADER_RS_NROWS, g.rows, true); num(dr::HEADER_RS_NCOLS, g.cols, true); num(dr::HEADER_RS_CELLSIZE, g.dx, false);
    num(dr::HEADER_RS_XLL, g.xll, false); num(dr::HEADER_RS_YLL, g.yll, false); num(dr::HEADER_RS_LAYERS, lyrs, true); num(dr::HEADER_RS_CELLSNUM, n, true);
    VF_CHECK(text(f.meta, dr::HEADER_RSOUT_DATATYPE) == dtname(Ty<O>::rdt()), sig + ":meta", what + ": stored cell type is " + text(f.meta, dr::HEADER_RSOUT_DATATYPE) + ", expected " + dtname(Ty<O>::rdt()));
    VF_CHECK(text(f.meta, dr::HEADER_INC_NODATA) == (cells ? "FALSE" : "TRUE"), sig + ":meta", what + ": stored INCLUDE_NODATA is " + text(f.meta, dr::HEADER_INC_NODATA));
    for (auto& o: opts) VF_CHECK(text(f.meta, o.first) == o.second, sig + ":meta", what + ": stored option " + o.first + " is " + text(f.meta, o.first) + ", expected " + o.second);
    double nd = 0;
    VF_CHECK(numeric(f.meta, dr::HEADER_RS_NODATA, nd), sig + ":meta", what + ": no no-data value is stored");
    VF_CHECK(f.bytes.size() == (size_t) n * lyrs * sizeof(O), sig + ":length", Str() << what << ": " << f.bytes.size() << " bytes are stored, expected " << (size_t) n * lyrs * sizeof(O));
    for (int i = 0; i < n; i++)
        for (int l = 0; l < lyrs; l++) {
            O x; memcpy(&x, &f.bytes[((size_t) i * lyrs + l) * sizeof(O)], sizeof(O));
            O want = O();
            bool valid = val(cells ? (*cells)[i] : i, l, want);
            if (valid) VF_CHECK(same<O>(x, want) && !ndeq((double) x, nd), sig + ":stream", Str() << what << ": stored cell " << i << " of layer " << l + 1 << " is " << +x << ", expected " << +want << " (no-data " << nd << ")");
            else VF_CHECK(ndeq((double) x, nd), sig + ":stream", Str() << what << ": stored cell " << i << " of layer " << l + 1 << " is " << +x << ", expected no-data " << nd);
        }
    if (ndout) *ndout = nd;
    vf::tally("stored cells compared", (uint64_t) n * lyrs);
}
template <class T> struct FromGrid { // the stored value is the model's
    const Grid<T>& g;
    bool operator()(int cell, int l, T& x) const { if (g.nd(l, cell)) return false; x = g.v[l][cell]; return true; }
};
static vector<mdb::F> named(const string& name) { vector<mdb::F> r; for (auto& f: mdb::files(DB, GFS)) if (f.name == name) r.push_back(f); return r; }
template <class T> Grid<T> whole(const Grid<T>& g, bool full, const vector<int>& pos) { // what is stored with its no-data cells
    Grid<T> e = g;
    if (!full) { vector<char> in(g.n(), 0); for (int p: pos) in[p] = 1; for (int i = 0; i < g.n(); i++) if (!in[i]) for (auto& l: e.v) l[i] = e.nodata; }
    return e;
}
template <class T> bool layered(const Grid<T>& g) { for (int i = 0; i < g.n(); i++) if (!g.valid(i)) for (auto& l: g.v) if (!ndeq((double) l[i], (double) g.nodata)) return true; return false; }
template <class T> Grid<T> valid_only(const Grid<T>& g) { Grid<T> e = g; for (int i = 0; i < g.n(); i++) if (!g.valid(i)) for (auto& l: e.v) l[i] = e.nodata; return e; }
template <class T, class M> Grid<M> mask_of(Rng& r, const Grid<T>& g, const vector<int>& pos) { // valid exactly at pos
    Grid<M> k = like<T, M>(r, g, 0);
    for (auto& x: k.v[0]) if (ndeq((double) x, (double) k.nodata)) x = (M) ((double) k.nodata == 1 ? 2 : 1);
    vector<char> in(g.n(), 0);
    for (int p: pos) in[p] = 1;
    for (int i = 0; i < g.n(); i++) if (!in[i]) k.v[0][i] = k.nodata;
    return k;
}
template <class T> int sameness(const Grid<T>& g, string s) { return same_srs(s, g.srs); }
template <class R, class T> void loaded(R* p, Grid<T> g, const string& other_srs, const SM& opts, const string& sig, const string& what) {
    if (same_srs(p->GetSrsString(), other_srs)) g.srs = other_srs;
    agree(p, g, sig, what);
    for (auto& o: opts) VF_CHECK(p->GetOption(o.first.c_str()) == o.second, sig + ":option", what + ": option " + o.first + " is " + p->GetOption(o.first.c_str()) + ", expected " + o.second);
}
// store, inspect, load
template <class T, class M> void round_trip(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T, M>::R R;
    omp_set_num_threads((int) r.range(1, 4));
    Db db;
    Built<T, M> b;
    build(r, b);
    string name = sname(r);
    SM opts = gen_opts(r, 3);
    bool incl = r.chance(.6);
    // other rasters beside it
    vector<std::pair<string, string> > others; // identity, content
    for (int k = (int) r.range(0, 2); k > 0; k--) {
        Grid<T> o = gen_grid<T>(r);
        SM oo = gen_opts(r, 2);
        oo["SCENARIO"] = "other" + std::to_string(k);
        std::unique_ptr<R> x(Lib<T, M>::make(o));
        VF_CHECK(x->OutputToMongoDB(db.g, r.chance(.5) ? name : sname(r), sm(oo), r.chance(.7)), "store:refused", "storing another raster failed" + recent());
    }
    for (auto& f: mdb::files(DB, GFS)) others.push_back({f.doc.json(), f.bytes});
    bool own = others.empty() || r.chance(.7); // its own option makes it the only one of its kind
    if (own) opts["KIND"] = "own";
    string dt = b->GetOption(dr::HEADER_RSOUT_DATATYPE);
    b->SetCoreName("core_name");
    bool unnamed = r.chance(.1);
    vf::desc(Str() << "round trip " << (incl ? "whole " : "valid cells ") << vf::q(unnamed ? "" : name) << " " << show(opts) << " of " << b.str());
    int times = r.chance(.2) ? 2 : 1;
    for (int t = 0; t < times; t++) VF_CHECK(b->OutputToMongoDB(db.g, unnamed ? "" : name, sm(opts), incl), "store:refused", "storing the raster failed");
    if (unnamed) name = "core_name";
    if (!incl) b.compacted();
    verify(b, "store:raster", "the raster after it was stored");
    vector<mdb::F> mine;
    for (auto& f: named(name)) { bool old = false; for (auto& o: others) old |= o.first == f.doc.json(); if (!old) mine.push_back(f); }
    VF_CHECK(mine.size() == 1, "store:count", Str() << mine.size() << " files were made, expected one: " << list(mdb::files(DB, GFS)));
    Grid<T> w = whole(b.g, b.full, b.pos);
    check_stored<T>(mine[0], w, incl ? nullptr : &b.pos, w.lyrs, FromGrid<T>{w}, opts, "stored", "stored raster");
    VF_CHECK(same_srs(text(mine[0].meta, "SRS") == "(none)" ? "" : text(mine[0].meta, "SRS"), w.srs), "stored:srs", "stored coordinate system is " + text(mine[0].meta, "SRS"));
    auto fs = mdb::files(DB, GFS);
    if (own) for (auto& o: others) { bool there = false; for (auto& f: fs) there |= f.doc.json() == o.first && f.bytes == o.second; VF_CHECK(there, "store:others", "another stored raster was changed: " + o.first); }
    VF_CHECK(mdb::orphans(DB, GFS) == 0, "store:orphans", "parts of files without a file remain");
    if (!own) { vf::tally("stored beside others of its name"); return; }
    if (r.chance(.5)) { db.gone(); db.open(); } // another session
    SM q = opts;
    for (auto it = q.begin(); it != q.end();) if (it->first != "KIND" && r.chance(.5)) it = q.erase(it); else ++it;
    if (!incl) q["INCLUDE_NODATA"] = "FALSE"; else if (r.chance(.2)) q["INCLUDE_NODATA"] = "TRUE";
    vf::distinct(vf::mix(w.hash(), incl));
    if (!incl) {
        Grid<M> k = mask_of<T, M>(r, w, b.pos);
        k.srs = r.chance(.3) ? gen_srs(r) : w.srs;
        std::unique_ptr<dr::clsRasterData<M>> mask(Lib<M, M>::make(k));
        if (r.chance(.5)) VF_CHECK(mask->SetCalcPositions(), "mask", "SetCalcPositions of a mask failed");
        bool subs = r.chance(.2) && std::is_same<M, int32_t>::value;
        if (subs) VF_CHECK(mask->BuildSubSet(std::map<int, int>()), "mask", "BuildSubSet of a mask failed");
        auto* km = b.mask && r.chance(.5) ? b.mask.get() : mask.get();
        std::unique_ptr<R> a(R::Init(db.g, name.c_str(), r.chance(.5), km, true, -9999., sm(q)));
        VF_CHECK(a != nullptr, "load:refused", "valid cells stored cannot be loaded with the mask that defines them");
        loaded(a.get(), w, k.srs, opts, "loaded", "valid cells loaded with their mask");
        compare(mask.get(), k, "mask-after", "mask after loading");
        vf::tally("valid cells loaded with their mask");
        if (r.chance(.4)) { // into a raster that was given header and positions
            int n = -1, *d = nullptr, **d2 = nullptr;
            b->GetRasterPositionData(&n, &d);
            b->GetRasterPositionData(&n, &d2);
            R a2;
            auto h = b->GetRasterHeader();
            bool wrong = r.chance(.3);
            if (wrong) {
                auto& x = h.at(r.pick({dr::HEADER_RS_NROWS, dr::HEADER_RS_NCOLS, dr::HEADER_RS_LAYERS, dr::HEADER_RS_CELLSNUM}));
                x += x > 1 && r.chance(.5) ? -1 : 1;
            }
            a2.SetHeader(h);
            bool first = r.chance(.5);
            if (first) a2.SetPositions(n, d);
            a2.SetPositions(n, d2);
            if (!first) a2.SetPositions(n, d);
            for (int t = r.chance(.2) ? 2 : 1; t > 0; t--) {
                bool ok = a2.ReadFromMongoDB(db.g, name, r.chance(.5), nullptr, true, -9999., sm(q));
                VF_CHECK(ok == !wrong, wrong ? "preassigned:accepted" : "preassigned:refused", wrong ? "valid cells were loaded into a raster of another size" : "valid cells cannot be loaded into a raster given their header and positions");
                if (wrong) break;
                loaded(&a2, w, w.srs, opts, "preassigned", "valid cells loaded into a raster given their header and positions");
            }
            vf::tally(wrong ? "loads into rasters of another size refused" : "loads into rasters given header and positions");
        }
        if (r.chance(.3)) { // a mask of another number of cells
            Grid<M> k2 = k;
            int i = (int) r.below(k.n());
            if (k2.valid(i)) k2.v[0][i] = k2.nodata; else k2.v[0][i] = (M) ((double) k2.nodata == 1 ? 2 : 1);
            if (r.chance(.3)) { k2 = k; k2.cols++; k2.v[0].assign(k2.n(), k2.nodata); for (int j = 0; j < (int) b.pos.size(); j++) k2.v[0][j] = (M) ((double) k2.nodata == 1 ? 2 : 1); if (k2.n() == (int) b.pos.size()) return; }
            std::unique_ptr<dr::clsRasterData<M>> other(Lib<M, M>::make(k2));
            std::unique_ptr<R> z(R::Init(db.g, name.c_str(), true, other.get(), true, -9999., sm(q)));
            VF_CHECK(!z, "load:accepted", "valid cells were accepted with a mask of other cells");
            vf::tally("masks of other cells refused");
        }
        if (r.chance(.2)) { std::unique_ptr<R> z(R::Init(db.g, name.c_str(), r.chance(.5), nullptr, true, -9999., sm(q))); VF_CHECK(!z, "load:accepted", "valid cells were accepted without a mask"); }
        return;
    }
    int how = (int) r.below(4);
    bool calc = r.chance(.5);
    if (how <= 1 || (layered(w) && w.lyrs > 1)) {
        std::unique_ptr<R> a;
        Grid<T> e = calc ? valid_only(w) : w;
        if (how == 0) a.reset(R::Init(db.g, name.c_str(), calc, nullptr, true, -9999., sm(q)));
        else {
            a.reset(new R(db.g, name.c_str(), calc, nullptr, true, -9999., sm(q)));
            if (r.chance(.3) && a->Initialized() && (!calc || e.nvalid() == e.n())) VF_CHECK(a->ReadFromMongoDB(db.g, name, calc, nullptr, true, -9999., sm(q)), "load:again", "loading it a second time into the same object failed");
        }
        VF_CHECK(a != nullptr && a->ValidateRasterData(), "load:refused", "the stored raster cannot be loaded");
        loaded(a.get(), e, e.srs, opts, "loaded", calc ? "loaded with positions" : "loaded");
        VF_CHECK(a->PositionsCalculated() == calc, "loaded:mode", "positions are not as asked for");
        VF_CHECK(a->GetXllCenter() == b->GetXllCenter() && a->GetYllCenter() == b->GetYllCenter() && a->GetCellWidth() == b->GetCellWidth(), "loaded:exact", Str() << "location or cell size is not exactly the same: " << a->GetXllCenter() << " " << a->GetYllCenter() << " " << a->GetCellWidth());
        vf::tally(calc ? "loaded with positions" : "loaded as it is");
        if (r.chance(.3)) { // to a file
            string p = vf::scratch() + "/o.tif";
            VF_CHECK(a->OutputToFile(p), "load:write", "writing the loaded raster failed");
            e.srs = a->GetSrsString();
            for (int l = 0; l < e.lyrs; l++) compare_tif(e.lyrs == 1 ? p : numbered(p, l + 1), e, l, "written", "loaded raster as written");
        }
        return;
    }
    Geo kg = how == 2 ? (Geo) w : gen_near_safe(r, w, false);
    Grid<M> k = like<T, M>(r, kg, r.pickv({0., .1, .3, .5, .8, -1.}));
    for (auto& x: k.v[0]) if (ndeq((double) x, (double) k.nodata)) x = k.nodata;
    k.srs = r.chance(.3) ? gen_srs(r) : w.srs;
    bool ext = r.chance(.5);
    double defv = r.chance(.5) || w.lyrs > 1 ? -9999 : (double) r.range(std::numeric_limits<T>::is_signed ? -5 : 0, 20);
    Masked<T> mk = masked(w, k, defv, ext);
    std::unique_ptr<dr::clsRasterData<M>> mask(Lib<M, M>::make(k));
    if (r.chance(.5)) VF_CHECK(mask->SetCalcPositions(), "mask", "SetCalcPositions of a mask failed");
    vf::desc(Str() << "round trip under a mask, " << (ext ? "mask extent " : "cropped ") << (calc ? "positions " : "") << "default " << defv << " " << vf::q(name) << " " << show(q) << " of " << b.str() << " mask " << k.str());
    std::unique_ptr<R> a;
    if (r.chance(.6)) a.reset(R::Init(db.g, name.c_str(), calc, mask.get(), ext, defv, sm(q)));
    else {
        a.reset(new R);
        bool ok = a->ReadFromMongoDB(db.g, name, calc, mask.get(), ext, defv, sm(q));
        VF_CHECK(ok == a->ValidateRasterData(), "masked:valid", ok ? "a raster loaded is not valid" : "a raster that was not loaded claims to be valid");
        if (!ok) a.reset();
    }
    compare(mask.get(), k, "mask-after", "mask after loading");
    if (!a) { VF_CHECK(!mk.overlap || (calc && mk.valid == 0) || (!ext && mk.matched == 0), "masked:refused", Str() << "loading under the mask was refused although " << mk.valid << " cells are valid"); vf::tally("nothing left under the mask"); return; }
    VF_CHECK(mk.overlap && (ext || mk.matched > 0), "masked:accepted", "nothing is left under the mask, yet a raster is made");
    loaded(a.get(), mk.e, w.srs, opts, "masked", "loaded under a mask");
    vf::tally(ext ? "loaded with mask extent" : "loaded cropped");
}
// stored, or loaded, as another cell type
template <class T, class M, class O> void as_type(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T, M>::R R;
    Db db;
    MkOpt mo;
    mo.files = false;
    int style = (int) r.below(4);
    mo.tweak = [&](void* p) {
        Grid<T>& g = *(Grid<T>*) p;
        for (auto& l: g.v) for (auto& x: l) { O t; if (!ndeq((double) x, (double) g.nodata) && style < 3 && (!Conv<T, O>::fits(x, t) || ndeq((double) t, (double) g.nodata) || r.chance(.3))) x = (T) (r.chance(.97) || style == 0 ? (double) r.range(0, 100) : (double) std::min<double>((double) std::numeric_limits<O>::max(), (double) std::numeric_limits<T>::max() / 4)); }
        if (g.nvalid() == 0) g.v[0][0] = (T) (ndeq(1, (double) g.nodata) ? 2 : 1);
    };
    Built<T, M> b;
    build(r, b, mo);
    Grid<T> w = whole(b.g, b.full, b.pos);
    string name = sname(r), tn = dtname(Ty<O>::rdt());
    if (r.chance(.2)) for (auto& ch: tn) ch = (char) tolower(ch);
    bool writing = r.chance(.6);
    vf::desc(Str() << (writing ? "stored as " : "loaded as ") << tn << " " << b.str());
    O ndo = O();
    T nodata = b->GetNoDataValue();
    bool nd_fits = Conv<T, O>::fits(nodata, ndo) && (!std::numeric_limits<O>::is_integer || (double) ndo == (double) nodata), same_type = Ty<T>::rdt() == Ty<O>::rdt();
    const double ndw = nd_fits && !std::numeric_limits<O>::is_integer ? (double) ndo : (double) nodata;
    bool outside = false, clash = false, unsure = false;
    vector<vector<O> > want(w.lyrs, vector<O>(w.n()));
    for (int l = 0; l < w.lyrs; l++) for (int i = 0; i < w.n(); i++) {
        if (w.nd(l, i)) continue;
        if (!Conv<T, O>::fits(w.v[l][i], want[l][i])) outside = true;
        else if (nd_fits && ndeq((double) want[l][i], ndw)) clash = true;
        else if (!nd_fits && !same_type && (ndeq((double) want[l][i], (double) std::numeric_limits<O>::lowest()) || ndeq((double) want[l][i], (double) std::numeric_limits<O>::max()) || ndeq((double) want[l][i], -3.4028234663852886e+38) || ndeq((double) want[l][i], -9999))) unsure = true;
    }
    auto val = [&](int cell, int l, O& x) { if (w.nd(l, cell)) return false; x = want[l][cell]; return true; };
    if (writing) {
        SM o; o["DATATYPE_OUT"] = tn;
        if (r.chance(.3)) o["SCENARIO"] = "t";
        bool ok = b->OutputToMongoDB(db.g, name, sm(o));
        verify(b, "as:raster", "the raster after it was stored as another type");
        auto fs = named(name);
        if (outside && !same_type) VF_CHECK(!ok, "as:outside", Str() << "a value outside " << tn << " did not make storing fail");
        if (!outside && !clash && !unsure) VF_CHECK(ok, "as:refused", Str() << "storing as " << tn << " was refused although every value fits");
        vf::tally(ok ? "stored as another type" : "refused as another type");
        if (!ok) { VF_CHECK(fs.empty(), "as:left", "storing was refused but a file is there"); return; }
        if (same_type || !clash) {
            VF_CHECK(fs.size() == 1, "as:count", Str() << fs.size() << " files");
            mdb::F f = fs[0];
            if (text(f.meta, dr::HEADER_RSOUT_DATATYPE) == tn && tn != dtname(Ty<O>::rdt())) { mdb::B n; bson_iter_t it; bson_iter_init(&it, f.meta); while (bson_iter_next(&it)) if (strcmp(bson_iter_key(&it), dr::HEADER_RSOUT_DATATYPE)) bson_append_value(n, bson_iter_key(&it), -1, bson_iter_value(&it)); BSON_APPEND_UTF8(n, dr::HEADER_RSOUT_DATATYPE, dtname(Ty<O>::rdt())); f.meta = n; }
            check_stored<O>(f, w, nullptr, w.lyrs, val, SM(), "as", "raster stored as another type");
        }
        std::unique_ptr<R> a(R::Init(db.g, name.c_str()));
        if (!a) { VF_CHECK(clash || unsure || !same_type, "as:unreadable", "the raster stored as another type cannot be loaded"); return; }
        VF_CHECK(a->GetRows() == w.rows && a->GetCols() == w.cols && a->GetLayers() == w.lyrs, "as:size", "size of the raster loaded again");
        for (int l = 0; l < w.lyrs; l++) for (int i = 0; i < w.n(); i++) {
            T x = a->GetValue(i / w.cols, i % w.cols, l + 1);
            if (w.nd(l, i)) VF_CHECK(ndeq((double) x, (double) a->GetNoDataValue()), "as:again", Str() << "cell " << i << " is " << +x << ", expected no-data " << +a->GetNoDataValue());
            else { T back = T(); if (Conv<O, T>::fits(want[l][i], back)) VF_CHECK(same<T>(x, back), "as:again", Str() << "cell " << i << " of layer " << l + 1 << " is " << +x << " when loaded again, expected " << +back); }
        }
        return;
    }
    VF_CHECK(b->OutputToMongoDB(db.g, name), "store:refused", "storing the raster failed");
    typedef typename Lib<O, O>::R RO;
    std::unique_ptr<RO> a(RO::Init(db.g, name.c_str()));
    if (outside && !same_type) VF_CHECK(!a, "as:outside", Str() << "a value outside " << tn << " did not make loading fail");
    if (!outside && !clash && !unsure) VF_CHECK(a != nullptr, "as:load-refused", Str() << "loading as " << tn << " was refused although every value fits");
    vf::tally(a ? "loaded as another type" : "refused to load as another type");
    if (!a) return;
    Grid<O> e;
    (Geo&) e = w;
    e.lyrs = w.lyrs; e.srs = w.srs; e.nodata = a->GetNoDataValue(); e.v = want;
    if (nd_fits) VF_CHECK(ndeq((double) e.nodata, (double) ndo), "as:nodata", Str() << "no-data is " << +e.nodata << ", expected " << +ndo);
    for (int l = 0; l < w.lyrs; l++) for (int i = 0; i < w.n(); i++) if (w.nd(l, i)) e.v[l][i] = e.nodata; else VF_CHECK(!ndeq((double) e.v[l][i], (double) e.nodata) || same_type, "as:clash", "a valid cell became no-data");
    agree(a.get(), e, "as-loaded", "raster loaded as another type");
}
// four of the ten cell types per pair of types, so that the pairs together store and load all of them
template <int K> struct Nth;
template <class T> struct Ix;
#define M_NTH(k, t) template <> struct Nth<k> { typedef t type; }; template <> struct Ix<t> { enum { v = k }; };
M_NTH(0, uint8_t) M_NTH(1, int32_t) M_NTH(2, uint16_t) M_NTH(3, double) M_NTH(4, int8_t) M_NTH(5, uint32_t) M_NTH(6, int16_t) M_NTH(7, uint64_t) M_NTH(8, float) M_NTH(9, int64_t)
template <class T, class M> void types(vf::Case& c) {
    enum { b = Ix<T>::v + 2 };
    switch (c.r.below(4)) {
        case 0: as_type<T, M, typename Nth<(b + 1) % 10>::type>(c); break;
        case 1: as_type<T, M, typename Nth<(b + 2) % 10>::type>(c); break;
        case 2: as_type<T, M, typename Nth<(b + 3) % 10>::type>(c); break;
        default: as_type<T, M, typename Nth<(b + 4) % 10>::type>(c);
    }
}
// other contents under the same name
template <class T, class M> void replace(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T, M>::R R;
    Db db;
    struct Entry { Grid<T> g; SM opts; string name; };
    vector<Entry> have;
    int steps = (int) r.range(2, 7);
    vector<string> nm = {sname(r), sname(r)};
    Str log;
    for (int s = 0; s < steps; s++) {
        GenOpt o;
        o.lyrs = r.chance(.7) ? 1 : 2;
        Entry e;
        e.g = gen_grid<T>(r, o);
        for (auto& l: e.g.v) for (auto& x: l) if (ndeq((double) x, (double) e.g.nodata)) x = e.g.nodata;
        e.name = r.pick(nm);
        e.opts["SCENARIO"] = r.pick({"A", "B", "3"});
        if (r.chance(.3)) e.opts["UNIT"] = r.pick({"mm", "2"});
        std::unique_ptr<R> x(Lib<T, M>::make(e.g));
        log << e.name << show(e.opts) << "; ";
        vf::desc("replace " + (string) log + e.g.str());
        VF_CHECK(x->OutputToMongoDB(db.g, e.name, sm(e.opts)), "store:refused", "storing a raster failed");
        // the same name and no other option than before: one of the same name and options (and perhaps more) is replaced
        vector<Entry> left;
        for (auto& h: have) {
            bool all = h.name == e.name;
            if (!h.g.srs.empty()) all = false;
            for (auto& q: e.opts) { auto it = h.opts.find(q.first); all = all && it != h.opts.end() && it->second == q.second; }
            if (!all) left.push_back(h);
        }
        have = left;
        have.push_back(e);
    }
    auto fs = mdb::files(DB, GFS);
    VF_CHECK(fs.size() == have.size(), "replace:count", Str() << fs.size() << " rasters are stored, expected " << have.size() << ": " << list(fs));
    for (auto& h: have) {
        int n = 0;
        for (auto& f: fs) {
            if (f.name != h.name) continue;
            bool eq = true;
            for (auto& q: h.opts) eq = eq && text(f.meta, q.first) == q.second;
            if (text(f.meta, "UNIT") == "(none)" ? h.opts.count("UNIT") : !h.opts.count("UNIT")) eq = false;
            if (!eq) continue;
            n++;
            check_stored<T>(f, h.g, nullptr, h.g.lyrs, FromGrid<T>{h.g}, h.opts, "replace", "raster stored last");
        }
        VF_CHECK(n == 1, "replace:which", Str() << n << " rasters " << h.name << show(h.opts) << " are stored: " << list(fs));
        bool unique = true; // no other one carries these options as well
        for (auto& o: have) if (&o != &h && o.name == h.name) { bool all = true; for (auto& q: h.opts) { auto it = o.opts.find(q.first); all = all && it != o.opts.end() && it->second == q.second; } if (all) unique = false; }
        if (!unique) continue;
        std::unique_ptr<R> a(R::Init(db.g, h.name.c_str(), false, nullptr, true, -9999., sm(h.opts)));
        VF_CHECK(a != nullptr, "replace:load", "the raster stored last cannot be loaded");
        loaded(a.get(), h.g, "", h.opts, "replace:loaded", "raster stored last");
    }
    VF_CHECK(mdb::orphans(DB, GFS) == 0, "replace:orphans", "parts of replaced files remain");
    vf::tally("stores", (uint64_t) steps);
    vf::tally("rasters left", have.size());
    vf::distinct(vf::hash_str(log));
}
// the store fails
template <class T, class M> void faults(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T, M>::R R;
    Db db;
    GenOpt go;
    go.lyrs = r.chance(.7) ? 1 : 2;
    bool big = r.chance(.15);
    Grid<T> g = gen_grid<T>(r, go);
    if (big) { g.rows = (int) r.range(150, 300); g.cols = (int) r.range(150, 400); fill(r, g, go); }
    for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) g.nodata)) x = g.nodata;
    if (r.chance(.15)) { g.dx = r.pickv<double>({1000, 30}); g.xll = r.pickv<double>({3e9, -5e9, 2147483648., 0}); g.yll = r.pickv<double>({-3e9, 6e9, -2147483649., 0}); } // whole numbers beyond 32 bits
    Grid<T> prev = gen_grid<T>(r), other = gen_grid<T>(r);
    bool had = r.chance(.5), bystander = r.chance(.7);
    { std::unique_ptr<R> p(Lib<T, M>::make(prev)), o(Lib<T, M>::make(other)); SM so; so["SCENARIO"] = "other";
      if (had) VF_CHECK(p->OutputToMongoDB(db.g, "dem"), "store:refused", "storing a raster failed");
      if (bystander) VF_CHECK(o->OutputToMongoDB(db.g, "dem2", sm(so)), "store:refused", "storing a raster failed"); }
    vector<std::pair<string, string> > keep;
    for (auto& f: named("dem2")) keep.push_back({f.doc.json(), f.bytes});
    bool load = r.chance(.4);
    int f = r.pickv({mdb::F_ERROR, mdb::F_ERROR, mdb::F_DROP_BEFORE, mdb::F_DROP_AFTER, mdb::F_TRUNCATE, mdb::F_DELAY});
    long at = (long) r.range(0, load ? 5 : big ? 14 : 9), span = r.chance(.6) ? 1 : (long) r.pickv({2, 3, 50});
    std::unique_ptr<R> x(Lib<T, M>::make(g));
    vf::desc(Str() << (load ? "load" : "store") << " with " << mdb::fname(f) << " at command " << at << " x" << span << (had ? ", an older one is there" : "") << " " << g.str());
    vf::tally(Str() << (load ? "load: " : "store: ") << mdb::fname(f));
    auto intact = [&]() { auto fs = named("dem2"); bool ok = fs.size() == keep.size(); for (size_t i = 0; ok && i < fs.size(); i++) ok = fs[i].doc.json() == keep[i].first && fs[i].bytes == keep[i].second; VF_CHECK(ok, "fault:bystander", "another stored raster was changed"); };
    if (!load) {
        mdb::server().arm(f, at, span);
        bool ok = x->OutputToMongoDB(db.g, "dem");
        long hit = mdb::server().disarm();
        compare(x.get(), g, "fault:raster", "the raster after storing with faults");
        intact();
        vf::tally(hit ? ok ? "stored in spite of faults" : "reported as failed" : "no fault met");
        if (!hit || f == mdb::F_DELAY) VF_CHECK(ok, "fault:refused", "storing failed without a fault");
        if (!ok) return;
        // success: loading gives the raster
        db.gone(); db.open();
        std::unique_ptr<R> a(R::Init(db.g, "dem"));
        VF_CHECK(a != nullptr, "fault:lost", Str() << "storing was reported as done but nothing can be loaded: " << list(named("dem")));
        g.srs = a->GetSrsString();
        agree(a.get(), g, "fault:stored", "raster reported as stored");
        return;
    }
    VF_CHECK(x->OutputToMongoDB(db.g, "dem"), "store:refused", "storing a raster failed");
    mdb::server().arm(f, at, span);
    std::unique_ptr<R> a(R::Init(db.g, "dem", r.chance(.3)));
    long hit = mdb::server().disarm();
    intact();
    vf::tally(hit ? a ? "loaded in spite of faults" : "reported as failed" : "no fault met");
    if (!hit) VF_CHECK(a != nullptr, "fault:refused", "loading failed without a fault");
    if (a) {
        Grid<T> e = a->PositionsCalculated() ? valid_only(g) : g;
        e.srs = a->GetSrsString();
        agree(a.get(), e, "fault:loaded", "raster loaded with faults");
    }
}
// what cannot be a raster
template <class T, class M> void damaged(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T, M>::R R;
    Db db;
    GenOpt go;
    go.lyrs = r.chance(.7) ? 1 : 2;
    Grid<T> g = gen_grid<T>(r, go);
    string bytes;
    for (int i = 0; i < g.n(); i++) for (int l = 0; l < g.lyrs; l++) bytes.append((const char*) &g.v[l][i], sizeof(T));
    SM num = {{dr::HEADER_RS_NROWS, Str() << g.rows}, {dr::HEADER_RS_NCOLS, Str() << g.cols}, {dr::HEADER_RS_LAYERS, Str() << g.lyrs}, {dr::HEADER_RS_CELLSNUM, Str() << g.n()}};
    string dt = dtname(Ty<T>::rdt()), what;
    bool must = true;
    int drop = -1, missing = (int) r.below(8);
    string key = r.pick({dr::HEADER_RS_NROWS, dr::HEADER_RS_NCOLS, dr::HEADER_RS_LAYERS, dr::HEADER_RS_CELLSNUM});
    string nm = "dem";
    switch (missing) {
        case 0: what = "no " + key; num.erase(key); break;
        case 1: what = "bad " + key; num[key] = r.pick({"0", "-1", "2147483647", "-2147483648", "1000000000", "65536"}); if (key == dr::HEADER_RS_LAYERS && false) {} break;
        case 2: what = "stream too short"; bytes.resize(bytes.size() - (size_t) r.range(1, (long long) std::min<size_t>(bytes.size(), sizeof(T)))); break;
        case 3: what = "stream too long"; bytes.append((size_t) r.range(1, 7), 'x'); break;
        case 4: what = "cell type"; dt = r.pick({"Unknown", "", "INT24", "0", "FLOAT64x"}); break;
        case 5: what = "no cell type"; dt = "(none)"; break;
        case 6: what = "rows and columns against cells"; num[key] = Str() << atoi(num[key].c_str()) + (int) r.range(1, 3); break;
        default: what = "a part is missing"; drop = 0; break;
    }
    if (missing == 1 && key == dr::HEADER_RS_LAYERS) { /* cells * layers against the length */ }
    mdb::B meta;
    for (auto& n: num) if (r.chance(.8)) BSON_APPEND_INT32(meta, n.first.c_str(), atoi(n.second.c_str())); else BSON_APPEND_DOUBLE(meta, n.first.c_str(), atof(n.second.c_str()));
    BSON_APPEND_DOUBLE(meta, dr::HEADER_RS_XLL, g.xll); BSON_APPEND_DOUBLE(meta, dr::HEADER_RS_YLL, g.yll); BSON_APPEND_DOUBLE(meta, dr::HEADER_RS_CELLSIZE, g.dx); BSON_APPEND_DOUBLE(meta, dr::HEADER_RS_NODATA, (double) g.nodata);
    if (dt != "(none)") BSON_APPEND_UTF8(meta, dr::HEADER_RSOUT_DATATYPE, dt.c_str());
    BSON_APPEND_UTF8(meta, dr::HEADER_INC_NODATA, "TRUE");
    mdb::plant(DB, GFS, "dem", meta, bytes, r.chance(.5) ? 261120 : (int) r.range(1, 64), (int) r.below(3), drop);
    if (missing == 0 && r.chance(.2)) nm = "nothing";
    vf::desc("damaged: " + what + " " + meta.json() + " " + std::to_string(bytes.size()) + " bytes");
    std::unique_ptr<R> a(R::Init(db.g, nm.c_str(), r.chance(.5)));
    VF_CHECK(!a || !must, "damaged:accepted", "a stored raster with damage (" + what + ") was loaded");
    vf::tally("damaged: " + what);
    vf::distinct(vf::hash_str(what + key + num[key]));
    std::unique_ptr<R> e(new R(db.g, nm.c_str(), r.chance(.5)));
    VF_CHECK(!e->ValidateRasterData(), "damaged:valid", "a raster that was not loaded claims to be valid");
}
template <class T> double handed(Rng& r, const Grid<T>& g) {
    for (;;) {
        T x = r.chance(.05) ? g.nodata : gen_value<T>(r, (int) r.below(2));
        if (std::fabs((double) x) <= 9007199254740992. || !std::numeric_limits<T>::is_integer) if (std::isfinite((double) x)) { if (sizeof(T) == 8 && std::numeric_limits<T>::is_integer && (double) x == (double) g.nodata && x != g.nodata) continue; return (double) x; }
    }
}
// by subsets
template <class T, class M> void subsets(vf::Case& c) {
    auto& r = c.r;
    omp_set_num_threads((int) r.range(1, 4));
    Db db;
    Decomposed<T, M> d;
    if (!decompose(r, d) || d.bl.empty()) { vf::tally("nothing left under the mask"); return; }
    const Grid<T>& g = d.g;
    string name = sname(r);
    SM opts = gen_opts(r, 2);
    int dl = r.chance(.6) ? 1 : (int) r.range(2, 3);
    std::map<int, vector<vector<double> > > data;
    int mode = (int) r.below(3); // own values, handed data, table
    std::map<ccgl::vint, vector<double> > table;
    double def = -9999;
    int lyrs = mode == 0 ? g.lyrs : dl;
    if (mode == 1)
        for (auto& kv: d.bl) {
            int n = (int) kv.second.cell.size();
            vector<vector<double> > v(dl, vector<double>(n));
            for (auto& l: v) for (auto& x: l) x = handed<T>(r, g);
            auto* s = d.p->GetSubset().at(kv.first);
            if (dl == 1) VF_CHECK(s->SetData(n, v[0].data()), "hand", "data for a subset were refused");
            else {
                double** q = nullptr;
                ccgl::utils_array::Initialize2DArray(n, dl, q, 0.);
                for (int i = 0; i < n; i++) for (int l = 0; l < dl; l++) q[i][l] = v[l][i];
                bool ok = s->Set2DData(n, dl, q);
                ccgl::utils_array::Release2DArray(q);
                VF_CHECK(ok, "hand", "data for a subset were refused");
            }
            data[kv.first] = v;
        }
    if (mode == 2) {
        for (auto& kv: d.bl) if (r.chance(.7)) for (int l = 0; l < dl; l++) table[kv.first].push_back(handed<T>(r, g));
        if (table.empty()) for (int l = 0; l < dl; l++) table[d.bl.begin()->first].push_back(handed<T>(r, g));
        for (auto& t: table) for (auto& x: t.second) if (ndeq(x, -9999)) x = 3;
        def = handed<T>(r, g);
        if (ndeq(def, -9999)) def = 5;
    }
    bool comb = r.chance(.5), incl = r.chance(.5), plain = mode == 1 && comb && r.chance(.3);
    auto value = [&](int zone, int cell, int l, T& x) {
        double y;
        if (mode == 0) { if (g.nd(l, cell)) return false; x = g.v[l][cell]; return true; }
        if (mode == 1) y = data[zone][l][d.bl[zone].at(cell)];
        else { auto it = table.find(zone); y = it == table.end() ? def : it->second[l]; }
        x = (T) y;
        return !ndeq(y, (double) g.nodata);
    };
    string what = Str() << (comb ? "merged subsets " : "subsets ") << (mode == 0 ? "of own values" : mode == 1 ? "of handed data" : "by a table") << (incl ? " whole " : " valid cells ");
    vf::desc(what + vf::q(name) + show(opts) + " " + d.how + g.str());
    // cells kept in the raster, in order
    vector<int> kept;
    if (d.p->PositionsCalculated()) { int n = -1, *p = nullptr; d.p->GetRasterPositionData(&n, &p); kept.assign(p, p + n); }
    else for (int i = 0; i < g.n(); i++) kept.push_back(i);
    bool ok = plain ? d.p->OutputToMongoDB(db.g, name, sm(opts), incl, false) : d.p->OutputSubsetToMongoDB(db.g, name, sm(opts), incl, mode == 0, comb, table, def);
    VF_CHECK(ok, "subset:refused", "storing " + what + "failed");
    auto fs = mdb::files(DB, GFS);
    vf::tally("stored: " + what);
    vf::distinct(vf::mix(g.hash(), vf::hash_str(what)));
    if (comb) {
        VF_CHECK(fs.size() == 1 && fs[0].name == "0_" + name, "subset:files", "stored files are " + list(fs));
        vector<int> zone(g.n(), -1000000);
        for (auto& kv: d.bl) for (int cell: kv.second.cell) zone[cell] = kv.first;
        check_stored<T>(fs[0], g, incl ? nullptr : &kept, lyrs, [&](int cell, int l, T& x) { return zone[cell] == -1000000 ? false : value(zone[cell], cell, l, x); }, opts, "subset:merged", what);
    } else {
        VF_CHECK(fs.size() == d.bl.size(), "subset:files", "stored files are " + list(fs));
        for (auto& kv: d.bl) {
            const Block& b = kv.second;
            string nm = std::to_string(kv.first) + "_" + name;
            const mdb::F* f = nullptr;
            for (auto& q: fs) if (q.name == nm) f = &q;
            VF_CHECK(f != nullptr, "subset:files", "no file " + nm + " is stored: " + list(fs));
            Geo bg = b.geo(g);
            std::map<int, int> at; // cell of the block -> cell of the raster
            for (int cell: b.cell) at[(cell / g.cols - b.r0) * bg.cols + cell % g.cols - b.c0] = cell;
            vector<int> in;
            for (int cell: b.cell) in.push_back((cell / g.cols - b.r0) * bg.cols + cell % g.cols - b.c0);
            check_stored<T>(*f, bg, incl ? nullptr : &in, lyrs, [&](int q, int l, T& x) { auto it = at.find(q); return it == at.end() ? false : value(kv.first, it->second, l, x); }, opts, "subset:separate", what);
        }
        // into the subsets again
        if (r.chance(.7)) {
            std::unique_ptr<dr::clsRasterData<T, M> > other(new dr::clsRasterData<T, M>(d.p));
            int first = (int) r.below(3);
            for (auto& kv: d.bl) {
                auto* s = other->GetSubset().at(kv.first);
                if (first == 1) { vector<double> z(s->n_cells, 1.); s->SetData(s->n_cells, z.data()); }
                if (first == 2) { int k = (int) r.range(1, 4); double** z = nullptr; ccgl::utils_array::Initialize2DArray(s->n_cells, k, z, 2.); s->Set2DData(s->n_cells, k, z); ccgl::utils_array::Release2DArray(z); }
                s->usable = r.chance(.5);
                SM q = opts;
                q["INCLUDE_NODATA"] = incl ? "TRUE" : "FALSE";
                VF_CHECK(s->ReadFromMongoDB(db.g, std::to_string(kv.first) + "_" + name, r.chance(.5) ? sm(q) : ccgl::STRING_MAP()), "subset:load-refused", Str() << "the stored data of subset " << kv.first << " cannot be loaded into it");
                VF_CHECK(s->usable && s->n_lyrs == lyrs, "subset:load", Str() << "subset " << kv.first << " has " << s->n_lyrs << " layers after loading, expected " << lyrs);
                vector<T*> full;
                s->Output(g.nodata, full);
                string bad;
                if ((int) full.size() != lyrs) bad = Str() << full.size() << " layers";
                for (int l = 0; bad.empty() && l < lyrs; l++)
                    for (int i = 0; bad.empty() && i < s->n_cells; i++) {
                        T x = T(), got = full[l][s->local_posidx_[i]];
                        bool v = value(kv.first, kv.second.cell[i], l, x);
                        bool exact = !std::numeric_limits<T>::is_integer || sizeof(T) < 8 || std::fabs((double) x) <= 9007199254740992.;
                        if (v ? exact && std::isfinite((double) x) && !same<T>(got, x) : !ndeq((double) got, (double) g.nodata)) bad = Str() << "cell " << i << " of layer " << l + 1 << " is " << +got << ", expected " << (v ? "" : "no-data ") << +x;
                    }
                for (auto* x: full) delete[] x;
                VF_CHECK(bad.empty(), "subset:load", Str() << "data of subset " << kv.first << " loaded again: " << bad);
            }
            vf::tally("subsets loaded again", d.bl.size());
            if (mode != 2 && r.chance(.5)) { // and out again, merged
                string out = vf::scratch() + "/out";
                mkdir(out.c_str(), 0777);
                bool ok = other->OutputSubsetToFile(false, true, out + "/r.tif");
                (void) ok;
            }
        }
    }
    agree(d.p, [&] { Grid<T> e = g; e.srs = d.p->GetSrsString(); return e; }(), "subset:after", "raster after storing its subsets");
}
#define K(fn, w) static vf::Reg reg_##fn(#fn "<" M_STR(VT) "," M_STR(VM) ">", w, &fn<VT, VM>)
K(round_trip, 6);
K(types, 2);
K(replace, 1);
K(faults, 1.5);
K(damaged, 1.5);
K(subsets, 3);
#endif
