// C16: the command-line tool with a document database as source of rasters and masks and as destination of its products
#include "c16.hpp"
#include "mongod.hpp"
const char* vf_rule = "The tool built with the database support is run against a document-database server inside the harness: rasters and masks from files or from the store (planted there without the library, among files of other names), every mode, output type, default and no-data option, whole or without no-data cells, products to the store or to files; the stored documents and streams are parsed without the library and compared cell by cell with the model; zones are combined again; nothing else in the store may change.";
static const char* DB = "tool";
static const char* GFS = "SPATIAL";
void vf_init() { init(); mongoc_init(); mongoc_log_set_handler(nullptr, nullptr); mdb::server().start(); proc::tool() = "cli_mongo"; }
struct Store { ~Store() { mdb::server().quiesce(); mdb::server().reset(); } };
static const char* tname(int t) { return OT[t].name[0]; }
static int tof(const string& s) { for (int t = 0; t < 8; t++) if (s == tname(t)) return t; return -1; }
static string mtext(const bson_t* d, const char* k) { bson_iter_t it; return bson_iter_init_find(&it, d, k) && BSON_ITER_HOLDS_UTF8(&it) ? bson_iter_utf8(&it, nullptr) : ""; }
static bool mnum(const bson_t* d, const char* k, double& x) {
    bson_iter_t it;
    if (!bson_iter_init_find(&it, d, k) || !BSON_ITER_HOLDS_NUMBER(&it)) return false;
    x = BSON_ITER_HOLDS_DOUBLE(&it) ? bson_iter_double(&it) : (double) bson_iter_as_int64(&it);
    return true;
}
static void plant(Rng& r, const string& name, const G& g, int t) {
    mdb::B m;
    auto num = [&](const char* k, double x) { if (x == std::floor(x) && std::fabs(x) < 2e9 && r.chance(.7)) BSON_APPEND_INT32(m, k, (int32_t) x); else BSON_APPEND_DOUBLE(m, k, x); };
    num("NROWS", g.rows); num("NCOLS", g.cols); num("LAYERS", g.lyrs); num("CELLSNUM", g.n()); num("CELLSIZE", g.dx);
    num("XLLCENTER", g.xll); num("YLLCENTER", g.yll); num("NODATA_VALUE", g.nodata);
    BSON_APPEND_UTF8(m, "SRS", g.srs.c_str());
    BSON_APPEND_UTF8(m, "DATATYPE", tname(t)); BSON_APPEND_UTF8(m, "DATATYPE_OUT", tname(t)); BSON_APPEND_UTF8(m, "INCLUDE_NODATA", "TRUE");
    string bytes;
    with_type(t, [&](auto x) { for (int i = 0; i < g.n(); i++) for (int l = 0; l < g.lyrs; l++) { x = (decltype(x)) g.v[l][i]; bytes.append((const char*) &x, sizeof x); } });
    mdb::plant(DB, GFS, name.c_str(), m, bytes, 261120, (int) r.below(3));
}
static const mdb::F* find(const vector<mdb::F>& fs, const string& name) { const mdb::F* q = nullptr; for (auto& f: fs) if (f.name == name) { VF_CHECK(!q, "store:twice", "two stored files are called " + name); q = &f; } return q; }
static string list(const vector<mdb::F>& v) { Str o; for (auto& f: v) o << f.name << "[" << f.bytes.size() << "] "; return o; }
// A product in the store: geometry g; cells: candidates for the cells listed, each in order (when only cells with data are kept).
static void check_stored(const mdb::F& f, const Geo& g, int lyrs, int t, double nodata, const string& srs, bool incl, const vector<vector<int>>& cands, std::function<int(int, int, double&)> val, const string& sig, const string& what) {
    VF_CHECK(f.complete && f.has_meta, sig + ":incomplete", what + ": the stored file is incomplete");
    double x = 0;
    auto num = [&](const char* k, double want, bool exact) {
        VF_CHECK(mnum(f.meta, k, x), sig + ":meta", what + ": no number " + k + " is stored");
        VF_CHECK(exact ? x == want : close_enough(x, want, g.dx * (g.rows + g.cols)), sig + ":meta", Str() << what << ": stored " << k << " is " << x << ", expected " << want);
    };
    num("NROWS", g.rows, true); num("NCOLS", g.cols, true); num("CELLSIZE", g.dx, false); num("XLLCENTER", g.xll, false); num("YLLCENTER", g.yll, false); num("LAYERS", lyrs, true);
    VF_CHECK(mtext(f.meta, "DATATYPE_OUT") == tname(t), sig + ":type", what + ": stored cell type is " + mtext(f.meta, "DATATYPE_OUT") + ", expected " + tname(t));
    VF_CHECK(mtext(f.meta, "INCLUDE_NODATA") == (incl ? "TRUE" : "FALSE"), sig + ":meta", what + ": stored INCLUDE_NODATA is " + mtext(f.meta, "INCLUDE_NODATA"));
    VF_CHECK(same_srs(mtext(f.meta, "SRS"), srs), sig + ":srs", what + ": stored coordinate system is " + mtext(f.meta, "SRS"));
    num("NODATA_VALUE", nodata, true);
    VF_CHECK(mnum(f.meta, "CELLSNUM", x), sig + ":meta", what + ": no number of cells is stored");
    vector<int> all(g.n());
    for (int i = 0; i < g.n(); i++) all[i] = i;
    const vector<int>* cells = &all;
    if (!incl) { cells = nullptr; for (auto& c: cands) if ((int) c.size() == (int) x) { cells = &c; break; } }
    VF_CHECK(cells && cells->size() == (size_t) x, sig + ":cells", Str() << what << ": " << x << " cells are stored");
    with_type(t, [&](auto y) {
        size_t n = cells->size() * (size_t) lyrs * sizeof y;
        VF_CHECK(f.bytes.size() == n, sig + ":length", Str() << what << ": " << f.bytes.size() << " bytes are stored, expected " << n);
        for (size_t i = 0; i < cells->size(); i++)
            for (int l = 0; l < lyrs; l++) {
                memcpy(&y, &f.bytes[(i * lyrs + l) * sizeof y], sizeof y);
                double want = 0;
                int has = val((*cells)[i], l, want); // 0: no data, 1: the value, 2: either
                if (!has || (has == 2 && (double) y == nodata)) want = nodata;
                VF_CHECK((double) y == (double) (decltype(y)) want, sig + ":cell", Str() << what << ": stored cell " << (*cells)[i] << " of layer " << l + 1 << " is " << +y << ", expected " << want << (has ? "" : " (no-data)"));
            }
    });
    vf::tally("stored cells compared", (uint64_t) cells->size() * lyrs);
}
static vector<int> valid_cells(const G& w) { vector<int> v; for (int i = 0; i < w.n(); i++) if (w.valid(i)) v.push_back(i); return v; }
static void whole_stored(const mdb::F& f, const G& w, int t, bool incl, const vector<vector<int>>& cands, const string& sig, const string& what) {
    check_stored(f, w, w.lyrs, t, w.nodata, w.srs, incl, cands, [&](int c, int l, double& x) -> int { x = w.v[l][c]; return !w.nd(l, c); }, sig, what);
}
static void zone_stored(const mdb::F& f, const G& w, const vector<int>& zone, int t, bool incl, const string& sig, const string& what, const double* alt = nullptr) {
    int r0 = w.rows, r1 = -1, c0 = w.cols, c1 = -1;
    for (int c: zone) { r0 = std::min(r0, c / w.cols); r1 = std::max(r1, c / w.cols); c0 = std::min(c0, c % w.cols); c1 = std::max(c1, c % w.cols); }
    // the extent may be that of the zone or of its cells with data: take it from the document and check where it lies
    double nr = 0, nc = 0, x0 = 0, y0 = 0;
    VF_CHECK(f.has_meta && mnum(f.meta, "NROWS", nr) && mnum(f.meta, "NCOLS", nc) && mnum(f.meta, "XLLCENTER", x0) && mnum(f.meta, "YLLCENTER", y0), sig + ":meta", what + ": no geometry is stored");
    Geo g = w;
    g.rows = (int) nr; g.cols = (int) nc; g.xll = x0; g.yll = y0;
    int oc = (int) std::lround((x0 - w.xll) / w.dx), ob = (int) std::lround((y0 - w.yll) / w.dx), orow = w.rows - ob - g.rows;
    double sc = w.dx * (w.rows + w.cols);
    VF_CHECK(close_enough(x0, w.xll + oc * w.dx, sc) && close_enough(y0, w.yll + ob * w.dx, sc) && oc >= c0 && orow >= r0 && oc + g.cols <= c1 + 1 && orow + g.rows <= r1 + 1, sig + ":place", Str() << what << ": the stored extent is " << g.rows << "x" << g.cols << " at row " << orow << ", column " << oc);
    vector<int> in, with;
    for (int c: zone) {
        int row = c / w.cols - orow, col = c % w.cols - oc;
        bool inside = row >= 0 && col >= 0 && row < g.rows && col < g.cols;
        if (w.valid(c)) VF_CHECK(inside, sig + ":lost", Str() << what << ": cell " << c << " of the zone lies outside the stored extent");
        if (inside) { in.push_back(row * g.cols + col); if (w.valid(c)) with.push_back(row * g.cols + col); }
    }
    std::set<int> zs(zone.begin(), zone.end());
    check_stored(f, g, w.lyrs, t, w.nodata, w.srs, incl, {with, in}, [&](int q, int l, double& x) -> int {
        int c = (orow + q / g.cols) * w.cols + oc + q % g.cols;
        if (!zs.count(c)) return 0;
        if (w.nd(l, c)) { if (alt) x = *alt; return alt ? 2 : 0; }
        x = w.v[l][c];
        return 1;
    }, sig, what);
}
static vector<string> with_store(Rng& r, vector<string> args, string& given, bool incl) {
    vector<string> a = {string(r.pick({"-mongo", "-MONGO", "-Mongodb"})), "127.0.0.1", std::to_string(mdb::server().port), DB, GFS};
    if (!incl || r.chance(.3)) { a.push_back("-include_nodata"); a.push_back(incl ? "1" : "0"); given += incl ? " -include_nodata 1" : " -include_nodata 0"; }
    args.insert(r.chance(.5) ? args.begin() : args.end(), a.begin(), a.end());
    return args;
}
// the tool's options when rasters are named in the store: always on the command line
static vector<string> render_store(Rng& r, const Opts& o, bool inst, bool maskst, bool outst, string& given) {
    vector<std::pair<string, vector<string>>> kv;
    auto src = [&](const string& p, bool st) { vector<string> v; if (st ? r.chance(.7) : r.chance(.5)) v.push_back(st ? r.pick({"GFS", "gfs", "GridFS"}) : r.pick({"FILE", "file"})); v.push_back(p); return v; };
    if (!o.mode.empty()) kv.push_back({"mode", {o.mode}});
    if (!o.mask.empty()) kv.push_back({"mask", src(o.mask, maskst)});
    if (o.threads) kv.push_back({"thread", {std::to_string(o.threads)}});
    kv.push_back({"in", src(join(o.in), inst)});
    { vector<string> v = {outst ? r.pick({"GFS", "gfs"}) : "FILE", o.out}; kv.push_back({"out", v}); }
    if (o.type >= 0) kv.push_back({"outdatatype", {OT[o.type].name[r.below(2)]}});
    if (o.hasdef) kv.push_back({"default", {num(o.def)}});
    if (o.hasnd) kv.push_back({"nodata", {num(o.nd)}});
    r.shuffle(kv);
    vector<string> args;
    for (auto& p: kv) { args.push_back("-" + recase(r, p.first)); args.insert(args.end(), p.second.begin(), p.second.end()); }
    given = proc::show(args);
    return args;
}
static string sname(Rng& r) { return r.pick({"dem", "soil.layer", "slope_1", "DEM", "LANDUSE_2010", "x", "a-b"}); }
struct Others { vector<std::pair<string, string>> f; };
static Others bystanders(Rng& r, const string& name) {
    Others o;
    for (int k = (int) r.range(0, 2); k > 0; k--) {
        G g; (Geo&) g = gen_geo(r); g.lyrs = 1; g.nodata = -9999; g.v.assign(1, vector<double>(g.n(), 7)); g.srs = "";
        plant(r, r.pickv<string>({"other", "1_other", name + "2", "z"}), g, 7);
    }
    for (auto& f: mdb::files(DB, GFS)) o.f.push_back({f.doc.json(), f.bytes});
    return o;
}
static void untouched(const Others& o, const vector<mdb::F>& fs, const string& what) {
    for (auto& p: o.f) { bool there = false; for (auto& f: fs) there |= f.doc.json() == p.first && f.bytes == p.second; VF_CHECK(there, "store:others", what + ": another stored file was changed"); }
}
VF_KIND(stored_products, 3) {
    auto& r = c.r;
    Store st;
    string dir = vf::scratch() + "/w", out = dir + "/out", given, given2;
    mkdir(dir.c_str(), 0777); mkdir(out.c_str(), 0777);
    int mode = r.pickv({0, 0, 1, 1, 2});
    Opts o = gen_opts(r);
    if (o.type < 0 && r.chance(.5)) o.type = 7;
    o.mode = mode == 0 && r.chance(.5) ? "" : mode_name(r, mode);
    bool usemask = r.chance(.75), inst = r.chance(.6), maskst = r.chance(.5), outst = r.chance(.75) || !inst, incl = !outst || inst || r.chance(.5);
    if (!usemask) incl = incl || r.chance(.5);
    bool self = !usemask && mode != 0;
    int lyrs = self || r.chance(.75) ? 1 : (int) r.range(2, 3);
    double avoid = o.hasnd ? o.nd : 1e99;
    Src s = gen_src(r, dir, "a", o.otype(), !o.hasnd, avoid, lyrs, self);
    string iname = sname(r) + "_in", mname = sname(r) + "_m", oname = sname(r);
    bool fit = fits(s.g.nodata, o.otype());
    if (!fit) inst = false;
    if (inst) { plant(r, iname, s.g, o.otype()); o.in = {iname}; } else o.in = s.paths;
    Mask k;
    if (usemask) {
        k = gen_mask(r, dir, r.chance(.3) ? (Geo) s.g : gen_near_safe(r, s.g, false));
        for (int q = 0; q < 40 && ambiguous(s.g, k.g); q++) k = gen_mask(r, dir, (Geo) s.g);
        if (maskst) { plant(r, mname, k.g, r.pickv({7, 5, 7})); o.mask = mname; } else o.mask = k.path;
        if (lyrs == 1 && r.chance(.3)) { o.hasdef = true; int q = 0; do o.def = (double) r.range(0, 100); while ((o.def == s.g.nodata || o.def == avoid || !fits(o.def, o.otype())) && ++q < 99); }
    }
    if (inst && !outst) incl = true;
    o.out = outst ? oname : out + "/o.tif";
    Others others = bystanders(r, oname);
    auto args = with_store(r, render_store(r, o, inst, maskst, outst, given), given, incl);
    vf::desc("stored products " + given + " " + s.g.str() + (usemask ? " mask " + k.g.str() : ""));
    auto res = proc::run(args, dir);
    vf::distinct(vf::mix(vf::mix(s.g.hash(), usemask ? k.g.hash() : 0), vf::hash_str(given)));
    vf::tally(string(inst ? "from the store" : "from files") + (outst ? " to the store" : " to files") + (incl ? "" : ", valid cells"));
    bool touching = true;
    G w = usemask ? masked(s.g, k.g, o, touching) : plain(s.g, o);
    auto fs = mdb::files(DB, GFS);
    untouched(others, fs, given);
    VF_CHECK(mdb::orphans(DB, GFS) == 0, "store:orphans", given + ": parts of files without a file remain");
    std::set<string> want;
    for (auto& f: others.f) (void) f;
    if (!touching) { VF_CHECK(res.code == 3, "stored:status", Str() << given << ": exit status " << res.code << " although nothing is left\n" << res.out.substr(0, 2000)); VF_CHECK(fs.size() == others.f.size(), "stored:phantom", given + ": something was stored although nothing is left"); return; }
    Zones z = usemask ? zones_of(k.g, {}) : zones_of(w, {});
    bool anyzone = false, unsure = !incl && w.nvalid() == 0;
    for (auto& kv: z) for (int q: kv.second) anyzone = anyzone || !w.nd(0, q);
    if (mode != 0 && !anyzone) unsure = true;
    if (unsure) return;
    VF_CHECK(res.code == 0, "stored:status", Str() << given << ": exit status " << res.code << " although everything could be done\n" << res.out.substr(0, 2000));
    size_t n = others.f.size();
    vector<vector<int>> cands = {valid_cells(w)};
    if (usemask) cands.push_back(valid_cells(k.g));
    if (mode != 1) {
        if (outst) {
            auto* f = find(fs, "0_" + oname);
            VF_CHECK(f, "stored:missing", given + ": no file 0_" + oname + " is stored: " + list(fs));
            whole_stored(*f, w, o.otype(), incl, cands, "stored", given);
            n++;
        } else for (int l = 0; l < lyrs; l++) compare_out(lyrs > 1 ? numbered(o.out, l + 1) : o.out, w, o.otype(), l, "stored-to-file", given);
    }
    if (mode != 0) for (auto& kv: z) {
        bool has = false;
        for (int q: kv.second) has = has || !w.nd(0, q);
        string nm = std::to_string(kv.first) + "_" + oname, what = Str() << given << ": zone " << kv.first;
        if (outst) {
            auto* f = find(fs, nm);
            if (kv.first == 0 && mode == 2) continue; // shares its name with the whole
            VF_CHECK(f || !has, "stored:missing", what + ": no file " + nm + " is stored: " + list(fs));
            if (f) { zone_stored(*f, w, kv.second, o.otype(), incl, "stored-zone", what); n++; }
        } else for (int l = 0; l < lyrs; l++) {
            string p = prefixed(lyrs > 1 ? numbered(o.out, l + 1) : o.out, kv.first);
            if (has) zone_file(p, w, kv.second, o.otype(), l, "stored-zone-file", what, false);
        }
    }
    if (!(mode == 2 && z.count(0))) VF_CHECK(fs.size() == n, "stored:files", Str() << given << ": stored files are " << list(fs) << ", expected " << n);
    if (!outst) VF_CHECK(fs.size() == others.f.size(), "stored:files", given + ": products for files were stored: " + list(fs));
}
// by a table of values
VF_KIND(stored_reclassed, 1) {
    auto& r = c.r;
    Store st;
    string dir = vf::scratch() + "/w", given;
    mkdir(dir.c_str(), 0777);
    Opts o = gen_opts(r);
    if (o.type < 0) o.type = 7;
    int mode = (int) r.below(2);
    o.mode = mode_name(r, mode);
    bool usemask = r.chance(.6), maskst = r.chance(.5), inst = r.chance(.5);
    double avoid = o.hasnd ? o.nd : 1e99;
    Src s = gen_src(r, dir, "a", o.otype(), true, avoid, 1, true);
    if (!fits(s.g.nodata, o.otype())) inst = false;
    string oname = sname(r);
    if (inst) { plant(r, "classes", s.g, o.otype()); o.in = {"classes"}; } else o.in = s.paths;
    Mask k;
    if (usemask) {
        k = gen_mask(r, dir, (Geo) s.g);
        if (maskst) { plant(r, "the_mask", k.g, 7); o.mask = "the_mask"; } else o.mask = k.path;
    }
    double nd = o.hasnd ? o.nd : s.g.nodata;
    bool touching = true;
    if (r.chance(.5)) { o.hasdef = true; int q = 0; do o.def = (double) r.range(0, 100); while ((o.def == s.g.nodata || o.def == nd || !fits(o.def, o.otype())) && ++q < 99); }
    G w = usemask ? masked(s.g, k.g, o, touching) : plain(s.g, o);
    int nv = r.chance(.6) ? 1 : (int) r.range(2, 3);
    std::set<int> keys;
    for (double x: s.g.v[0]) if (x != s.g.nodata) keys.insert((int) x);
    auto value = [&] { for (;;) { double x = (double) r.range(0, 120); if (x != nd && fits(x, o.otype())) return x; } };
    bool every = r.chance(.5);
    for (int q: keys) if (every || r.chance(.6)) for (int i = 0; i < nv; i++) o.recls[q].push_back(value());
    if (o.recls.empty() || r.chance(.2)) for (int i = 0; i < nv; i++) o.recls[4711].push_back(value());
    o.out = oname;
    Others others = bystanders(r, oname);
    auto args = render_store(r, o, inst, maskst, true, given);
    args.push_back("-reclass"); args.push_back(recls_text(o.recls));
    given += " -reclass " + recls_text(o.recls);
    args = with_store(r, args, given, true);
    vf::desc("stored reclassified " + given + " " + s.g.str() + (usemask ? " mask " + k.g.str() : ""));
    auto res = proc::run(args, dir);
    if (!touching || w.nvalid() == 0) return;
    vf::distinct(vf::mix(s.g.hash(), vf::hash_str(given)));
    VF_CHECK(res.code == 0, "stored-reclass:status", Str() << given << ": exit status " << res.code << "\n" << res.out.substr(0, 2000));
    G e = w;
    e.lyrs = nv;
    e.v.assign(nv, vector<double>(w.n(), w.nodata));
    double def = o.hasdef ? o.def : w.nodata;
    for (int i = 0; i < w.n(); i++) if (w.valid(i)) { auto it = o.recls.find((int) w.v[0][i]); for (int l = 0; l < nv; l++) e.v[l][i] = it == o.recls.end() ? def : it->second[l]; }
    Zones z = usemask && mode != 0 ? zones_of(k.g, {}) : zones_of(w, {});
    auto fs = mdb::files(DB, GFS);
    untouched(others, fs, given);
    size_t n = others.f.size();
    if (mode == 0) {
        auto* f = find(fs, "0_" + oname);
        VF_CHECK(f, "stored-reclass:missing", given + ": no file 0_" + oname + " is stored: " + list(fs));
        check_stored(*f, e, nv, o.otype(), e.nodata, e.srs, true, {}, [&](int q, int l, double& x) -> int { x = w.valid(q) ? e.v[l][q] : def; return w.valid(q) ? 1 : 2; }, "stored-reclass", given);
        n++;
    } else for (auto& kv: z) {
        bool has = false;
        for (int q: kv.second) has = has || w.valid(q);
        string nm = std::to_string(kv.first) + "_" + oname, what = Str() << given << ": reclassified zone " << kv.first;
        auto* f = find(fs, nm);
        VF_CHECK(f || !has, "stored-reclass:missing", what + ": no file " + nm + " is stored: " + list(fs));
        if (f) { zone_stored(*f, e, kv.second, o.otype(), true, "stored-reclass-zone", what, &def); n++; }
    }
    VF_CHECK(fs.size() == n, "stored-reclass:files", Str() << given << ": stored files are " << list(fs) << ", expected " << n);
    vf::tally("reclassified into the store");
}
// decompose into the store, combine from it
VF_KIND(stored_and_back, 2) {
    auto& r = c.r;
    Store st;
    string dir = vf::scratch() + "/w", given, given2;
    mkdir(dir.c_str(), 0777);
    Opts o = gen_opts(r);
    o.hasnd = false;
    o.mode = mode_name(r, 1);
    bool incl = r.chance(.5), maskst = r.chance(.5), inst = incl && r.chance(.5);
    if (o.type < 0) o.type = 7;
    Src s = gen_src(r, dir, "a", o.otype(), true, 1e99, 1, false);
    Mask k = gen_mask(r, dir, (Geo) s.g, r.chance(.5) ? 0. : -2);
    // every cell of the mask has data
    double fill = 0;
    for (int l = 0; l < 1; l++) for (int i = 0; i < s.g.n(); i++) if (!s.g.nd(l, i)) { fill = s.g.v[l][i]; break; }
    bool holes = r.chance(.2);
    if (!holes) { for (auto& x: s.g.v[0]) if (x == s.g.nodata) x = fill; for (size_t l = 0; l < s.paths.size(); l++) put(s.paths[l], s.g, s.type, (int) l); }
    if (holes && !incl) return;
    string iname = "src", oname = sname(r);
    if (inst) { plant(r, iname, s.g, o.otype()); o.in = {iname}; } else o.in = s.paths;
    if (maskst) { plant(r, "the_mask", k.g, 7); o.mask = "the_mask"; } else o.mask = k.path;
    o.out = oname;
    auto args = with_store(r, render_store(r, o, inst, maskst, true, given), given, incl);
    vf::desc("stored and back " + given + " " + s.g.str() + " mask " + k.g.str());
    bool touching;
    G w = masked(s.g, k.g, o, touching);
    auto res = proc::run(args, dir);
    if (w.nvalid() == 0) return;
    VF_CHECK(touching && res.code == 0, "back:dec-status", Str() << given << ": exit status " << res.code << "\n" << res.out.substr(0, 2000));
    Zones z = zones_of(k.g, {});
    Opts b;
    b.mode = mode_name(r, 3);
    b.mask = o.mask;
    b.threads = o.threads;
    b.type = o.type;
    b.out = "whole";
    auto before = mdb::files(DB, GFS);
    for (auto& f: before) { size_t u = f.name.find('_'); if (u != string::npos && f.name.substr(u + 1) == oname && f.name != "the_mask") b.in.push_back(f.name); }
    r.shuffle(b.in);
    for (auto& p: b.in) if (p[0] != '-') { std::swap(p, b.in[0]); break; } // an argument beginning with a dash is an option
    if (b.in.empty() || b.in[0][0] == '-') return;
    bool clash = !fits(k.g.nodata, b.otype());
    for (double x: w.v[0]) if (x == k.g.nodata && x != w.nodata) clash = true;
    if (clash) { vf::tally("a value is the mask's no-data value"); return; }
    for (auto& kv: z) for (int q: kv.second) if (w.nd(0, q) && !holes) VF_CHECK(false, "harness", "hole");
    auto args2 = with_store(r, render_store(r, b, true, maskst, true, given2), given2, incl);
    vf::desc("stored and back " + given + " then " + given2 + " " + s.g.str() + " mask " + k.g.str());
    auto res2 = proc::run(args2, dir);
    vf::distinct(vf::mix(vf::mix(s.g.hash(), k.g.hash()), vf::hash_str(given2)));
    if (holes && res2.code != 0) { vf::tally("incomplete zones refused"); return; }
    VF_CHECK(res2.code == 0, "back:com-status", Str() << given2 << ": exit status " << res2.code << "\n" << res2.out.substr(0, 2000));
    G e = w;
    e.nodata = k.g.nodata;
    for (auto& x: e.v[0]) if (x == w.nodata) x = e.nodata;
    auto fs = mdb::files(DB, GFS);
    const mdb::F* f = find(fs, "whole");
    if (!f) f = find(fs, "0_whole");
    VF_CHECK(f, "back:missing", given2 + ": no mosaic is stored: " + list(fs) + "\n" + res2.out.substr(0, 2000));
    whole_stored(*f, e, b.otype(), incl, {valid_cells(k.g), valid_cells(e)}, "stored-back", given + " then " + given2);
    VF_CHECK(fs.size() == before.size() + 1, "back:files", given2 + ": stored files are " + list(fs));
    vf::tally("decomposed into the store and combined");
}
// what cannot be done ends with a non-zero status
VF_KIND(stored_refused, 1) {
    auto& r = c.r;
    Store st;
    string dir = vf::scratch() + "/w", given;
    mkdir(dir.c_str(), 0777);
    Opts o = gen_opts(r);
    if (o.type < 0) o.type = 7;
    o.mode = mode_name(r, (int) r.below(3));
    Src s = gen_src(r, dir, "a", o.otype(), true, o.hasnd ? o.nd : 1e99, 1, false);
    Mask k = gen_mask(r, dir, (Geo) s.g);
    plant(r, "src", s.g, o.otype());
    plant(r, "the_mask", k.g, 7);
    o.in = {"src"}; o.mask = "the_mask"; o.out = "product";
    int why = (int) r.below(5);
    static const char* wn[] = {"no such raster", "no such mask", "bytes are missing", "too few arguments", "the server refuses to store"};
    if (why == 0) o.in = {"nothing"};
    if (why == 1) o.mask = "no_mask";
    if (why == 2) {
        auto ns = string(DB) + "." + GFS + ".chunks";
        std::lock_guard<std::mutex> l(mdb::server().m);
        mdb::server().colls[ns].clear();
    }
    auto args = with_store(r, render_store(r, o, true, true, true, given), given, true);
    if (why == 3) for (size_t i = 0; i < args.size(); i++) if (args[i].compare(0, 6, "-mongo") == 0 || args[i].compare(0, 6, "-MONGO") == 0 || args[i].compare(0, 6, "-Mongo") == 0) { args.erase(args.begin() + (long) i + 1 + (long) r.below(4)); break; }
    vf::desc(Str() << "stored refused (" << wn[why] << ") " << given << " " << s.g.str() << " mask " << k.g.str());
    vf::distinct(vf::mix(s.g.hash(), vf::hash_str(given)));
    vf::tally(string("refused: ") + wn[why]);
    auto before = mdb::files(DB, GFS);
    if (why == 4) mdb::server().arm(mdb::F_ERROR, 0, 1000000, "update");
    auto res = proc::run(args, dir);
    mdb::server().disarm();
    VF_CHECK(res.code != 0, "refused:status", Str() << given << " (" << wn[why] << "): exit status 0\n" << res.out.substr(0, 2000));
    auto fs = mdb::files(DB, GFS);
    for (auto& f: fs) { bool old = false; for (auto& q: before) old |= q.doc.json() == f.doc.json(); if (why != 4) VF_CHECK(old, "refused:stored", Str() << given << " (" << wn[why] << "): stored " << f.name); }
}
