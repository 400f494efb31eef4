#ifndef VF_C16_HPP
#define VF_C16_HPP
// Inputs, options and the model of the command-line tool (C16)
#include <sys/stat.h>
#include "subs.hpp"
#include "proc.hpp"
using namespace m;
typedef Grid<double> G;
struct OutType { const char* name[2]; double lo, hi; bool fp; };
static const OutType OT[8] = {{{"UINT8", "uint8"}, 0, 255, false}, {{"INT8", "int8"}, -128, 127, false}, {{"UINT16", "uint16"}, 0, 65535, false}, {{"INT16", "int16"}, -32768, 32767, false},
    {{"UINT32", "uint32"}, 0, 4294967295., false}, {{"INT32", "int32"}, -2147483648., 2147483647., false}, {{"FLOAT", "float"}, -1e30, 1e30, true}, {{"DOUBLE", "double"}, -1e300, 1e300, true}};
template <class F> static void with_type(int t, F f) {
    switch (t) {
        case 0: f(uint8_t()); break; case 1: f(int8_t()); break; case 2: f(uint16_t()); break; case 3: f(int16_t()); break;
        case 4: f(uint32_t()); break; case 5: f(int32_t()); break; case 6: f(float()); break; default: f(double());
    }
}
template <class T> static Grid<T> as(const G& g) {
    Grid<T> o;
    (Geo&) o = g;
    o.lyrs = g.lyrs; o.nodata = (T) g.nodata; o.srs = g.srs;
    for (auto& l: g.v) { vector<T> w; for (double x: l) w.push_back((T) x); o.v.push_back(w); }
    return o;
}
static bool put(const string& path, const G& g, int t, int lyr) {
    if (path.substr(path.size() - 4) == ".asc") { vf::write_file(path, asc_text(g, lyr)); return true; }
    bool ok = false;
    with_type(t, [&](auto x) { ok = gdal_write(path, as<decltype(x)>(g), lyr); });
    return ok;
}
static void compare_out(const string& path, const G& g, int t, int lyr, const string& sig, const string& what) {
    with_type(t, [&](auto x) { compare_file(path, as<decltype(x)>(g), lyr, sig, what); });
}
static bool fits(double v, int t) { return v >= OT[t].lo && v <= OT[t].hi && (OT[t].fp ? t == 7 || (double) (float) v == v : v == std::floor(v)); }
static string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }

struct Opts { // what the tool is asked for
    string mode;
    vector<string> in; string out, mask;
    int type; // -1: not given
    bool hasdef, hasnd; double def, nd;
    std::map<int, vector<double>> recls;
    int threads; // 0: not given
    Opts(): type(-1), hasdef(false), hasnd(false), def(-9999), nd(-9999), threads(0) {}
    int otype() const { return type < 0 ? 7 : type; }
};
static string join(const vector<string>& v) { string s; for (auto& x: v) s += (s.empty() ? "" : ",") + x; return s; }
static string recls_text(const std::map<int, vector<double>>& t) {
    string s;
    for (auto& kv: t) { s += (s.empty() ? "" : ",") + std::to_string(kv.first) + ":"; for (size_t i = 0; i < kv.second.size(); i++) s += (i ? "|" : "") + num(kv.second[i]); }
    return s;
}
static string recase(Rng& r, string s) { int k = (int) r.below(3); for (auto& c: s) c = k == 0 ? c : k == 1 ? (char) toupper(c) : (char) tolower(c); return s; }
// The same options in one of the ways they can be given. items: further data items with the same mode, mask and threads.
static vector<string> render(Rng& r, const Opts& o, const string& dir, string& text, const vector<Opts>& items = vector<Opts>()) {
    int how = items.empty() ? (int) r.below(5) : 4;
    string cfg = dir + "/run.cfg", body;
    vector<std::pair<string, vector<string>>> kv;
    auto typed = [&](const string& p) { vector<string> v; if (r.chance(.5)) v.push_back(r.pick({"FILE", "file", "SFILE"})); v.push_back(p); return v; };
    if (!o.mode.empty()) kv.push_back({"mode", {o.mode}});
    if (!o.mask.empty()) kv.push_back({"mask", typed(o.mask)});
    if (o.threads) kv.push_back({"thread", {std::to_string(o.threads)}});
    vector<string> lines;
    if (how == 4) {
        int gtype = -1; // the type of the items that do not give theirs
        bool all_typed = o.type >= 0;
        for (auto& q: items) all_typed = all_typed && q.type >= 0;
        if (all_typed && r.chance(.35)) gtype = items.empty() || r.chance(.5) ? o.type : r.pick(items).type;
        if (gtype >= 0) kv.push_back({"outdatatype", {OT[gtype].name[r.below(2)]}});
        if (r.chance(.4)) kv.push_back({r.pick({"in", "out"}), {"FILE"}});
        vector<Opts> all = items;
        all.insert(all.begin(), o);
        for (auto& q: all) {
            vector<string> f = {join(q.in), q.out, q.hasdef ? num(q.def) : "", q.hasnd ? num(q.nd) : "", q.type < 0 || (q.type == gtype && r.chance(.85)) ? "" : OT[q.type].name[r.below(2)], recls_text(q.recls)};
            size_t n = 6;
            while (n > 2 && f[n - 1].empty() && r.chance(.7)) n--;
            string l;
            for (size_t i = 0; i < n; i++) l += (i ? ";" : "") + f[i];
            lines.push_back(l);
        }
    } else {
        kv.push_back({"in", typed(join(o.in))});
        if (!o.out.empty()) kv.push_back({"out", typed(o.out)});
        if (o.type >= 0) kv.push_back({"outdatatype", {OT[o.type].name[r.below(2)]}});
        if (o.hasdef) kv.push_back({"default", {num(o.def)}});
        if (o.hasnd) kv.push_back({"nodata", {num(o.nd)}});
        if (!o.recls.empty()) kv.push_back({"reclass", {recls_text(o.recls)}});
    }
    r.shuffle(kv);
    vector<string> args;
    bool any = false;
    for (auto& p: kv) {
        bool onfile = how == 0 ? false : how == 3 || how == 4 ? r.chance(how == 4 ? .7 : .5) : true;
        if (onfile) { string l = "-" + recase(r, p.first); for (auto& v: p.second) l += "\t" + v; lines.insert(lines.begin() + (long) r.below(lines.size() + 1), (r.chance(.1) ? "  " : "") + l); any = true; }
        else { args.push_back("-" + recase(r, p.first)); args.insert(args.end(), p.second.begin(), p.second.end()); }
    }
    if (how == 4) any = true;
    if (any) {
        if (r.chance(.3)) lines.insert(lines.begin() + (long) r.below(lines.size() + 1), r.pick({"# a comment", "", "#-in\tx.tif"}));
        for (auto& l: lines) body += l + "\n";
        if (!body.empty() && r.chance(.2)) body.pop_back();
        vf::write_file(cfg, body);
        if (args.empty() && r.chance(.5)) args.push_back(cfg);
        else { bool front = r.chance(.5); args.insert(front ? args.begin() : args.end(), {string(r.pick({"-configfile", "-CONFIGFILE"})), cfg}); }
    }
    text = proc::show(args) + (any ? " with " + vf::q(body) : "");
    static const char* names[5] = {"all on the command line", "all in a configuration file", "all in a configuration file", "mixed", "data items"};
    vf::tally(string("options given: ") + names[how]);
    return args;
}
// ---- the model ------------------------------------------------------------
struct Src { G g; int type; bool asc; vector<string> paths; };
// values representable in the output type; nd not among them
static Src gen_src(Rng& r, const string& dir, const string& name, int otype, bool keepnd, double avoid, int lyrs, bool whole, const Geo* geo = nullptr) {
    Src s;
    (Geo&) s.g = geo ? *geo : gen_geo(r);
    s.g.lyrs = lyrs;
    s.asc = r.chance(.2);
    vector<int> ok;
    int mode = r.chance(.6) ? 0 : (int) r.below(3); // 0: 0..100, 1: the integers of a type, 2: eighths
    if (whole && mode == 2) mode = 0;
    if (mode == 2 && !OT[otype].fp) mode = 1;
    for (int t = 0; t < 8; t++) if (mode == 0 || (mode == 1 && !OT[t].fp) || (mode == 2 && OT[t].fp)) ok.push_back(t);
    s.type = r.pick(ok);
    for (int k = 0;; k++) {
        double nd = r.pickv({-9999., -9999., -1., 255., 127., 0., -128., 65535., -32768., 99., 200.});
        if (k > 200) nd = 0;
        if (fits(nd, s.type) && (!keepnd || fits(nd, otype)) && nd != avoid) { s.g.nodata = nd; break; }
    }
    double lo = std::max(OT[s.type].lo, OT[otype].lo), hi = std::min(OT[s.type].hi, OT[otype].hi);
    lo = std::max(lo, -100000.); hi = std::min(hi, 100000.);
    double p = r.pickv({0., .1, .3, .6});
    s.g.v.assign(lyrs, vector<double>(s.g.n()));
    int few = whole ? (int) r.range(1, 6) : 101;
    auto value = [&] { double x; int k = 0; do { x = mode == 2 ? (double) r.range(-800, 800) / 8 : mode == 1 && !whole ? std::floor(r.real(lo, hi)) : (double) r.range(lo < 0 && !whole ? -20 : 0, few); } while ((x == s.g.nodata || x == avoid) && ++k < 99); return x == s.g.nodata || x == avoid ? (s.g.nodata != 7 && avoid != 7 ? 7. : s.g.nodata != 8 && avoid != 8 ? 8. : 9.) : x; };
    for (auto& l: s.g.v) for (auto& x: l) x = r.chance(p) ? s.g.nodata : value();
    if (s.g.nvalid() == 0) s.g.v[0][0] = value();
    for (int l = 1; l < lyrs; l++) for (int i = 0; i < s.g.n(); i++) if (!s.g.valid(i)) s.g.v[l][i] = s.g.nodata;
    s.g.srs = s.asc || r.chance(.7) ? "" : gen_srs(r);
    for (int l = 0; l < lyrs; l++) { s.paths.push_back(dir + "/" + name + std::to_string(l) + (s.asc ? ".asc" : ".tif")); put(s.paths.back(), s.g, s.type, l); }
    return s;
}
struct Mask { G g; string path; };
static Mask gen_mask(Rng& r, const string& dir, const Geo& near, double pnd = -2) {
    Mask k;
    (Geo&) k.g = near;
    k.g.lyrs = 1;
    int t = r.pickv({7, 6, 5, 3, 5, 3});
    k.g.nodata = r.pickv({-9999., -9999., -1., 0., 255., -32768.});
    double p = pnd > -2 ? pnd : r.pickv({0., .1, .3, .5, .8});
    k.g.v.assign(1, vector<double>(k.g.n()));
    if (t == 3) { Grid<int16_t> z; (Geo&) z = near; z.lyrs = 1; z.nodata = (int16_t) k.g.nodata; z.v.assign(1, vector<int16_t>(z.n())); for (auto& x: z.v[0]) x = r.chance(p) ? z.nodata : (int16_t) (z.nodata == 1 ? 2 : 1); zones(r, z); for (int i = 0; i < z.n(); i++) k.g.v[0][i] = z.v[0][i]; }
    else { Grid<int32_t> z; (Geo&) z = near; z.lyrs = 1; z.nodata = (int32_t) k.g.nodata; z.v.assign(1, vector<int32_t>(z.n())); for (auto& x: z.v[0]) x = r.chance(p) ? z.nodata : z.nodata == 1 ? 2 : 1; zones(r, z); for (int i = 0; i < z.n(); i++) k.g.v[0][i] = z.v[0][i]; }
    if (k.g.nvalid() == 0) k.g.v[0][0] = k.g.nodata == 1 ? 2 : 1;
    bool asc = r.chance(.25);
    k.g.srs = asc || r.chance(.8) ? "" : gen_srs(r);
    k.path = dir + (asc ? "/mask.asc" : "/mask.tif");
    put(k.path, k.g, t, 0);
    return k;
}
// what the raster is under the mask; touching: whether the mask lies on the raster at all
static G masked(const G& s, const G& k, const Opts& o, bool& touching) {
    G w;
    (Geo&) w = k;
    w.lyrs = s.lyrs; w.srs = k.srs;
    w.nodata = o.hasnd ? o.nd : s.nodata;
    w.v.assign(w.lyrs, vector<double>(k.n(), w.nodata));
    touching = false;
    for (int i = 0; i < k.n(); i++) {
        if (!k.valid(i)) continue;
        int q = s.cell(k.cx(i % k.cols), k.cy(i / k.cols));
        if (q < 0) continue;
        touching = true;
        for (int l = 0; l < s.lyrs; l++) w.v[l][i] = s.nd(l, q) ? o.hasdef && o.def != s.nodata ? o.def : w.nodata : s.v[l][q];
    }
    return w;
}
static G plain(const G& s, const Opts& o) { G w = s; if (o.hasnd) { w.nodata = o.nd; for (auto& l: w.v) for (auto& x: l) if (x == s.nodata) x = o.nd; } return w; }
static string rel(Rng& r, const string& p, const string& dir, bool on) { return on && p.compare(0, dir.size() + 1, dir + "/") == 0 ? (r.chance(.5) ? "./" : "") + p.substr(dir.size() + 1) : p; }
static void no_other(const string& dir, std::set<string> want, const string& sig) {
    for (auto& f: listing(dir)) VF_CHECK(want.count(f), sig + ":extra", "an unexpected file " + f + " appears");
}
// One zone: every cell of the zone with data must be in the file at its place, anything else be no-data.
static void zone_file(const string& path, const G& w, const vector<int>& cells, int t, int lyr, const string& sig, const string& what, bool loose_holes) {
    with_type(t, [&](auto x) {
        typedef decltype(x) T;
        Geo f; vector<double> v; bool nd_ok; double fnd;
        if (path.substr(path.size() - 4) == ".asc") {
            AscFile a;
            VF_CHECK(asc_read(path, a), sig + ":file", what + ": " + path + " is missing or no complete grid");
            f = a.g; v = a.v; nd_ok = a.has_nd; fnd = a.nd;
        } else {
            TifFile<T> a;
            VF_CHECK(gdal_read(path, a), sig + ":file", what + ": " + path + " is missing or of another type");
            f = a.g; nd_ok = a.has_nd; fnd = a.nd;
            for (auto y: a.v) v.push_back((double) y);
            VF_CHECK(same_srs(a.srs, w.srs), sig + ":srs", what + ": coordinate system of " + path);
        }
        VF_CHECK(nd_ok && fnd == w.nodata, sig + ":nodata", Str() << what << ": no-data is " << fnd << ", expected " << w.nodata);
        double sc = w.dx * (w.rows + w.cols);
        double c0 = (f.xll - w.xll) / w.dx, rb = (f.yll - w.yll) / w.dx;
        int oc = (int) std::lround(c0), orow = w.rows - (int) std::lround(rb) - f.rows;
        VF_CHECK(close_enough(f.dx, w.dx, 0) && close_enough(f.xll, w.xll + oc * w.dx, sc) && close_enough(f.yll, w.yll + std::lround(rb) * w.dx, sc) && oc >= 0 && orow >= 0 && oc + f.cols <= w.cols && orow + f.rows <= w.rows, sig + ":place", what + ": " + path + " lies at " + f.str() + ", not on the grid of the mask " + w.Geo::str());
        std::set<int> in(cells.begin(), cells.end());
        for (int c: cells) { int row = c / w.cols - orow, col = c % w.cols - oc; if (!w.nd(lyr, c)) VF_CHECK(row >= 0 && col >= 0 && row < f.rows && col < f.cols, sig + ":lost", Str() << what << ": cell " << c << " of the zone is outside " << path); }
        for (int i = 0; i < f.n(); i++) {
            int c = (orow + i / f.cols) * w.cols + oc + i % f.cols;
            bool inside = in.count(c) != 0, hole = w.nd(lyr, c);
            if (inside && !hole) VF_CHECK(six<T>(v[i], (T) w.v[lyr][c]), sig + ":cell", Str() << what << ": cell " << c << " in " << path << " is " << v[i] << ", expected " << w.v[lyr][c]);
            else if (!inside || !loose_holes) VF_CHECK(v[i] == w.nodata, sig + ":foreign", Str() << what << ": cell " << c << " in " << path << " is " << v[i] << ", expected no-data " << w.nodata << (inside ? "" : " (another zone)"));
        }
        vf::tally("zone file cells compared", (uint64_t) f.n());
    });
}
static Opts gen_opts(Rng& r) {
    Opts o;
    if (r.chance(.75)) o.type = (int) r.below(8);
    if (r.chance(.35)) { o.hasnd = true; do o.nd = r.pickv({-9999., -1., 255., 0., 127., -128., 54321., -5555.5, 1e6}); while (!fits(o.nd, o.otype())); }
    if (r.chance(.5)) o.threads = (int) r.range(1, 4);
    return o;
}
static string mode_name(Rng& r, int m) { static const vector<vector<const char*>> n = {{"MASK", "mask"}, {"DEC", "DECOMPOSE", "dec"}, {"MASKDEC", "MASK&DEC", "maskdec"}, {"COM", "COMBINE", "com"}}; return n[m][r.below(n[m].size())]; }
#endif
