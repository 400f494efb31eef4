// C16: the command-line tool
#include "c16.hpp"
const char* vf_rule = "The tool is built from the current tree with ASan/UBSan and run as an unprivileged user in its own directory: rasters of 8 file types or ASCII grids, 1-3 layers, masks and zone maps in, around, beside and across them, every mode, output type, default, no-data, reclassification and thread option, given on the command line, in a configuration file, as data items, or mixed, with absolute or relative paths; every product is parsed without the library and compared cell by cell with a model that places cell centres, no other file may appear; zone files are combined again and compared with the masked raster; wrong arguments and files must end with a non-zero status and without a crash; distinct (input, options) cases are counted.";
void vf_init() { init(); }
// masking, decomposing, both; with or without a mask; data items
VF_KIND(products, 6) {
    auto& r = c.r;
    string dir = vf::scratch() + "/w", out = dir + "/out", log;
    mkdir(dir.c_str(), 0777); mkdir(out.c_str(), 0777);
    int mode = r.pickv({0, 0, 1, 1, 2});
    Opts base = gen_opts(r);
    base.mode = mode == 0 && r.chance(.5) ? "" : mode_name(r, mode);
    bool relpath = r.chance(.3), usemask = r.chance(.8);
    int n = r.chance(.8) ? 1 : r.chance(.7) ? (int) r.range(2, 3) : (int) r.range(4, 6);
    vector<Opts> items;
    vector<Src> srcs;
    Mask k;
    bool first = true, zonal_self = !usemask && mode != 0;
    for (int i = 0; i < n; i++) {
        Opts o = i == 0 ? base : gen_opts(r);
        int lyrs = zonal_self || r.chance(.75) ? 1 : (int) r.range(2, 3);
        if (i) { o.mode = base.mode; o.threads = base.threads; }
        Src s;
        double avoid = o.hasnd ? o.nd : 1e99;
        if (i == 0) s = gen_src(r, dir, "a", o.otype(), !o.hasnd, avoid, lyrs, zonal_self);
        else { Geo near = gen_near_safe(r, srcs[0].g, false); for (int q = 0; usemask && q < 40 && ambiguous(near, k.g); q++) near = gen_near_safe(r, srcs[0].g, false); if (usemask && ambiguous(near, k.g)) near = (Geo) srcs[0].g; s = gen_src(r, dir, string(1, (char) ('a' + i)), o.otype(), !o.hasnd, avoid, lyrs, zonal_self, &near); }
        if (usemask && first) k = gen_mask(r, dir, r.chance(.3) ? (Geo) s.g : gen_near_safe(r, s.g, false));
        first = false;
        if (usemask && lyrs == 1 && r.chance(.4)) { o.hasdef = true; int q = 0; do o.def = (double) r.range(0, 100); while ((o.def == s.g.nodata || o.def == avoid || !fits(o.def, o.otype())) && ++q < 99); }
        o.in.clear();
        for (auto& p: s.paths) o.in.push_back(rel(r, p, dir, relpath));
        o.out = rel(r, out + "/o" + std::to_string(i) + (r.chance(.25) ? ".asc" : ".tif"), dir, relpath);
        o.mask = usemask ? rel(r, k.path, dir, relpath) : "";
        (i == 0 ? base : (items.push_back(o), items.back())) = o;
        srcs.push_back(s);
    }
    std::set<string> want;
    bool noout = n == 1 && r.chance(.15); // <in>_masked
    if (noout) {
        base.out = "";
        string p = srcs[0].paths[0], core = p.substr(0, p.size() - 4);
        if (srcs[0].g.lyrs > 1) { size_t u = core.find_last_of('_'); if (u != string::npos && u > core.find_last_of('/')) core = core.substr(0, u); }
        out = dir;
        base.out = core + "_masked" + p.substr(p.size() - 4);
    }
    string given;
    Opts shown = base;
    if (noout) shown.out = "";
    std::set<string> before = listing(dir);
    vector<string> args;
    if (noout) { do args = render(r, shown, dir, given); while (given.find(";;") != string::npos || given.find(join(shown.in) + ";") != string::npos); } // data items must name their product
    else args = render(r, shown, dir, given, items);
    Str ds;
    ds << "products " << given;
    for (auto& s: srcs) ds << " " << s.g.str();
    if (usemask) ds << " mask " << k.g.str();
    vf::desc(ds);
    auto res = proc::run(args, dir);
    vector<Opts> all = items;
    all.insert(all.begin(), base);
    bool allok = true, unsure = false;
    for (int i = 0; i < n; i++) {
        const Opts& o = all[i];
        const Src& s = srcs[i];
        bool touching = true;
        G w = usemask ? masked(s.g, k.g, o, touching) : plain(s.g, o);
        string path = noout ? base.out : out + "/" + o.out.substr(o.out.find_last_of('/') + 1);
        bool asc = path.substr(path.size() - 4) == ".asc";
        if (asc) w.srs = "";
        Zones z = usemask ? zones_of(k.g, {}) : zones_of(w, {});
        string what = Str() << given << ": product " << i + 1;
        if (!touching) { allok = false; vf::tally("nothing under the mask"); }
        bool anyzone = false;
        auto name = [&](const string& p) { return p.substr(p.find_last_of('/') + 1); };
        if (mode != 0) for (auto& kv: z) {
            bool has = false;
            for (int cc: kv.second) has = has || !w.nd(0, cc);
            anyzone = anyzone || has;
            for (int l = 0; l < w.lyrs; l++) {
                string p = prefixed(w.lyrs > 1 ? numbered(path, l + 1) : path, kv.first);
                want.insert(name(p));
                if (touching && (has || exists(p))) { if (has || res.code == 0) zone_file(p, w, kv.second, o.otype(), l, "zone", Str() << what << ", zone " << kv.first, false); }
            }
        }
        if (mode != 0 && touching && !anyzone) unsure = true;
        for (int l = 0; mode != 1 && l < w.lyrs; l++) {
            string p = w.lyrs > 1 ? numbered(path, l + 1) : path;
            want.insert(name(p));
            if (touching) compare_out(p, w, o.otype(), l, "masked", what);
            else VF_CHECK(!exists(p), "masked:phantom", what + " exists although nothing is left");
        }
        vf::distinct(vf::mix(vf::mix(s.g.hash(), usemask ? k.g.hash() : 0), vf::hash_str(given)));
        vf::tally(string(mode == 0 ? "masked" : mode == 1 ? "decomposed" : "masked and decomposed") + (usemask ? " by a mask" : " by itself"));
    }
    if (!unsure) VF_CHECK((res.code == 0) == allok, "status", Str() << given << ": exit status " << res.code << (allok ? " although everything could be done" : " although a raster does not touch the mask") << "\n" << res.out.substr(0, 2000));
    if (!allok && !unsure) VF_CHECK(res.code == 3, "status:code", Str() << given << ": exit status " << res.code << ", 3 is documented for input that cannot be loaded");
    if (noout) { for (auto& f: before) want.insert(f); want.insert("run.cfg"); }
    no_other(out, want, "files");
}
// by a table of values
VF_KIND(reclass, 2) {
    auto& r = c.r;
    string dir = vf::scratch() + "/w", out = dir + "/out", given;
    mkdir(dir.c_str(), 0777); mkdir(out.c_str(), 0777);
    Opts o = gen_opts(r);
    int mode = r.pickv({0, 0, 1, 2});
    o.mode = mode == 0 && r.chance(.5) ? "" : mode_name(r, mode);
    bool usemask = r.chance(.6), relpath = r.chance(.3);
    double avoid = o.hasnd ? o.nd : 1e99;
    Src s = gen_src(r, dir, "a", o.otype(), !o.hasnd, avoid, 1, true);
    Mask k;
    if (usemask) k = gen_mask(r, dir, r.chance(.3) ? (Geo) s.g : gen_near_safe(r, s.g, false));
    double nd = o.hasnd ? o.nd : s.g.nodata;
    bool touching = true;
    if (r.chance(.5)) { o.hasdef = true; int q = 0; do o.def = (double) r.range(0, 100); while ((o.def == s.g.nodata || o.def == nd) && ++q < 99); }
    G w = usemask ? masked(s.g, k.g, o, touching) : plain(s.g, o);
    int nv = r.chance(.6) ? 1 : (int) r.range(2, 3);
    std::set<int> keys;
    for (double x: s.g.v[0]) if (x != s.g.nodata) keys.insert((int) x);
    auto value = [&] { for (;;) { double x = r.chance(.3) && OT[o.otype()].fp ? (double) r.range(-80, 800) / 8 : (double) r.range(0, 120); if (x != nd && fits(x, o.otype())) return x; } };
    bool every = r.chance(.5);
    for (int q: keys) if (every || r.chance(.6)) for (int i = 0; i < nv; i++) o.recls[q].push_back(value());
    if (o.recls.empty() || r.chance(.2)) for (int i = 0; i < nv; i++) o.recls[4711].push_back(value());
    for (auto& p: s.paths) o.in.push_back(rel(r, p, dir, relpath));
    string path = out + (r.chance(.25) ? "/o.asc" : "/o.tif");
    if (path.back() == 'c') w.srs = "";
    o.out = rel(r, path, dir, relpath);
    if (usemask) o.mask = rel(r, k.path, dir, relpath);
    auto args = render(r, o, dir, given);
    vf::desc("reclass " + given + " " + s.g.str() + (usemask ? " mask " + k.g.str() : ""));
    auto res = proc::run(args, dir);
    if (!touching) { VF_CHECK(res.code == 3, "reclass:status", Str() << given << ": exit status " << res.code << " although nothing is left"); return; }
    bool data = w.nvalid() > 0;
    if (!data) { vf::tally("no data to reclassify"); return; }
    VF_CHECK(res.code == 0, "reclass:status", Str() << given << ": exit status " << res.code << "\n" << res.out.substr(0, 2000));
    G e = w;
    e.lyrs = nv;
    e.v.assign(nv, vector<double>(w.n(), w.nodata));
    double def = o.hasdef ? o.def : w.nodata;
    for (int i = 0; i < w.n(); i++) if (w.valid(i)) { auto it = o.recls.find((int) w.v[0][i]); for (int l = 0; l < nv; l++) e.v[l][i] = it == o.recls.end() ? def : it->second[l]; }
    std::set<string> want;
    Zones z = usemask && mode != 0 ? zones_of(k.g, {}) : zones_of(w, {});
    // cells of a zone without data may be given the default value
    if (mode != 1) for (int l = 0; l < nv; l++) {
        string p = prefixed(nv > 1 ? numbered(path, l + 1) : path, 0);
        want.insert(p.substr(p.find_last_of('/') + 1));
        vector<int> cells;
        for (auto& kv: z) cells.insert(cells.end(), kv.second.begin(), kv.second.end());
        zone_file(p, e, cells, o.otype(), l, "reclass", given + ": reclassified", true);
    }
    if (mode != 0) for (auto& kv: z) {
        bool has = false;
        for (int cc: kv.second) has = has || w.valid(cc);
        for (int l = 0; l < nv; l++) {
            string p = prefixed(nv > 1 ? numbered(path, l + 1) : path, kv.first);
            want.insert(p.substr(p.find_last_of('/') + 1));
            if (mode == 2 && kv.first == 0) { // the merged product is given the name of the file of zone 0
                string f = p.substr(p.find_last_of('/') + 1);
                bool whole = false;
                AscFile a; GDALDataset* ds = nullptr;
                if (f.back() == 'c' ? asc_read(p, a) : (ds = (GDALDataset*) GDALOpen(p.c_str(), GA_ReadOnly)) != nullptr) whole = (ds ? ds->GetRasterYSize() : a.g.rows) == w.rows && (ds ? ds->GetRasterXSize() : a.g.cols) == w.cols;
                if (ds) GDALClose(ds);
                if (whole && z.size() > 1) { vf::fail_soft("reclass:zone-0-overwritten", given + ": the file of zone 0 is overwritten by the merged raster of the same name"); continue; }
            }
            if (has || exists(p)) zone_file(p, e, kv.second, o.otype(), l, "reclass-zone", Str() << given << ": reclassified zone " << kv.first, true);
        }
    }
    no_other(out, want, "reclass");
    vf::tally("reclassified");
    vf::distinct(vf::mix(s.g.hash(), vf::hash_str(given)));
}
// decompose, then combine: the masked raster again
VF_KIND(there_and_back, 4) {
    auto& r = c.r;
    string dir = vf::scratch() + "/w", parts = dir + "/parts", out = dir + "/out", given, given2;
    mkdir(dir.c_str(), 0777); mkdir(parts.c_str(), 0777); mkdir(out.c_str(), 0777);
    Opts o = gen_opts(r);
    o.hasnd = false;
    o.mode = mode_name(r, 1);
    Src s = gen_src(r, dir, "a", o.otype(), true, 1e99, 1, false);
    Geo near = gen_near_safe(r, s.g, false);
    if (r.chance(.5)) near = (Geo) s.g;
    Mask k = gen_mask(r, dir, near);
    // every cell of the mask gets a value: the source covers it with data, or a default is requested
    bool inside = true, holes = false;
    for (int i = 0; i < k.g.n(); i++) if (k.g.valid(i)) { int q = s.g.cell(k.g.cx(i % k.g.cols), k.g.cy(i / k.g.cols)); if (q < 0) inside = false; else if (s.g.nd(0, q)) holes = true; }
    if (holes) { o.hasdef = true; int q = 0; do o.def = (double) r.range(0, 100); while (o.def == s.g.nodata && ++q < 99); }
    bool touching;
    G w = masked(s.g, k.g, o, touching);
    o.in = s.paths;
    o.mask = k.path;
    o.out = parts + "/part.tif";
    auto args = render(r, o, dir, given);
    vf::desc("there and back " + given + " " + s.g.str() + " mask " + k.g.str());
    auto res = proc::run(args, dir);
    if (!touching) { VF_CHECK(res.code == 3, "back:status", Str() << given << ": exit status " << res.code << " although nothing is left"); return; }
    if (w.nvalid() == 0) return;
    VF_CHECK(res.code == 0, "back:dec-status", Str() << given << ": exit status " << res.code << "\n" << res.out.substr(0, 2000));
    Opts b;
    b.mode = mode_name(r, 3);
    b.mask = k.path;
    b.threads = o.threads;
    b.type = r.chance(.5) ? -1 : o.type;
    auto files = listing(parts);
    vector<string> list(files.begin(), files.end());
    r.shuffle(list);
    for (auto& f: list) b.in.push_back(parts + "/" + f);
    b.out = out + (r.chance(.2) ? "/whole.asc" : "/whole.tif");
    // the mosaic takes over the mask's no-data value, which must not be a value of the raster, and be one of the type
    bool clash = !fits(k.g.nodata, b.otype());
    for (double x: w.v[0]) if (x == k.g.nodata && x != w.nodata) clash = true;
    for (double x: w.v[0]) if (!fits(x, b.otype())) clash = true;
    if (clash) { b.type = 7; for (double x: w.v[0]) if (x == k.g.nodata && x != w.nodata) { vf::tally("a value is the mask's no-data value"); return; } }
    auto args2 = render(r, b, dir, given2);
    vf::desc("there and back " + given + " then " + given2 + " " + s.g.str() + " mask " + k.g.str());
    auto res2 = proc::run(args2, dir);
    vf::distinct(vf::mix(vf::mix(s.g.hash(), k.g.hash()), vf::hash_str(given2)));
    if (!inside) { // the zone files miss cells of the zone: the mosaic is refused, or right all the same
        if (res2.code != 0) { vf::tally("incomplete zones refused"); return; }
        vf::tally("incomplete zones combined");
    }
    VF_CHECK(res2.code == 0, "back:com-status", Str() << given2 << ": exit status " << res2.code << "\n" << res2.out.substr(0, 2000));
    G e = w;
    e.nodata = k.g.nodata;
    for (auto& x: e.v[0]) if (x == w.nodata) x = e.nodata;
    string p = prefixed(b.out, 0);
    if (p.back() == 'c') e.srs = "";
    compare_out(p, e, b.otype(), 0, "back", given + " then " + given2 + ": combined");
    std::set<string> want = {p.substr(p.find_last_of('/') + 1)};
    no_other(out, want, "back");
    vf::tally("decomposed and combined");
}
// combine zone files that do not come from the tool
VF_KIND(combine, 3) {
    auto& r = c.r;
    string dir = vf::scratch() + "/w", out = dir + "/out", given;
    mkdir(dir.c_str(), 0777); mkdir(out.c_str(), 0777);
    Mask k = gen_mask(r, dir, gen_geo(r));
    Zones z = zones_of(k.g, {});
    int n = r.chance(.75) ? 1 : r.chance(.7) ? (int) r.range(2, 3) : (int) r.range(4, 6);
    Opts base;
    vector<Opts> items;
    vector<G> want;
    bool bad = false;
    vector<bool> sure;
    for (int i = 0; i < n; i++) {
        Opts o;
        do o.type = r.chance(.3) ? -1 : (int) r.below(8); while (!fits(k.g.nodata, o.otype()));
        o.mask = k.path;
        o.mode = i ? base.mode : mode_name(r, 3);
        o.threads = i ? base.threads : r.chance(.5) ? (int) r.range(1, 4) : 0;
        bool missing = r.chance(.4), clear = true;
        if (missing && r.chance(.6)) { o.hasdef = true; do o.def = (double) r.range(0, 100); while (o.def == k.g.nodata); }
        G w = k.g;
        for (auto& x: w.v[0]) x = w.nodata;
        string sub = dir + "/z" + std::to_string(i);
        mkdir(sub.c_str(), 0777);
        int wrong = r.chance(.1) ? (int) r.below(z.size()) : -1, q = 0;
        for (auto& kv: z) {
            bool skip = missing && r.chance(.4) && !(o.in.empty() && q == (int) z.size() - 1);
            G b;
            int r0 = 1e9, r1 = -1, c0 = 1e9, c1 = -1;
            for (int cell: kv.second) { r0 = std::min(r0, cell / w.cols); r1 = std::max(r1, cell / w.cols); c0 = std::min(c0, cell % w.cols); c1 = std::max(c1, cell % w.cols); }
            b.rows = r1 - r0 + 1; b.cols = c1 - c0 + 1; b.dx = w.dx; b.xll = w.cx(c0); b.yll = w.cy(r1);
            b.lyrs = 1; b.nodata = r.pickv({-9999., 254., -1.}); b.srs = w.srs;
            b.v.assign(1, vector<double>(b.n(), b.nodata));
            for (int cell: kv.second) {
                double x;
                do x = (double) r.range(0, 100); while (x == k.g.nodata || x == b.nodata);
                if (!skip) { b.v[0][(cell / w.cols - r0) * b.cols + cell % w.cols - c0] = x; w.v[0][cell] = x; }
                else w.v[0][cell] = o.hasdef ? o.def : w.nodata;
            }
            if (!skip) {
                if (q == wrong) { // one cell more or less than the zone has
                    vector<int> hole;
                    for (int t = 0; t < b.n(); t++) if (b.v[0][t] == b.nodata) hole.push_back(t);
                    if (!hole.empty() && r.chance(.5)) b.v[0][r.pick(hole)] = 50; else { if (kv.second.size() < 2) goto keep; b.v[0][(kv.second[0] / w.cols - r0) * b.cols + kv.second[0] % w.cols - c0] = b.nodata; }
                    bad = true; clear = false;
                }
                keep:
                string p = sub + "/" + std::to_string(kv.first) + "_z" + (r.chance(.2) ? ".asc" : ".tif");
                put(p, b, r.pickv({7, 6, 5, 3}), 0);
                o.in.push_back(p);
            }
            q++;
        }
        while (r.chance(.25)) { // a file of a zone that the mask does not have
            int other = (int) r.range(0, 40);
            if (z.count(other)) continue;
            G b = k.g;
            for (auto& x: b.v[0]) x = 3;
            string p = sub + "/" + std::to_string(other) + "_z.tif";
            if (std::find(o.in.begin(), o.in.end(), p) != o.in.end()) continue;
            put(p, b, 6, 0);
            o.in.push_back(p);
            vf::tally("files of other zones");
        }
        r.shuffle(o.in);
        o.out = out + "/c" + std::to_string(i) + (r.chance(.2) ? ".asc" : ".tif");
        want.push_back(w);
        sure.push_back(clear);
        if (i == 0) base = o; else items.push_back(o);
    }
    auto args = render(r, base, dir, given, items);
    vf::desc("combine " + given + " mask " + k.g.str());
    auto res = proc::run(args, dir);
    vf::distinct(vf::mix(k.g.hash(), vf::hash_str(given)));
    if (bad) VF_CHECK(res.code == 3 || res.code == 4, "combine:mismatch", Str() << given << ": exit status " << res.code << " although a file does not hold the cells of its zone");
    else VF_CHECK(res.code == 0, "combine:status", Str() << given << ": exit status " << res.code << "\n" << res.out.substr(0, 2000));
    items.insert(items.begin(), base);
    std::set<string> names;
    for (int i = 0; i < n; i++) {
        string p = prefixed(items[i].out, 0);
        names.insert(p.substr(p.find_last_of('/') + 1));
        if (p.back() == 'c') want[i].srs = "";
        if (sure[i]) compare_out(p, want[i], items[i].otype(), 0, "combined", Str() << given << ": mosaic " << i + 1);
        vf::tally("mosaics");
    }
    no_other(out, names, "combined");
}
// what cannot be done
VF_KIND(refused, 4) {
    auto& r = c.r;
    string dir = vf::scratch() + "/w", out = dir + "/out", given;
    mkdir(dir.c_str(), 0777); mkdir(out.c_str(), 0777);
    Opts o;
    o.type = (int) r.below(8);
    Src s = gen_src(r, dir, "a", o.type, true, 1e99, r.chance(.7) ? 1 : 2, false);
    Mask k = gen_mask(r, dir, (Geo) s.g);
    o.in = s.paths;
    o.out = out + "/o.tif";
    o.mode = mode_name(r, (int) r.below(3));
    if (r.chance(.7)) o.mask = k.path;
    int code = -1;
    vector<string> args, extra;
    string why, file = dir + "/bad.tif", bytes;
    vf::read_file(s.paths[0], bytes);
    auto spoil = [&](const string& p) { // no raster
        switch (r.below(4)) {
            case 0: vf::write_file(p, ""); break;
            case 1: vf::write_file(p, "this is no raster\n"); break;
            case 2: { string b(200, 0); for (auto& ch: b) ch = (char) r.below(256); vf::write_file(p, b); break; }
            default: mkdir(p.c_str(), 0777);
        }
    };
    switch (r.below(11)) {
        case 0: why = "no arguments"; code = 1; break;
        case 1: why = "mode"; o.mode = r.pick({"NOMODE", "0", "MASKK", "DECCOM"}); code = 1; args = render(r, o, dir, given); break;
        case 2: why = "missing input"; o.in[r.below(o.in.size())] = dir + "/none.tif"; code = 2; args = render(r, o, dir, given); break;
        case 3: why = "missing mask"; o.mask = dir + "/none.tif"; code = 2; args = render(r, o, dir, given); break;
        case 4: why = "bad input"; o.in[r.below(o.in.size())] = file; spoil(file); { struct stat st; stat(file.c_str(), &st); code = S_ISDIR(st.st_mode) ? -1 : 3; } args = render(r, o, dir, given); break;
        case 5: why = "bad mask"; o.mask = file; spoil(file); { struct stat st; stat(file.c_str(), &st); code = S_ISDIR(st.st_mode) ? -1 : 3; } args = render(r, o, dir, given); break;
        case 6: why = "missing configuration"; code = 2; args = {"-configfile", dir + "/none.cfg"}; if (r.chance(.5)) args = {dir + "/none.cfg"}; if (r.chance(.3)) { args.insert(args.end(), {"-mode", "MASK"}); if (args[0] != "-configfile") args.insert(args.begin(), "-configfile"); } break;
        case 7: { // product cannot be written
            why = "no place for the product"; code = 4;
            int q = (int) r.below(3);
            o.out = q == 0 ? dir + "/ro/o.tif" : q == 1 ? dir + "/none/none/o.tif" : dir + "/a0.tif/o.tif";
            if (q == 0) { mkdir((dir + "/ro").c_str(), 0555); }
            if (q == 2) vf::write_file(dir + "/a0.tif", bytes);
            args = render(r, o, dir, given);
            break;
        }
        case 8: why = "combining without a mask"; o.mode = mode_name(r, 3); o.mask = ""; code = 1; args = render(r, o, dir, given); break;
        case 9: { // one bad item among good ones
            why = "one item of several"; 
            Opts g = o, b = o;
            b.in = {dir + "/none.tif"};
            b.out = out + "/b.tif";
            if (r.chance(.5)) { // it cannot be written
                b = o; b.out = dir + "/none/none/b.tif"; code = 4;
                if (r.chance(.6)) std::swap(g, b);
            }
            vector<Opts> it = {b};
            args = render(r, g, dir, given, it);
            break;
        }
        default: { // words and numbers at random
            why = "random arguments";
            vector<string> w = {"-in", "-out", "-mask", "-mode", "-reclass", "-default", "-nodata", "-outdatatype", "-thread", "-configfile", "-mongo", "-include_nodata", "-", "--", "-5", "", "x", "FILE", "GFS", "1:2,3", "1:2|3,4:5", ":", ",", ",,", "1", "0", "-1", "abc", "MASK", "DEC", "COM", "MASK&DEC", "DOUBLE", "INT32", s.paths[0], k.path, out + "/o.tif", out + "/", "/", dir, "127.0.0.1", "1:,2:", "9999999999999999999", "nan"};
            int n = (int) r.range(1, 9);
            if (r.chance(.5)) args = render(r, o, dir, given);
            for (int i = 0; i < n; i++) args.insert(args.begin() + (long) r.below(args.size() + 1), r.pick(w));
            if (r.chance(.4)) {
                string b;
                for (int i = (int) r.range(0, 12); i > 0; i--) b += r.pick(w) + r.pick({"\t", "\n", ";", "\t", "\r\n", ";;", " "});
                vf::write_file(dir + "/r.cfg", b);
                args.push_back("-configfile"); args.push_back(dir + "/r.cfg");
                given += vf::q(b);
            }
            for (auto& a: args) if (a == "-mongo") a = "-x"; // would wait for a server
            given = proc::show(args) + " " + given;
        }
    }
    vf::desc("refused (" + why + ") " + given);
    auto res = proc::run(args, dir);
    chmod((dir + "/ro").c_str(), 0777);
    vf::tally("wrong use: " + why);
    vf::distinct(vf::hash_str(why + given));
    if (why == "random arguments") { VF_CHECK(res.code >= 0 && res.code <= 4, "refused:status", Str() << given << ": undocumented exit status " << res.code); return; }
    VF_CHECK(res.code != 0, "refused:zero", "exit status 0 with " + why + ": " + given + "\n" + res.out.substr(0, 1500));
    if (code >= 0) VF_CHECK(res.code == code, "refused:code", Str() << "exit status " << res.code << " with " << why << ", documented is " << code << ": " << given);
    if (why == "one item of several") { G w; bool t = true; w = o.mask.empty() ? plain(s.g, o) : masked(s.g, k.g, o, t); if (ccgl::utils_string::GetUpper(o.mode) == "MASK" && t) for (int l = 0; l < w.lyrs; l++) compare_out(w.lyrs > 1 ? numbered(o.out, l + 1) : o.out, w, o.type, l, "refused:good", given + ": the good item"); }
    else VF_CHECK(listing(out).empty(), "refused:product", "there are products with " + why + ": " + given);
}
