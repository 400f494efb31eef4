// C15: failed input and output
#include "mk.hpp"
#include "subs.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace m;
#ifndef VT
const char* vf_rule = "Files that are missing, empty, directories, unreadable, cut at any offset, with flipped, inserted or removed bytes, of other content, or whose reading breaks off in the middle are loaded as only, first, middle or last layer and as mask (GeoTIFF plain or compressed, ASCII grid; ten cell types), into new and used rasters: a load that succeeds must hold what GDAL itself or a strict reader reads from the files, one that fails must leave no valid raster and the object usable. Rasters in every storage mode and their subsets are written where directories, permissions, name lengths, file size limits of any number of bytes, descriptor limits or a full device prevent it: a write that reports success must have left the same bytes as an undisturbed one, and afterwards the raster must be unchanged and writable elsewhere. Distinct (file, fault) are counted.";
void vf_init() { signal(SIGXFSZ, SIG_IGN); init(); }
// reading that breaks off
long g_reads_left = -1;
uint64_t g_broken = 0;
static bool breaks() { if (g_reads_left < 0) return false; if (g_reads_left > 0) { g_reads_left--; return false; } g_broken++; return true; }
extern "C" size_t fread(void* p, size_t s, size_t n, FILE* f) {
    typedef size_t (*F)(void*, size_t, size_t, FILE*);
    static F next = (F) dlsym(RTLD_NEXT, "fread");
    if (breaks()) { errno = EIO; return 0; }
    return next(p, s, n, f);
}
extern "C" ssize_t read(int fd, void* p, size_t n) {
    typedef ssize_t (*F)(int, void*, size_t);
    static F next = (F) dlsym(RTLD_NEXT, "read");
    if (breaks()) { errno = EIO; return -1; }
    return next(fd, p, n);
}
extern "C" ssize_t pread64(int fd, void* p, size_t n, off64_t o) {
    typedef ssize_t (*F)(int, void*, size_t, off64_t);
    static F next = (F) dlsym(RTLD_NEXT, "pread64");
    if (breaks()) { errno = EIO; return -1; }
    return next(fd, p, n, o);
}
#else
extern long g_reads_left;
extern uint64_t g_broken;
// ---- what a file holds, read without the library: 1 readable, 0 not, -1 undecided
template <class T> int holds(const string& path, bool asc, Grid<T>& g) {
    g.lyrs = 1;
    if (asc) {
        AscFile f;
        struct stat st;
        if (stat(path.c_str(), &st) || !S_ISREG(st.st_mode) || !asc_read(path, f)) return -1; // looser spellings are accepted by the library: C03 is about those
        (Geo&) g = f.g;
        if (!f.has_nd) return -1;
        g.nodata = (T) f.nd;
        g.v.assign(1, vector<T>(g.n()));
        for (int i = 0; i < g.n(); i++) { if (!(f.v[i] >= (double) std::numeric_limits<T>::lowest() && f.v[i] <= (double) std::numeric_limits<T>::max())) return -1; g.v[0][i] = (T) f.v[i]; }
        return 1;
    }
    GDALDataset* ds = (GDALDataset*) GDALOpen(path.c_str(), GA_ReadOnly);
    if (!ds) return 0;
    int res = -1;
    GDALRasterBand* b = ds->GetRasterCount() > 0 ? ds->GetRasterBand(1) : nullptr;
    double gt[6] = {0, 0, 0, 0, 0, 0};
    if (!b) res = 0;
    else if ((double) b->GetXSize() * b->GetYSize() < 4e6) {
        vector<double> any((size_t) b->GetXSize() * b->GetYSize());
        if (b->RasterIO(GF_Read, 0, 0, b->GetXSize(), b->GetYSize(), any.data(), b->GetXSize(), b->GetYSize(), GDT_Float64, 0, 0) != CE_None) res = 0;
        else if (b->GetRasterDataType() == Ty<T>::gdal() && ds->GetGeoTransform(gt) == CE_None && gt[2] == 0 && gt[4] == 0 && gt[1] > 0 && std::fabs(gt[1] + gt[5]) < 1e-9 * gt[1]) {
            TifFile<T> f;
            GDALClose(ds);
            ds = nullptr;
            if (gdal_read(path, f) && f.has_nd) {
                (Geo&) g = f.g;
                g.nodata = f.type == GDT_Int64 ? (T) f.nd64 : f.type == GDT_UInt64 ? (T) f.ndu64 : (T) f.nd;
                g.v.assign(1, f.v);
                res = 1;
            }
        }
    }
    if (ds) GDALClose(ds);
    return res;
}
// Makes path a bad file. Returns what was done; sure: it cannot be a complete raster.
template <class T> string spoil(Rng& r, const string& path, const Grid<T>& g, bool asc, bool& sure) {
    string b;
    vf::read_file(path, b);
    sure = true;
    switch (r.below(14)) {
        case 0: unlink(path.c_str()); return "missing";
        case 1: vf::write_file(path, ""); return "empty";
        case 2: unlink(path.c_str()); mkdir(path.c_str(), 0755); return "directory";
        case 3: chmod(path.c_str(), 0); return "unreadable";
        case 4: { string x; size_t n = r.below(400); for (size_t i = 0; i < n; i++) x += (char) r.next(); vf::write_file(path, x); return "random bytes"; }
        case 5: vf::write_file(path, "This is no raster.\nNot at all.\n"); return "prose";
        case 6: unlink(path.c_str()); if (symlink("nowhere", path.c_str())) {} return "dangling link";
        case 7: case 8: case 9: { size_t k = r.chance(.5) ? r.below(b.size()) : b.size() - 1 - r.below(std::min<size_t>(b.size() - 1, 60)); vf::write_file(path, b.substr(0, k)); sure = !asc || k < b.size() / 2; return Str() << "cut to " << k << " of " << b.size() << " bytes"; }
        case 10: case 11: { int n = (int) r.range(1, 6); sure = false; for (int i = 0; i < n; i++) { size_t k = r.chance(.6) ? r.below(std::min<size_t>(b.size(), 700)) : r.below(b.size()); b[k] = (char) (b[k] ^ (1 << r.below(8))); } vf::write_file(path, b); return Str() << n << " flipped bits"; }
        case 12: { sure = false; size_t k = r.below(b.size()); b.erase(k, 1 + r.below(9)); vf::write_file(path, b); return Str() << "bytes removed at " << k; }
        default: { sure = false; size_t k = r.below(b.size()); b.insert(k, string(1 + r.below(9), (char) r.next())); vf::write_file(path, b); return Str() << "bytes inserted at " << k; }
    }
    (void) g;
}
inline void restore(const string& path) { chmod(path.c_str(), 0644); }
template <class T> struct Set { vector<string> f; vector<char> asc; Grid<T> g; };
template <class T> bool gen_set(Rng& r, Set<T>& s, const string& dir, int lyrs) {
    GenOpt o;
    o.lyrs = lyrs;
    o.big = 120;
    s.g = gen_grid<T>(r, o);
    for (int l = 1; l < lyrs; l++) for (int i = 0; i < s.g.n(); i++) if (!s.g.valid(i)) s.g.v[l][i] = s.g.nodata;
    for (auto& l: s.g.v) for (auto& x: l) if (ndeq((double) x, (double) s.g.nodata)) x = s.g.nodata;
    for (int l = 0; l < lyrs; l++) {
        bool asc = sizeof(T) < 8 && r.chance(.35);
        s.asc.push_back(asc);
        s.f.push_back(dir + "/f" + std::to_string(l) + (asc ? ".asc" : ".tif"));
        if (asc) { vf::write_file(s.f.back(), asc_text(s.g, l, (int) r.below(2))); continue; }
        char** opt = nullptr;
        if (r.chance(.4)) opt = CSLSetNameValue(opt, "COMPRESS", r.pick({"DEFLATE", "LZW", "PACKBITS"}));
        if (r.chance(.3)) opt = CSLSetNameValue(opt, "BLOCKYSIZE", "1");
        bool ok = gdal_write(s.f.back(), s.g, l, opt);
        CSLDestroy(opt);
        if (!ok) return false;
    }
    return true;
}
// whatever happened before, an object can be read into again
template <class T, class R> void usable(Rng& r, R* p, const string& what) {
    static int k = 0;
    string d = vf::scratch() + "/again" + std::to_string(k++ % 50);
    mkdir(d.c_str(), 0755);
    Set<T> s;
    if (!gen_set(r, s, d, (int) r.range(1, 2))) return;
    bool ok = s.f.size() == 1 ? p->ReadFromFile(s.f[0]) : p->ReadFromFiles(s.f);
    VF_CHECK(ok, "again:refused", "a sound file cannot be read after " + what);
    compare(p, s.g, "again", "read after " + what, false, false);
    VF_CHECK(p->OutputToFile(d + "/out.tif"), "again:write", "a raster read after " + what + " cannot be written");
}
template <class T> void bad_read(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T>::R R;
    string dir = vf::scratch();
    Set<T> s;
    int lyrs = gen_lyrs(r, .5, 2, 4);
    if (!gen_set(r, s, dir, lyrs)) return;
    int bad = (int) r.below(lyrs);
    bool calc = r.chance(.4), sure;
    string how = spoil(r, s.f[bad], s.g, s.asc[bad], sure);
    string what = Str() << "file " << bad + 1 << " of " << lyrs << " " << how << (s.asc[bad] ? " (ASCII)" : " (GeoTIFF)");
    vf::desc(how.substr(0, how.find_first_of("0123456789")) + "| " + what + (calc ? " positions " : " ") + s.g.str());
    Grid<T> w;
    int can = holds<T>(s.f[bad], s.asc[bad], w);
    sure = s.asc[bad] ? sure && can < 1 : can == 0;
    std::unique_ptr<dr::clsRasterData<T>> mask;
    if (r.chance(.2)) { Grid<T> k = like<T, T>(r, s.g, .2); mask.reset(Lib<T, T>::make(k)); }
    std::unique_ptr<R> p;
    bool ok;
    int way = (int) r.below(3);
    if (way == 0) { p.reset(lyrs == 1 ? R::Init(s.f[0], calc, mask.get()) : R::Init(s.f, calc, mask.get())); ok = p != nullptr; }
    else if (way == 1) { p.reset(lyrs == 1 ? new R(s.f[0], calc, mask.get()) : new R(s.f, calc, mask.get())); ok = p->ValidateRasterData(); }
    else {
        MkOpt mo;
        mo.masks = false;
        Built<T> o;
        build(r, o, mo);
        if (r.chance(.3)) o->CalculateStatistics();
        ok = lyrs == 1 ? o->ReadFromFile(s.f[0], calc, mask.get()) : o->ReadFromFiles(s.f, calc, mask.get());
        if (!ok) VF_CHECK(!o->ValidateRasterData() || (way == 2 && (how == "missing" || how == "dangling link" || how == "directory")), "failed-valid", "reading failed (" + what + ") but the raster claims to hold it");
        p.reset(o.r.release());
        if (!ok && p->ValidateRasterData()) { // refused before anything was touched: then it still holds what it held
            compare(p.get(), o.g, "untouched", "after a refused load", false, false);
        }
    }
    restore(s.f[bad]);
    vf::tally("bad files: " + how.substr(0, how.find_first_of("0123456789")));
    vf::tally(ok ? "bad files that load all the same" : "loads reported as failed");
    if (sure) VF_CHECK(!ok, "accepted:" + how.substr(0, how.find_first_of("0123456789")), what + " was loaded: " + s.g.str());
    if (ok && p) {
        VF_CHECK(p->ValidateRasterData() && p->Initialized(), "ok-invalid", "loaded but not valid: " + what);
        if (can == 1 && !mask && (double) w.rows * w.cols < 1e6) {
            if (lyrs == 1) {
                bool nan = std::isnan((double) w.nodata) || std::isinf((double) w.nodata);
                for (auto& x: w.v[0]) if (!nan && ndeq((double) x, (double) w.nodata)) x = w.nodata;
                if (!nan && (double) w.nodata == (double) (T) (double) w.nodata) {
                    vf::tally("contents of mangled files compared");
                    bool geo = w.dx > 1e-6 && w.dx < 1e9 && std::fabs(w.xll) < 1e12 && std::fabs(w.yll) < 1e12;
                    if (geo && s.asc[bad] == 0) compare(p.get(), w, "mangled", "mangled file as loaded: " + what, false, false);
                }
            } else if (bad > 0) for (int l = 0; l < lyrs; l++) if (l != bad) for (int i = 0; i < s.g.n(); i++) if (s.g.valid(i)) { T got = p->GetValue(i / s.g.cols, i % s.g.cols, l + 1); VF_CHECK(s.g.nd(l, i) ? ndeq((double) got, (double) s.g.nodata) : same<T>(got, s.g.v[l][i]), "other-layer", Str() << "layer " << l + 1 << " is wrong beside " << what); }
        }
    }
    if (p && r.chance(.6)) usable<T>(r, p.get(), what);
    vf::distinct(vf::hash_str(what, s.g.hash()));
}
template <class T> void bad_mask(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T>::R R;
    typedef dr::clsRasterData<T> MR;
    string dir = vf::scratch();
    mkdir((dir + "/m").c_str(), 0755);
    Set<T> s, k;
    int lyrs = r.chance(.6) ? 1 : 2;
    if (!gen_set(r, s, dir, lyrs) || !gen_set(r, k, dir + "/m", 1)) return;
    bool sure, calc = r.chance(.4), ext = r.chance(.5);
    string how = spoil(r, k.f[0], k.g, k.asc[0], sure);
    vf::desc("mask " + how.substr(0, how.find_first_of("0123456789")) + "| " + how);
    Grid<T> w;
    int can = holds<T>(k.f[0], k.asc[0], w);
    sure = k.asc[0] ? sure && can < 1 : can == 0;
    std::unique_ptr<MR> m1(MR::Init(k.f[0], r.chance(.5)));
    std::unique_ptr<MR> m2(new MR(k.f[0]));
    restore(k.f[0]);
    if (sure) {
        VF_CHECK(!m1 && !m2->ValidateRasterData(), "mask-accepted", "mask " + how + " was loaded");
        // an invalid mask object must not be taken for a mask
        if (r.chance(.3)) m2.reset(new MR());
        std::unique_ptr<R> p(lyrs == 1 ? R::Init(s.f[0], calc, m2.get(), ext) : R::Init(s.f, calc, m2.get(), ext));
        VF_CHECK(!p, "invalid-mask", "a raster was loaded under a mask that holds nothing");
        T one[1] = {T()};
        R q(m2.get(), one, 1);
        VF_CHECK(!q.ValidateRasterData(), "invalid-mask", "values were placed on a mask that holds nothing");
        usable<T>(r, &q, "an invalid mask");
        usable<T>(r, m2.get(), "a failed load of the mask");
        vf::tally("bad masks refused");
    }
    vf::distinct(vf::hash_str(how, k.g.hash()));
}
template <class T> void broken_read(vf::Case& c) {
    auto& r = c.r;
    typedef typename Lib<T>::R R;
    string dir = vf::scratch();
    Set<T> s;
    int lyrs = gen_lyrs(r, .6, 2, 3);
    if (!gen_set(r, s, dir, lyrs)) return;
    long k = (long) r.below(r.chance(.7) ? 12 : 60);
    vf::desc(Str() << "reading breaks| off after " << k << " reads: " << s.g.str());
    bool calc = r.chance(.4);
    uint64_t before = g_broken;
    g_reads_left = k;
    std::unique_ptr<R> p(lyrs == 1 ? R::Init(s.f[0], calc) : R::Init(s.f, calc));
    g_reads_left = -1;
    bool hit = g_broken > before;
    if (hit) vf::tally("loads with a failing read");
    vf::tally(p ? "loads that succeed all the same" : "loads reported as failed");
    VF_CHECK(hit || p, "refused", "a sound file was refused");
    if (p) {
        compare(p.get(), s.g, "broken", Str() << "loaded although reading failed after " << k << " reads", calc, false);
        usable<T>(r, p.get(), "a failing read");
    }
    vf::distinct(vf::mix(s.g.hash(), k));
}
// ---- writing
inline map<string, string> contents(const string& dir) {
    map<string, string> m;
    for (auto& f: listing(dir)) { struct stat st; if (!stat((dir + "/" + f).c_str(), &st) && S_ISREG(st.st_mode)) vf::read_file(dir + "/" + f, m[f]); }
    return m;
}
inline size_t biggest(const map<string, string>& m) { size_t n = 0; for (auto& kv: m) n = std::max(n, kv.second.size()); return n; }
struct Limit {
    int what;
    struct rlimit old;
    Limit(int what, rlim_t v): what(what) { getrlimit((__rlimit_resource) what, &old); struct rlimit n = old; n.rlim_cur = std::min(v, old.rlim_max); setrlimit((__rlimit_resource) what, &n); }
    ~Limit() { setrlimit((__rlimit_resource) what, &old); }
};
template <class T> void bad_write(vf::Case& c) {
    auto& r = c.r;
    string dir = vf::scratch();
    for (const char* d: {"/good", "/bad", "/last"}) mkdir((dir + d).c_str(), 0755);
    Built<T> b;
    MkOpt mo;
    mo.gen.big = 120;
    mo.srs = false;
    bool subs = r.chance(.35);
    if (subs) mo.gen.mode = 0;
    build(r, b, mo);
    bool asc = r.chance(.3);
    string name = asc ? "o.asc" : "o.tif";
    bool combined = r.chance(.4);
    if (subs) {
        subs = b->BuildSubSet();
        if (subs) b.compacted();
    }
    Grid<T> keep = b.g;
    auto write = [&](const string& path) { return subs ? b->OutputSubsetToFile(true, combined, path) : b->OutputToFile(path); };
    vf::desc("write| undisturbed " + b.str());
    bool can = write(dir + "/good/" + name);
    VF_CHECK(can, "refused", "a raster cannot be written: " + b.str());
    auto good = contents(dir + "/good");
    VF_CHECK(!good.empty(), "nothing", "writing reports success and leaves no file");
    string first = good.begin()->first, any = good.size() > 1 ? std::next(good.begin(), r.below(good.size()))->first : first;
    string bad = dir + "/bad", target = bad + "/" + name, how;
    size_t big = biggest(good);
    int fault = (int) r.below(14);
    bool ok, impossible = true;
    switch (fault) {
        case 0: how = "directory not writable"; chmod(bad.c_str(), 0555); break;
        case 1: how = "target is a directory"; mkdir((bad + "/" + any).c_str(), 0755); break;
        case 2: how = "parent is a file"; vf::write_file(bad + "/x", "x"); target = bad + "/x/" + name; break;
        case 3: how = "existing file read-only"; vf::write_file(bad + "/" + any, "old"); chmod((bad + "/" + any).c_str(), 0444); impossible = false; break;
        case 4: how = "name too long"; target = bad + "/" + string(300, 'n') + (asc ? ".asc" : ".tif"); break;
        case 5: how = "dangling link into a missing directory"; if (symlink((dir + "/none/there").c_str(), (bad + "/" + any).c_str())) {} break;
        case 6: how = "full device"; if (symlink("/dev/full", (bad + "/" + any).c_str())) {} break;
        case 7: how = "no file descriptors"; impossible = false; break;
        case 8: how = "target is a file nobody may write in a read-only directory"; vf::write_file(bad + "/" + any, "old"); chmod((bad + "/" + any).c_str(), 0444); chmod(bad.c_str(), 0555); break;
        default: how = "file size limit";
    }
    if (fault < 9) {
        vf::desc("write| with " + how + " " + name + " " + b.str());
        if (fault == 7) { Limit l(RLIMIT_NOFILE, 3); ok = write(target); }
        else ok = write(target);
    } else {
        size_t lim = r.chance(.5) ? r.below(big + 2) : big - std::min(big, (size_t) r.below(r.chance(.5) ? 4 : 600));
        impossible = lim < big;
        how += Str() << " of " << lim << " for " << big << " bytes";
        vf::desc("write| with " + how + " " + name + " " + b.str());
        Limit l(RLIMIT_FSIZE, lim);
        ok = write(target);
    }
    chmod(bad.c_str(), 0755);
    string cls = how.substr(0, how.find(" of "));
    vf::tally("writes with " + cls);
    vf::tally(ok ? "writes that succeed all the same" : "writes reported as failed");
    string what = how + (asc ? ", ASCII" : ", GeoTIFF") + (subs ? combined ? ", subsets combined" : ", subsets" : "");
    if (ok) {
        VF_CHECK(!impossible || fault >= 9, "accepted:" + cls, "writing reports success: " + what + " " + b.str());
        auto got = contents(bad);
        got.erase("x");
        for (auto& kv: good) {
            VF_CHECK(got.count(kv.first), "accepted:" + cls, "writing reports success without " + kv.first + ": " + what);
            VF_CHECK(got[kv.first] == kv.second, "accepted:" + cls, Str() << "writing reports success but left " << got[kv.first].size() << " bytes in " << kv.first << " that are not those of an undisturbed write (" << kv.second.size() << "): " << what);
        }
    }
    vf::desc("write| after " + how + " " + b.str());
    compare(b.r.get(), keep, "after", "raster after a write with " + how, false, false);
    VF_CHECK(write(dir + "/last/" + name), "after:write", "the raster cannot be written elsewhere after: " + what);
    VF_CHECK(contents(dir + "/last") == good, "after:bytes", "another file than before after: " + what);
    if (r.chance(.3)) { b->ReplaceNoData(b.g.nodata); b->CalculateStatistics(); VF_CHECK(b->GetValidNumber(1) == keep.nvalid(), "after:statistics", "statistics after: " + what); }
    vf::distinct(vf::hash_str(how, keep.hash()));
}
M_KIND_LEAK(bad_read, 4)
M_KIND_LEAK(bad_mask, 1)
M_KIND_LEAK(broken_read, 1)
M_KIND_LEAK(bad_write, 4)
#endif
