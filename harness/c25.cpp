// C25: path decomposition and composition
#include "vf.hpp"
#include "utils_filesystem.h"
#include <limits.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace ccgl;
using namespace utils_filesystem;
using vf::Str;
using std::string;
const char* vf_rule = "Random directory trees and file names (several dots, leading dots, blanks, UTF-8, no suffix, dots in directory names only) named through absolute and relative paths with '.', '..', repeated separators and symbolic links, for existing and absent files and directories; distinct paths are counted.";
void vf_init() { if (!freopen("/dev/null", "w", stdout)) {} vf::drop_privileges(); }
static string name(vf::Rng& r, bool dir) {
    static const char* al = "abcXYZ019_- +~@";
    string s;
    int n = (int) r.range(1, 6);
    for (int i = 0; i < n; i++) s += al[r.below(15)];
    if (r.chance(.1)) s += "\xc3\xa9\xe4\xb8\xad";
    int dots = r.chance(.25) ? 0 : r.chance(.6) ? 1 : (int) r.range(2, 3);
    if (dir && r.chance(.4)) dots = 0;
    for (int i = 0; i < dots; i++) { s += '.'; int m = (int) r.range(r.chance(.1) && i + 1 < dots ? 0 : 1, 4); for (int k = 0; k < m; k++) s += "tifascTXT12"[r.below(11)]; }
    if (r.chance(.1)) s = "." + s;
    if (dots == 1 && r.chance(.1)) s = s.substr(s.find('.', 1) == string::npos ? 0 : s.find('.', 1));
    if (s == "." || s == ".." || s.empty()) s = "q.r";
    return s;
}
static string base_of(const string& p) { size_t i = p.find_last_of('/'); return i == string::npos ? p : p.substr(i + 1); }
static string dir_of(const string& p) { size_t i = p.find_last_of('/'); return i == string::npos ? "" : p.substr(0, i + 1); }
static bool same_dir(const string& a, const string& b) {
    if (a == b) return true;
    struct stat x, y;
    if (stat(a.c_str(), &x) || stat(b.c_str(), &y)) return false;
    return x.st_ino == y.st_ino && x.st_dev == y.st_dev;
}
static bool same_file(const string& a, const string& b) { return base_of(a) == base_of(b) && same_dir(dir_of(a).empty() ? "./" : dir_of(a), dir_of(b).empty() ? "./" : dir_of(b)); }
VF_KIND(paths, 10) {
    auto& r = c.r;
    string root = vf::scratch();
    char rp[PATH_MAX];
    root = realpath(root.c_str(), rp);
    // a chain of directories
    std::vector<string> dirs(1, root), names;
    int depth = (int) r.range(0, 4);
    for (int i = 0; i < depth; i++) { names.push_back(name(r, true)); string d = dirs.back() + "/" + names.back(); mkdir(d.c_str(), 0755); dirs.push_back(d); }
    string d = dirs.back(), fn = name(r, false), canon = d + "/" + fn;
    bool exists = r.chance(.5);
    struct stat st;
    if (!stat(canon.c_str(), &st)) { return; }
    if (exists) vf::write_file(canon, "x");
    bool linkdir = depth > 0 && r.chance(.2), noparent = !exists && r.chance(.15);
    string ln = root + "/" + "ln.k";
    if (linkdir && symlink(d.c_str(), ln.c_str())) linkdir = false;
    // a spelling of the path
    string p;
    bool rel = r.chance(.4);
    if (rel) {
        size_t k = r.below(dirs.size());
        if (chdir(dirs[k].c_str())) return;
        if (r.chance(.3)) p = "./";
        if (k > 0 && r.chance(.3)) { p += "../" + names[k - 1] + "/"; }
        for (size_t i = k; i < names.size(); i++) p += names[i] + (r.chance(.2) ? "//" : r.chance(.2) ? "/./" : "/");
        p += fn;
    } else {
        if (linkdir) p = ln + "/";
        else {
            p = root + "/";
            for (size_t i = 0; i < names.size(); i++) { p += names[i] + (r.chance(.2) ? "//" : r.chance(.2) ? "/./" : "/"); if (r.chance(.2)) p += "../" + names[i] + "/"; }
        }
        if (noparent) { p += "no.such/"; canon = ""; }
        p += fn;
    }
    vf::desc(Str() << "path " << vf::q(p) << (exists ? " (exists)" : " (absent)") << (rel ? " relative" : ""));
    vf::distinct(vf::hash_str(p) ^ exists);
    vf::tally(exists ? "existing files" : "absent files");
    if (rel) vf::tally("relative paths");
    string A = GetAbsolutePath(p);
    if (exists) VF_CHECK(A == canon, "absolute", Str() << "GetAbsolutePath(" << vf::q(p) << ") = " << vf::q(A) << " expected " << vf::q(canon));
    else VF_CHECK(A == p || same_file(A, p), "absolute", Str() << "GetAbsolutePath(" << vf::q(p) << ") = " << vf::q(A) << " names another file");
    VF_CHECK(GetAbsolutePath(A) == A, "absolute-twice", Str() << "GetAbsolutePath is not stable on " << vf::q(A));
    string D = GetPathFromFullName(p), C = GetCoreFileName(p), S = GetSuffix(p);
    string b = base_of(A);
    size_t dot = b.find_last_of('.');
    string ws = dot == string::npos ? "" : b.substr(dot + 1), wc = dot == string::npos ? b : b.substr(0, dot);
    VF_CHECK(S == ws, "suffix", Str() << "GetSuffix(" << vf::q(p) << ") = " << vf::q(S) << " expected " << vf::q(ws));
    VF_CHECK(C == wc, "core", Str() << "GetCoreFileName(" << vf::q(p) << ") = " << vf::q(C) << " expected " << vf::q(wc));
    VF_CHECK(D == dir_of(A), "dir", Str() << "GetPathFromFullName(" << vf::q(p) << ") = " << vf::q(D) << " expected " << vf::q(dir_of(A)));
    VF_CHECK(D + C + (S.empty() ? "" : "." + S) == A, "recombine", Str() << vf::q(D) << "+" << vf::q(C) << "+" << vf::q(S) << " do not give " << vf::q(A));
    if (D.empty()) { vf::tally("bare names"); }
    string suf = ws.empty() ? "" : "." + ws;
    auto same = [&](const string& got, const string& wantbase, const char* sig, const string& how) {
        VF_CHECK(base_of(got) == wantbase && (D.empty() ? dir_of(got).empty() || same_dir(dir_of(got), "./") : !dir_of(got).empty() && same_dir(dir_of(got), D)), sig, Str() << how << " of " << vf::q(p) << " = " << vf::q(got) << " expected " << vf::q(D + wantbase));
    };
    string x = r.pick({"masked", "1", "a.b", "x y", "_"});
    int k = (int) r.range(-5, 2000);
    char del = r.chance(.7) ? '_' : r.pickv<char>({'-', '.', '#'});
    string ks = std::to_string(k);
    same(AppendCoreFileName(p, x), wc + "_" + x + suf, "append", "AppendCoreFileName");
    same(AppendCoreFileName(p, x, del), wc + del + x + suf, "append", "AppendCoreFileName");
    same(AppendCoreFileName(p, (vint) k), wc + "_" + ks + suf, "append", "AppendCoreFileName");
    same(PrefixCoreFileName(p, x), x + "_" + wc + suf, "prefix", "PrefixCoreFileName");
    same(PrefixCoreFileName(p, x, del), x + del + wc + suf, "prefix", "PrefixCoreFileName");
    same(PrefixCoreFileName(p, (vint) k), ks + "_" + wc + suf, "prefix", "PrefixCoreFileName");
    string nsuf = r.pick({"tif", "asc", "TIF", "x1"});
    string R = ReplaceSuffix(p, nsuf);
    if (ws.empty() || D.empty()) VF_CHECK(R.empty() || base_of(R) == wc + "." + nsuf, "replace", Str() << "ReplaceSuffix(" << vf::q(p) << ") = " << vf::q(R));
    else same(R, wc + "." + nsuf, "replace", "ReplaceSuffix");
    // composing
    if (!D.empty()) {
        string dd = r.chance(.5) ? D : D.size() > 1 ? D.substr(0, D.size() - 1) : D;
        same(ConcatFullName(dd, wc, ws), b, "concat", "ConcatFullName of the parts");
        same(ConcatFullName(dd, "nn.m", "z"), "nn.m.z", "concat", "ConcatFullName");
        same(ConcatFullName(dd, "nn"), "nn", "concat", "ConcatFullName");
    }
    // directories stand for themselves
    if (exists && r.chance(.2)) {
        string g = GetPathFromFullName(d);
        VF_CHECK(same_dir(g, d), "dir-of-dir", Str() << "GetPathFromFullName(" << vf::q(d) << ") = " << vf::q(g));
    }
    if (chdir("/")) {}
}
VF_KIND(app_path, .05) {
    char b[PATH_MAX + 1];
    ssize_t n = readlink("/proc/self/exe", b, PATH_MAX);
    if (n <= 0) return;
    b[n] = 0;
    VF_CHECK(GetAppPath() == dir_of(b), "app-path", Str() << "GetAppPath " << vf::q(GetAppPath()) << " for " << b);
    (void) c;
    vf::tally("application paths");
}
VF_KIND(odd, .3) { // no crash whatever the text
    auto& r = c.r;
    string s;
    int n = (int) r.below(r.chance(.05) ? 6000 : 12);
    for (int i = 0; i < n; i++) s += r.pick({".", "/", "a", "b.c", "//", " ", "\xff"});
    vf::desc(Str() << "path text " << vf::q(s));
    string D = GetPathFromFullName(s), C = GetCoreFileName(s), S = GetSuffix(s), A = GetAbsolutePath(s);
    AppendCoreFileName(s, "x"); PrefixCoreFileName(s, "x"); ReplaceSuffix(s, "tif"); ConcatFullName(s, "a", "b"); PathExists(s); DirectoryExists(s); FileExists(s);
    VF_CHECK(S.find('/') == string::npos && S.find('.') == string::npos && C.find('/') == string::npos, "parts", Str() << "core " << vf::q(C) << " suffix " << vf::q(S) << " of " << vf::q(s));
    vf::distinct(vf::hash_str(s));
    vf::tally("odd texts");
}
