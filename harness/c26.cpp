// C26: file-system operations, watched through snapshots of everything below the scratch directory
#include "vf.hpp"
#include "utils_filesystem.h"
#include <algorithm>
#include <dirent.h>
#include <limits.h>
#include <strings.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace ccgl;
using namespace utils_filesystem;
using vf::Str;
using std::string;
const char* vf_rule = "Random trees (files, hidden files, empty and nested directories, symbolic links to files and directories inside and outside, dangling links, write-protected directories) below a scratch directory owned by an unprivileged user; each operation is given a random path of or beside the tree and the whole scratch directory is compared before and after; directory listings are also delivered without entry types, as some file systems do; distinct (tree, operation, path) triples are counted.";
static bool g_untyped = false;
extern "C" struct dirent* __real_readdir(DIR* d);
extern "C" struct dirent* __wrap_readdir(DIR* d) {
    struct dirent* e = __real_readdir(d);
    if (e && g_untyped) e->d_type = DT_UNKNOWN;
    return e;
}
void vf_init() { if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) {} vf::drop_privileges(); umask(022); }
typedef std::map<string, string> Snap;
static void snap_(const string& d, const string& rel, Snap& s) {
    std::vector<string> es;
    DIR* dp = opendir(d.c_str());
    if (!dp) { s[rel + "?"] = "unreadable"; return; }
    while (dirent* e = __real_readdir(dp)) { string n = e->d_name; if (n != "." && n != "..") es.push_back(n); }
    closedir(dp);
    for (auto& n: es) {
        string p = d + "/" + n, k = rel + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { s[k] = Str() << "dir " << (st.st_mode & 07777); snap_(p, k, s); }
        else if (S_ISLNK(st.st_mode)) { char b[PATH_MAX + 1]; ssize_t m = readlink(p.c_str(), b, PATH_MAX); s[k] = "link " + string(b, m > 0 ? m : 0); }
        else { string c; vf::read_file(p, c); s[k] = Str() << "file " << (st.st_mode & 07777) << " " << c; }
    }
}
static Snap snap(const string& d) { Snap s; bool u = g_untyped; g_untyped = false; snap_(d, "", s); g_untyped = u; return s; }
static string diff(const Snap& a, const Snap& b) {
    string o;
    for (auto& x: a) if (!b.count(x.first)) o += " removed " + x.first; else if (b.at(x.first) != x.second) o += " changed " + x.first;
    for (auto& x: b) if (!a.count(x.first)) o += " added " + x.first;
    return o;
}
static bool below(const string& k, const string& top) { return k == top || k.compare(0, top.size() + 1, top + "/") == 0; }
static bool only_below(const Snap& a, const Snap& b, const string& top, string& out) { // every difference lies at or below top
    Snap x, y;
    for (auto& e: a) if (!below(e.first, top)) x.insert(e);
    for (auto& e: b) if (!below(e.first, top)) y.insert(e);
    out = diff(x, y);
    return out.empty();
}
struct Tree { std::vector<string> dirs, files, links; std::set<string> ro; };
static string fname(vf::Rng& r) {
    string s = r.pick({"a", "b", "dem", "x y", "r1", "Z"});
    s += std::to_string(r.below(30));
    if (r.chance(.05)) s += string((size_t) r.range(50, 220), "abn_-"[r.below(5)]);
    if (r.chance(.08)) s += r.pick({"*", "?", "[a]", "\\", "\xe6\xb5\x81", "\n", "'", "$HOME", "%s%n", "-rf", ";"});
    s += r.pick({"", ".tif", ".TIF", ".asc", ".tiff", ".t", ".gz.tif", ".txt", ".tif.bak", ".x", ".As", ".if"});
    if (r.chance(.12)) s = "." + s;
    return s;
}
static void grow(vf::Rng& r, const string& root, const string& rel, int depth, Tree& t, const string& outside) {
    int nf = (int) r.below(5);
    for (int i = 0; i < nf; i++) {
        string k = rel + "/" + fname(r), p = root + k;
        struct stat st;
        if (!lstat(p.c_str(), &st)) continue;
        if (r.chance(.18)) {
            string to = r.pickv<string>({outside, outside + "/keep.tif", root + "/gone", root + "/tree", ".", outside + "/sub"});
            if (!symlink(to.c_str(), p.c_str())) t.links.push_back(k);
        } else { vf::write_file(p, r.chance(.2) ? "" : "content of " + k); if (r.chance(.1)) chmod(p.c_str(), 0444); t.files.push_back(k); }
    }
    int nd = depth > 0 ? (int) r.below(3) : 0;
    for (int i = 0; i < nd; i++) {
        string k = rel + "/" + r.pick({"d", "sub.tif", "..x", ".h", "e e", "asc"}) + std::to_string(r.below(20)), p = root + k;
        if (mkdir(p.c_str(), 0755)) continue;
        t.dirs.push_back(k);
        if (r.chance(.7)) grow(r, root, k, depth - 1, t, outside);
        if (r.chance(.06)) { chmod(p.c_str(), 0555); t.ro.insert(k); }
    }
}
// a chain of directories with long names: paths of up to some 3000 bytes
static string chain(vf::Rng& r, const string& root, string rel, Tree& t) {
    int n = (int) r.range(1, 14), len = (int) r.range(10, 200);
    for (int i = 0; i < n && rel.size() < 2800; i++) {
        rel += "/" + string((size_t) len, (char) ('a' + r.below(26))) + std::to_string(i);
        if (mkdir((root + rel).c_str(), 0755)) break;
        t.dirs.push_back(rel);
        string f = rel + "/" + fname(r);
        struct stat st;
        if (r.chance(.4) && lstat((root + f).c_str(), &st)) { vf::write_file(root + f, "deep"); t.files.push_back(f); }
    }
    return rel;
}
static bool empty_dir(const string& p) {
    DIR* d = opendir(p.c_str());
    if (!d) return false;
    int n = 0;
    while (__real_readdir(d)) n++;
    closedir(d);
    return n == 2;
}
static bool exists_l(const string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
static bool is_dir(const string& p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
static bool is_real_dir(const string& p) { struct stat st; return lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
// could an ordinary user delete everything below p?
static bool deletable(const string& p, const Snap& s, const string& k) {
    for (auto& e: s) if (below(e.first, k) && e.second.compare(0, 4, "dir ") == 0 && access((p + e.first.substr(k.size())).c_str(), W_OK | X_OK | R_OK)) return false;
    return true;
}
VF_KIND(tree_ops, 10) {
    auto& r = c.r;
    char rp[PATH_MAX];
    g_untyped = false;
    string root = realpath(vf::scratch().c_str(), rp), outside = root + "/outside";
    mkdir(outside.c_str(), 0755);
    mkdir((outside + "/sub").c_str(), 0755);
    vf::write_file(outside + "/keep.tif", "keep");
    vf::write_file(outside + "/sub/keep2", "keep2");
    mkdir((root + "/tree").c_str(), 0755);
    mkdir((root + "/treeb").c_str(), 0755);
    vf::write_file(root + "/treeb/n", "n");
    Tree t;
    t.dirs.push_back("/tree");
    if (r.chance(.08)) { string e = chain(r, root, "/tree", t); grow(r, root, e, 1, t, outside); vf::tally("chains of long names"); if (e.size() > 1000) vf::tally("paths beyond 1000 bytes"); }
    grow(r, root, "/tree", 3, t, outside);
    if (r.chance(.008) && t.ro.empty()) { // many entries
        string k = r.pick(t.dirs);
        int n = (int) r.range(100, vf::thorough() ? 5000 : 700);
        for (int i = 0; i < n; i++) { string f = k + "/m" + std::to_string(i) + (i % 3 ? ".tif" : ".asc"); if (i % 50 == 7) mkdir((root + f).c_str(), 0755); else vf::write_file(root + f, "m"); }
        vf::tally("directories with many entries");
    }
    int nops = (int) r.range(1, 5);
    for (int op = 0; op < nops; op++) {
        g_untyped = r.chance(.3);
        Snap a = snap(root);
        // a path: a directory, file, link or absent name of the tree
        string k;
        switch (r.below(6)) {
            case 0: k = t.files.empty() ? "/tree" : r.pick(t.files); break;
            case 1: k = t.links.empty() ? "/tree" : r.pick(t.links); break;
            case 2: k = r.pick(t.dirs) + "/new" + std::to_string(r.below(5)); break;
            case 3: k = "/tree/absent/x"; break;
            default: k = r.pick(t.dirs);
        }
        string p = root + k, shown = p;
        if (r.chance(.2)) { if (chdir(root.c_str())) return; shown = "." + k; if (r.chance(.3)) shown = "outside/.." + k; }
        else if (r.chance(.1)) shown = p + "/";
        if (is_real_dir(p) == false && shown == p + "/") shown = p;
        int which = op + 1 < nops && r.chance(.6) ? (int) r.range(5, 6) : (int) r.below(7);
        static const char* on[] = {"MakeDirectory", "CleanDirectory", "DeleteDirectory", "DeleteDirectory(keep subdirectories)", "DeleteExistedFile", "FindFiles", "queries"};
        vf::desc(Str() << on[which] << " " << k << " as " << shown << (g_untyped ? " untyped entries" : ""));
        vf::tally(on[which]);
        uint64_t h = vf::hash_str(on[which], vf::hash_str(k));
        for (auto& e: a) h = vf::hash_str(e.second, vf::hash_str(e.first, h));
        vf::distinct(h);
        bool lnk = exists_l(p) && a.count(k) && a[k].compare(0, 4, "link") == 0;
        string par = p.substr(0, p.find_last_of('/'));
        bool parok = is_dir(par) && access(par.c_str(), W_OK | X_OK) == 0;
        string w;
        switch (which) {
            case 0: {
                bool pre = is_dir(p), any = exists_l(p), ok = MakeDirectory(shown);
                Snap b = snap(root);
                if (pre) { VF_CHECK(ok && a == b, "make-existing", Str() << "MakeDirectory of existing directory " << k << " returned " << ok << diff(a, b)); }
                else if (!any && parok) {
                    Snap e = a; e[k] = b.count(k) ? b[k] : "";
                    VF_CHECK(ok && is_real_dir(p) && e == b, "make-new", Str() << "MakeDirectory " << k << " returned " << ok << ":" << diff(a, b));
                    t.dirs.push_back(k);
                } else VF_CHECK(!ok == !is_dir(p) && only_below(a, b, k, w), "make-fails", Str() << "MakeDirectory " << k << " returned " << ok << ":" << diff(a, b));
                break;
            }
            case 1: {
                if (lnk) break; // a link given as the path itself is resolved
                bool pre = is_dir(p);
                bool simple = pre && access(p.c_str(), W_OK | X_OK) == 0;
                if (pre) for (auto& e: a) if (below(e.first, k) && e.first != k) {
                    string rest = e.first.substr(k.size() + 1);
                    if (rest.find('/') != string::npos) simple = false;
                }
                bool any = exists_l(p), ok = CleanDirectory(shown);
                Snap b = snap(root);
                VF_CHECK(only_below(a, b, k, w), "clean-outside", Str() << "CleanDirectory " << k << " returned " << ok << " and changed outside:" << w);
                if (pre) VF_CHECK(is_real_dir(p), "clean-removed", Str() << "CleanDirectory removed the directory " << k);
                VF_CHECK(ok == (is_real_dir(p) && empty_dir(p)), "clean-untrue", Str() << "CleanDirectory " << k << " returned " << ok << " but the directory is " << (is_real_dir(p) ? empty_dir(p) ? "empty" : "not empty" : "absent"));
                if (simple || (!any && parok)) VF_CHECK(ok, "clean-fails", Str() << "CleanDirectory " << k << " failed");
                break;
            }
            case 2: case 3: {
                if (lnk) break;
                bool pre = is_dir(p), del = pre && parok && deletable(p, a, k), hasfull = false;
                if (which == 3) for (auto& e: a) if (below(e.first, k) && e.first != k && e.second.compare(0, 4, "dir ") == 0 && !empty_dir(root + e.first)) hasfull = true;
                bool file = exists_l(p) && !pre;
                bool ok = which == 2 ? (r.chance(.5) ? DeleteDirectory(shown) : DeleteDirectory(shown, true)) : DeleteDirectory(shown, false);
                Snap b = snap(root);
                VF_CHECK(only_below(a, b, k, w), "delete-outside", Str() << "DeleteDirectory " << k << " returned " << ok << " and changed outside:" << w);
                if (pre) VF_CHECK(ok == !exists_l(p), "delete-untrue", Str() << "DeleteDirectory " << k << " returned " << ok << " but the directory is " << (exists_l(p) ? "still there" : "gone"));
                else VF_CHECK(a == b, "delete-nothing", Str() << "DeleteDirectory of " << (file ? "a file" : "nothing") << " " << k << ":" << diff(a, b));
                if (!pre && !file) VF_CHECK(ok, "delete-absent", Str() << "DeleteDirectory of absent " << k << " reported failure");
                if (del && which == 2) VF_CHECK(ok, "delete-fails", Str() << "DeleteDirectory " << k << " failed: left" << diff(Snap(), b));
                if (which == 3 && pre) { // subdirectories keep their contents
                    for (auto& e: a) if (below(e.first, k) && e.first != k && e.first.substr(k.size() + 1).find('/') != string::npos) VF_CHECK(b.count(e.first) && b[e.first] == e.second, "delete-subdir", Str() << "DeleteDirectory without subdirectories removed " << e.first);
                    if (!hasfull && del) VF_CHECK(ok, "delete-fails", Str() << "DeleteDirectory " << k << " failed");
                }
                break;
            }
            case 4: {
                if (is_real_dir(p)) break;
                struct stat st;
                bool pre = stat(p.c_str(), &st) == 0;
                int rc = DeleteExistedFile(shown);
                Snap b = snap(root), e = a;
                if (pre && parok) {
                    e.erase(k);
                    VF_CHECK(rc == 0 && b == e, "delete-file", Str() << "DeleteExistedFile " << k << (lnk ? " (link)" : "") << " returned " << rc << ":" << diff(a, b));
                } else if (!pre) VF_CHECK(rc != 0 && (b == a || lnk), "delete-missing", Str() << "DeleteExistedFile of absent " << k << " returned " << rc << ":" << diff(a, b));
                else VF_CHECK(rc != 0 && b == a, "delete-protected", Str() << "DeleteExistedFile in a protected directory returned " << rc << ":" << diff(a, b));
                break;
            }
            case 5: {
                string ex = r.pick({"tif", ".tif", "*.tif", "*.TIF", "asc", "*.asc", ".*", "*.*", "*.t", "*.tiff", ".txt", "bak", "*.if"});
                string lp = shown;
                std::vector<string> v;
                int rc = FindFiles(lp.c_str(), ex.c_str(), v);
                Snap b = snap(root);
                VF_CHECK(a == b, "find-changes", Str() << "FindFiles changed:" << diff(a, b));
                if (!is_dir(p) || access(p.c_str(), R_OK)) { VF_CHECK(rc != 0 && v.empty(), "find-missing", Str() << "FindFiles in " << k << " which is no directory returned " << rc << " and " << v.size() << " names"); break; }
                VF_CHECK(rc == 0, "find-fails", Str() << "FindFiles in " << k << " returned " << rc);
                string want = ex.substr(ex.find_last_of('.') + 1);
                char rq[PATH_MAX];
                string dirp = realpath(p.c_str(), rq);
                std::multiset<string> exp, opt;
                DIR* d = opendir(p.c_str());
                while (dirent* e = __real_readdir(d)) {
                    string n = e->d_name, full = dirp + "/" + n;
                    if (n[0] == '.' || is_dir(full)) continue;
                    size_t dot = n.find_last_of('.');
                    string x = dot == string::npos ? "" : n.substr(dot + 1);
                    if (want == "*" || (!x.empty() && strcasecmp(x.c_str(), want.c_str()) == 0)) { struct stat st; (stat(full.c_str(), &st) ? opt : exp).insert(full); }
                }
                closedir(d);
                std::multiset<string> got(v.begin(), v.end());
                for (auto& x: exp) VF_CHECK(got.count(x) == 1, "find-misses", Str() << "FindFiles " << vf::q(ex) << " in " << k << " gives " << x << " " << got.count(x) << " times");
                for (auto& x: got) VF_CHECK(exp.count(x) || opt.count(x), "find-extra", Str() << "FindFiles " << vf::q(ex) << " in " << k << " lists " << vf::q(x));
                vf::tally("files found", exp.size());
                break;
            }
            default: {
                struct stat st;
                bool ex = stat(p.c_str(), &st) == 0, dir = ex && S_ISDIR(st.st_mode), reg = ex && S_ISREG(st.st_mode);
                VF_CHECK(FileExists(shown) == ex, "exists-file", Str() << "FileExists(" << shown << ") = " << FileExists(shown));
                VF_CHECK(DirectoryExists(shown) == dir, "exists-dir", Str() << "DirectoryExists(" << shown << ") = " << DirectoryExists(shown));
                VF_CHECK(PathExists(shown) == (dir || reg), "exists-path", Str() << "PathExists(" << shown << ") = " << PathExists(shown));
                std::vector<string> fs;
                bool all = true;
                int n = (int) r.below(4);
                for (int i = 0; i < n; i++) {
                    string q = root + (r.chance(.7) && !t.files.empty() ? r.pick(t.files) : r.chance(.5) ? k : "/tree/nope");
                    fs.push_back(q);
                    all = all && stat(q.c_str(), &st) == 0;
                }
                VF_CHECK(FilesExist(fs) == (all && n > 0), "exists-all", Str() << "FilesExist of " << n << " files = " << FilesExist(fs));
                VF_CHECK(snap(root) == a, "query-changes", "an existence query changed the file system");
            }
        }
        if (chdir("/")) return;
    }
    g_untyped = false;
    for (auto& k: t.ro) chmod((root + k).c_str(), 0755);
}
VF_KIND_LEAK(leaks, .4) {
    auto& r = c.r;
    g_untyped = false;
    string root = vf::scratch(), d = root + "/dir";
    int what = (int) r.below(4);
    vf::desc(Str() << "operation " << what << "|");
    MakeDirectory(d);
    vf::write_file(d + "/a.tif", "x");
    std::vector<string> v;
    if (what == 0) { FindFiles(d.c_str(), "*.*", v); FindFiles((d + "no").c_str(), "*.*", v); }
    else if (what == 1) CleanDirectory(d);
    else if (what == 2) { MakeDirectory(d + "/s"); DeleteDirectory(d); }
    else DeleteExistedFile(d + "/a.tif");
    // open directory handles would pile up as well
    int n = 0;
    DIR* dp = opendir("/proc/self/fd");
    if (dp) { while (__real_readdir(dp)) n++; closedir(dp); VF_CHECK(n < 60, "descriptors", Str() << n << " open descriptors"); }
    vf::tally("leak checks");
}
