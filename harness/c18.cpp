// C18: file-store operations act on exactly the matching files
#include <algorithm>
#include <memory>
#include "mongod.hpp"
#include "db_mongoc.h"
using namespace ccgl;
using namespace ccgl::db_mongoc;
using vf::Str;
using std::string;
using std::vector;
const char* vf_rule = "Sequences of 4 to 25 operations (write, list, read, metadata, find, remove; files planted by other programs with small chunks, other kinds of ids, no name or no metadata) over 1 to 6 names and 0 to 4 metadata keys with overlapping values, against a document-database server in the harness whose store is read directly as ground truth; stream lengths around chunk boundaries; fault kinds: error replies, connections lost before or after a command takes effect, replies cut short, delays, at a chosen command of a chosen operation; every (state, operation) is counted.";
#include <dlfcn.h>
// The client library waits half a second before it looks for a lost server again: do not wait.
extern "C" int usleep(useconds_t us) {
    static int (*real)(useconds_t) = (int (*)(useconds_t)) dlsym(RTLD_NEXT, "usleep");
    return real(us > 100000 ? 1000 : us);
}
typedef std::map<string, string> SM;
static STRING_MAP sm(const SM& m) { STRING_MAP o; for (auto& x: m) o[x.first] = x.second; return o; }
static string show(const SM& m) { Str o; o << "{"; for (auto& x: m) o << x.first << "=" << x.second << " "; o << "}"; return o; }

void vf_init() {
    if (!freopen("/dev/null", "w", stdout)) {}
    mongoc_init();
    mongoc_log_set_handler(nullptr, nullptr);
    mdb::server().start();
}
struct Client {
    MongoClient* c;
    MongoGridFs* g = nullptr;
    string db, name;
    Client(const string& db_, const string& name_, bool lib, const char* extra = ""): db(db_), name(name_) {
        if (lib) c = MongoClient::Init("127.0.0.1", (vuint16_t) mdb::server().port);
        else { string u = Str() << "mongodb://127.0.0.1:" << mdb::server().port << "/?socketTimeoutMS=20000" << extra; c = new MongoClient(mongoc_client_new(u.c_str())); }
        VF_CHECK(c && c->GetConn(), "connect", "no client");
        g = c->GridFs(db, name);
    }
    void gone() { if (g) { delete g; g = nullptr; } if (c) { mongoc_client_destroy(c->GetConn()); delete c; c = nullptr; } }
    ~Client() { gone(); mdb::server().quiesce(); mdb::server().reset(); }
};
static const vector<string> KEYS = {"UNIT", "TYPE", "YEAR", "SCALE", "unit"};
static string mval(vf::Rng& r) { return r.pick({"A", "B", "AB", "1", "2", "1.5", "-9999", "TRUE", "FALSE", "2147483648", "", "a"}); }
static string gname(vf::Rng& r) { return r.pick({"dem", "dem.tif", "DEM", "de", "0_dem", "soil", "dem*", "", "\xe6\xb5\x81\xe5\x9f\x9f", "with space", "a/b", "dem.", "1", "$x"}); }
static SM gen_meta(vf::Rng& r, int mx) { SM m; int n = (int) r.range(0, mx); for (int i = 0; i < n; i++) m[r.pick(KEYS)] = mval(r); return m; }
static string payload(vf::Rng& r, bool big) {
    size_t n;
    const size_t CH = 255 * 1024;
    switch (r.below(big ? 9 : 5)) {
        case 0: n = 0; break;
        case 1: n = 1; break;
        case 2: case 3: n = (size_t) r.below(100); break;
        case 4: n = (size_t) r.below(5000); break;
        case 5: n = CH; break;
        case 6: n = CH + (size_t) r.range(-1, 1); break;
        case 7: n = 2 * CH + (size_t) r.range(-1, 1); break;
        default: n = (size_t) r.below(3 * CH); break;
    }
    string s(n, 0);
    if (n < 6000) for (auto& c: s) c = (char) r.next();
    else { vf::Rng q(r.next()); for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = q.next(); memcpy(&s[i], &v, 8); } }
    if (n && r.chance(.1)) s[0] = 0;
    return s;
}
// a value as text compared with a stored metadata field, as the filter language compares
static bool field_is(const bson_t* meta, const string& k, const string& v) {
    bson_iter_t it;
    if (!bson_iter_init_find(&it, meta, k.c_str())) return false;
    char* e; double x = strtod(v.c_str(), &e);
    if (!v.empty() && !*e) return BSON_ITER_HOLDS_NUMBER(&it) && (BSON_ITER_HOLDS_DOUBLE(&it) ? bson_iter_double(&it) : (double) bson_iter_as_int64(&it)) == x;
    return BSON_ITER_HOLDS_UTF8(&it) && v == bson_iter_utf8(&it, nullptr);
}
static bool matches(const mdb::F& f, const string& name, const SM& opts) {
    if (!f.named || f.name != name) return false;
    for (auto& o: opts) if (!f.has_meta || !field_is(f.meta, o.first, o.second)) return false;
    return true;
}
static string ident(const mdb::F& f) { return f.doc.json() + "#" + std::to_string(vf::hash_str(f.bytes)); }
static vector<string> idents(const vector<mdb::F>& v) { vector<string> r; for (auto& f: v) r.push_back(ident(f)); std::sort(r.begin(), r.end()); return r; }
static string names(const vector<mdb::F>& v) { Str o; for (auto& f: v) o << (f.named ? f.name : "(unnamed)") << (f.has_meta ? f.meta.json() : "") << "[" << f.bytes.size() << (f.complete ? "" : "!") << "] "; return o; }
static string joinlog() { string s; auto& v = mdb::server().log; for (size_t i = v.size() > 8 ? v.size() - 8 : 0; i < v.size(); i++) s += "\n    " + v[i]; return s; }
static SM gen_filter(vf::Rng& r, const vector<mdb::F>& fs) { // often taken from a stored file
    SM m;
    int n = (int) r.pickv<int>({0, 0, 1, 1, 2, 3});
    const mdb::F* f = fs.empty() ? nullptr : &fs[r.below(fs.size())];
    for (int i = 0; i < n; i++) {
        string k = r.pick(KEYS), v = mval(r);
        if (f && f->has_meta && r.chance(.75)) { vector<std::pair<string, string> > c; bson_iter_t it; bson_iter_init(&it, f->meta); while (bson_iter_next(&it)) if (BSON_ITER_HOLDS_UTF8(&it) || BSON_ITER_HOLDS_NUMBER(&it)) c.push_back({bson_iter_key(&it), BSON_ITER_HOLDS_UTF8(&it) ? bson_iter_utf8(&it, nullptr) : (string) (Str() << (BSON_ITER_HOLDS_DOUBLE(&it) ? bson_iter_double(&it) : (double) bson_iter_as_int64(&it)))});
            if (!c.empty()) { auto& p = c[r.below(c.size())]; k = p.first; v = p.second; } }
        m[k] = v;
    }
    return m;
}
static string pick_name(vf::Rng& r, const vector<mdb::F>& fs) { if (!fs.empty() && r.chance(.8)) { auto& f = fs[r.below(fs.size())]; if (f.named) return f.name; } return gname(r); }
static void plant_one(vf::Rng& r, const string& db, const string& gfs, const string& name, bool big) {
    SM m = gen_meta(r, 4);
    mdb::B meta; AppendStringOptionsToBson(meta, sm(m));
    string s = payload(r, false);
    (void) big;
    mdb::plant(db, gfs, r.chance(.1) ? nullptr : name.c_str(), r.chance(.15) ? nullptr : (bson_t*) meta, s, (int) r.pickv<int>({1000, 64, 4096, 100}), r.chance(.6) ? 0 : (int) r.range(1, 2));
    vf::tally("files of other programs");
}
enum Op { WRITE, LIST, READ, META, FIND, REMOVE, PLANT };
static const char* ON[] = {"write", "list", "read", "metadata", "find", "remove", "plant"};
// one operation; `faulty`: a fault may strike, so a failure is allowed (but never a wrong result reported as a success)
static bool step(vf::Rng& r, Client& cl, Op op, bool big, const vector<string>& pool, bool faulty, string& what) {
    auto before = mdb::files(cl.db, cl.name);
    size_t orph = mdb::orphans(cl.db, cl.name);
    string name = r.chance(.6) ? r.pick(pool) : pick_name(r, before);
    SM f = gen_filter(r, before);
    mongoc_gridfs_t* other = nullptr; // the store can also be given per call
    MongoGridFs bare;
    MongoGridFs* g = cl.g;
    if (r.chance(.15)) { g = &bare; other = cl.g->GetGridFs(); }
    vector<size_t> hit;
    for (size_t i = 0; i < before.size(); i++) if (matches(before[i], name, f)) hit.push_back(i);
    Str w; w << ON[op] << " " << vf::q(name) << " " << show(f);
    what = w;
    auto ctx = [&] { return (string) (Str() << "\n  " << what << "\n  store before: " << names(before) << "\n  store after: " << names(mdb::files(cl.db, cl.name)) << joinlog()); };
    auto untouched = [&](const char* sig) { VF_CHECK(idents(mdb::files(cl.db, cl.name)) == idents(before) && mdb::orphans(cl.db, cl.name) == orph, sig, "the store changed" + ctx()); };
    vf::distinct(vf::hash_str(what, vf::hash_str(names(before))));
    switch (op) {
        case PLANT: plant_one(r, cl.db, cl.name, name, big); return true;
        case WRITE: {
            SM m = gen_meta(r, 4);
            string s = payload(r, big);
            bson_t* meta = bson_new();
            AppendStringOptionsToBson(meta, sm(m));
            bool none = r.chance(.1);
            w << " metadata " << (none ? "none" : show(m)) << " " << s.size() << " bytes"; what = w;
            vector<char> own(s.begin(), s.end());
            own.push_back(0);
            char* buf = own.data();
            bool ok = g->WriteStreamData(name, buf, (vint) s.size(), none ? nullptr : meta, other);
            mdb::B want(meta);
            bson_destroy(meta);
            VF_CHECK(buf == own.data() && string(own.data(), s.size()) == s, "write-changed-input", "the caller's bytes changed" + ctx());
            auto after = mdb::files(cl.db, cl.name);
            if (!ok) { VF_CHECK(faulty, "write-failed", "writing failed" + ctx()); vf::tally("writes reported as failed");
                auto a = idents(after); for (auto& x: idents(before)) VF_CHECK(std::find(a.begin(), a.end(), x) != a.end(), "write-harms-others", "another file changed" + ctx()); return false; }
            VF_CHECK(after.size() == before.size() + 1, "write-count", Str() << after.size() << " files after" << ctx());
            size_t fresh = 0, nfresh = 0;
            auto b = idents(before);
            for (size_t i = 0; i < after.size(); i++) if (std::find(b.begin(), b.end(), ident(after[i])) == b.end()) { fresh = i; nfresh++; }
            VF_CHECK(nfresh == 1, "write-others", "another file changed" + ctx());
            const mdb::F& n = after[fresh];
            VF_CHECK(n.named && n.name == name, "write-name", "stored under " + vf::q(n.name) + ctx());
            VF_CHECK(n.complete && n.bytes == s, "write-bytes", Str() << "stored " << n.bytes.size() << " bytes, complete " << n.complete << ", expected " << s.size() << ctx());
            VF_CHECK(none ? !n.has_meta || bson_empty(n.meta.b) : n.has_meta && want.same(n.meta), "write-metadata", "stored metadata " + n.meta.json() + " expected " + want.json() + ctx());
            vf::tally("writes"); vf::tally("bytes written", s.size());
            return true;
        }
        case LIST: {
            vector<string> got;
            bool pre = r.chance(.2);
            if (pre) got.push_back("kept before");
            if (r.chance(.2) && !other && !pre) { cl.c->GetGridFsFileNames(cl.db, cl.name, got); }
            else g->GetFileNames(got, other);
            vector<string> want;
            if (pre) want.push_back("kept before");
            for (auto& x: before) if (x.named) want.push_back(x.name);
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            if (faulty) { VF_CHECK(std::includes(want.begin(), want.end(), got.begin(), got.end()), "list-wrong", "lists a name that is not stored" + ctx()); if (got != want) return false; }
            else VF_CHECK(got == want, "list", Str() << "lists " << got.size() << " names, stored " << want.size() << ctx());
            untouched("list-changes");
            vf::tally("listings");
            return true;
        }
        case READ: {
            char* buf = r.chance(.5) ? nullptr : (char*) 0x1;
            vint len = r.pickv<int>({-1, 0, 77});
            STRING_MAP o = sm(f);
            bool nil = f.empty() && r.chance(.5);
            bool ok = g->GetStreamData(name, buf, len, other, nil ? nullptr : &o);
            if (!ok) {
                VF_CHECK(buf == nullptr, "read-failed-buffer", "reading failed and left a buffer" + ctx());
                bool whole = false; for (auto i: hit) whole |= before[i].complete;
                VF_CHECK(hit.empty() || faulty || !whole, "read-failed", "reading failed although the file is stored" + ctx());
                vf::tally(hit.empty() ? "reads of absent files" : "reads reported as failed");
            }
            else {
                string got(buf ? buf : "", buf ? (size_t) std::max<vint>(0, len) : 0);
                delete[] buf;
                bool good = false;
                for (auto i: hit) good |= before[i].complete && before[i].bytes == got;
                VF_CHECK(good, hit.empty() ? "read-no-match" : "read-bytes", Str() << "read " << len << " bytes that are not those of a matching file (" << hit.size() << " match)" << ctx());
                vf::tally("reads"); vf::tally("bytes read", got.size());
            }
            untouched("read-changes");
            return ok;
        }
        case META: {
            bson_t* m = g->GetFileMetadata(name, other, sm(f));
            bool nometa = false, good = false, empty = false;
            for (auto i: hit) { nometa |= !before[i].has_meta; empty |= before[i].has_meta && bson_empty(before[i].meta.b); good |= m && before[i].has_meta && before[i].meta.same(m); }
            string got = m ? mdb::B(m).json() : "nothing";
            bool isempty = m && bson_empty(m);
            bson_destroy(m);
            if (m) VF_CHECK(good || (isempty && nometa), "metadata-value", "metadata " + got + " is that of no matching file" + ctx());
            else VF_CHECK(hit.empty() || nometa || faulty || empty, "metadata-missing", "no metadata although the file is stored" + ctx());
            untouched("metadata-changes");
            vf::tally(m ? "metadata read" : "metadata absent");
            return m != nullptr;
        }
        case FIND: {
            mongoc_gridfs_file_t* gf = g->GetFile(name, other, sm(f));
            if (gf) {
                string n = mongoc_gridfs_file_get_filename(gf) ? mongoc_gridfs_file_get_filename(gf) : "(none)";
                long long len = mongoc_gridfs_file_get_length(gf);
                mongoc_gridfs_file_destroy(gf);
                bool good = false;
                for (auto i: hit) good |= before[i].name == n && mdb::Server::num(before[i].doc, "length", -1) == len;
                VF_CHECK(good, "find-match", "found " + vf::q(n) + ", which does not match" + ctx());
            }
            else VF_CHECK(hit.empty() || faulty, "find-missing", "not found although it is stored" + ctx());
            untouched("find-changes");
            vf::tally(gf ? "files found" : "files not found");
            return gf != nullptr;
        }
        case REMOVE: {
            bool ok = g->RemoveFile(name, other, sm(f));
            auto after = mdb::files(cl.db, cl.name);
            vector<mdb::F> keep;
            for (size_t i = 0; i < before.size(); i++) if (std::find(hit.begin(), hit.end(), i) == hit.end()) keep.push_back(before[i]);
            auto a = idents(after), k = idents(keep);
            VF_CHECK(std::includes(a.begin(), a.end(), k.begin(), k.end()), "remove-others", "a file that does not match was removed or changed" + ctx());
            if (ok) {
                VF_CHECK(a == k, "remove-missing", Str() << "removal succeeded but " << after.size() - keep.size() << " matching files are still stored" << ctx());
                VF_CHECK(mdb::orphans(cl.db, cl.name) <= orph, "remove-chunks", "data chunks of a removed file are left" + ctx());
            }
            else { VF_CHECK(faulty || hit.empty(), "remove-failed", "removal failed" + ctx()); }
            vf::tally(ok ? "removals" : "removals reported as failed"); vf::tally("files removed", before.size() - after.size());
            return ok;
        }
    }
    return true;
}
static Op gen_op(vf::Rng& r) { return r.pickv<Op>({WRITE, WRITE, WRITE, LIST, READ, READ, READ, META, META, FIND, REMOVE, REMOVE, PLANT}); }
VF_KIND_LEAK(history, 10) {
    auto& r = c.r;
    mdb::server().reset();
    vf::desc("history|connect");
    Client cl(r.pick({"sp", "model_1", "TEST"}), r.pick({"fs", "SPATIAL", "spatial.sub"}), r.chance(.5));
    VF_CHECK(cl.g && cl.g->GetGridFs(), "connect", "no file store");
    if (r.chance(.5)) mdb::server().batch = (int) r.range(1, 3);
    vector<string> pool;
    int np = (int) r.range(1, 4);
    for (int i = 0; i < np; i++) pool.push_back(gname(r));
    bool big = r.chance(.25);
    int n = (int) r.range(4, 25);
    string what;
    for (int i = 0; i < n; i++) { Op op = gen_op(r); step(r, cl, op, big, pool, false, what); vf::desc("history|" + what); }
    vf::tally("histories");
}
VF_KIND_LEAK(faults, 8) {
    auto& r = c.r;
    mdb::server().reset();
    vf::desc("faults|connect");
    Client cl("db", "fs", false);
    VF_CHECK(cl.g && cl.g->GetGridFs(), "connect", "no file store");
    if (r.chance(.5)) mdb::server().batch = (int) r.range(1, 2);
    vector<string> pool = {"dem", gname(r)};
    string what;
    int n = (int) r.range(1, 6);
    for (int i = 0; i < n; i++) step(r, cl, r.chance(.5) ? WRITE : PLANT, false, pool, false, what);
    int fault = (int) r.range(mdb::F_ERROR, mdb::F_TRUNCATE);
    long at = r.chance(.6) ? 0 : (long) r.range(1, 4), span = r.chance(.4) ? 100 : (long) r.range(1, 3);
    Op op = r.pickv<Op>({WRITE, LIST, READ, META, FIND, REMOVE, REMOVE, WRITE, READ});
    const char* only = r.chance(.7) ? "" : r.pick({"update", "delete", "find", "insert", "getMore"});
    vf::desc(Str() << "faults|" << ON[op] << " with " << mdb::fname(fault) << " at command " << at << " for " << span << " " << only);
    mdb::server().arm(fault, at, span, only);
    bool big = op == WRITE && r.chance(.3);
    bool ok = step(r, cl, op, big, pool, true, what);
    long inj = mdb::server().disarm();
    if (inj) { vf::tally((string) (Str() << mdb::fname(fault) << " during " << ON[op])); vf::tally(ok ? "operations that survived a fault" : "operations failed by a fault"); }
    vf::desc(Str() << "faults|after " << ON[op] << " with " << mdb::fname(fault));
    // the store works again
    if (inj && r.chance(.5)) for (int i = 0; i < 3; i++) step(r, cl, r.pickv<Op>({LIST, FIND, READ}), false, pool, fault >= mdb::F_DROP_BEFORE, what);
}
// damaged files: a chunk is missing or short
VF_KIND_LEAK(damaged, 2) {
    auto& r = c.r;
    mdb::server().reset();
    Client cl("db", "fs", false);
    string s;
    int n = (int) r.range(2, 900);
    for (int i = 0; i < n; i++) s += (char) r.next();
    int chunk = (int) r.pickv<int>({64, 100, 300});
    int nch = (n + chunk - 1) / chunk, drop = (int) r.below((uint64_t) nch);
    vf::desc(Str() << "damaged|" << n << " bytes in " << nch << " chunks without chunk " << drop);
    mdb::plant("db", "fs", "f", nullptr, s, chunk, 0, drop);
    char* buf = (char*) 1; vint len = -1;
    bool ok = cl.g->GetStreamData("f", buf, len);
    if (ok) delete[] buf;
    VF_CHECK(!ok && buf == nullptr, "damaged-read", Str() << "a file of " << n << " bytes without its chunk " << drop << " of " << nch << " is read");
    VF_CHECK(cl.g->RemoveFile("f") && mdb::files("db", "fs").empty() && !mdb::orphans("db", "fs"), "damaged-remove", "the damaged file is not removed");
    vf::distinct(vf::mix((uint64_t) n, vf::mix((uint64_t) chunk, (uint64_t) drop)));
    vf::tally("damaged files");
}
// no store at all
VF_KIND_LEAK(no_store, 1) {
    auto& r = c.r;
    MongoGridFs* g = nullptr;
    int how = (int) r.below(3);
    MongoClient* mc = nullptr;
    vf::desc(Str() << "no store|" << how);
    mdb::server().reset();
    if (how == 0) g = new MongoGridFs();
    else if (how == 1) { mc = new MongoClient(mongoc_client_new("mongodb://127.0.0.1:1/?serverSelectionTimeoutMS=200&connectTimeoutMS=200")); g = mc->GridFs("db", "fs"); }
    else { mc = new MongoClient(mongoc_client_new(((string) (Str() << "mongodb://127.0.0.1:" << mdb::server().port << "/")).c_str())); mdb::server().arm(mdb::F_ERROR, 0, 100); g = mc->GridFs("db", "fs"); }
    VF_CHECK(g != nullptr, "no-store", "no object");
    VF_CHECK(g->GetGridFs() == nullptr, "no-store", "a file store from a failing server");
    char b[4] = "abc"; char* p = b;
    char* out = nullptr; vint len = 0;
    vector<string> v;
    VF_CHECK(!g->WriteStreamData("f", p, 3, nullptr), "no-store-write", "writing without a store succeeded");
    VF_CHECK(!g->GetStreamData("f", out, len), "no-store-read", "reading without a store succeeded");
    VF_CHECK(!g->RemoveFile("f"), "no-store-remove", "removing without a store succeeded");
    VF_CHECK(!g->GetFile("f"), "no-store-find", "finding without a store succeeded");
    VF_CHECK(!g->GetFileMetadata("f"), "no-store-metadata", "metadata without a store");
    g->GetFileNames(v);
    VF_CHECK(v.empty(), "no-store-list", "names without a store");
    if (mc) { vector<string> d, k; mc->GetDatabaseNames(d); mc->GetCollectionNames("db", k); mc->GetGridFsFileNames("db", "fs", v); VF_CHECK(d.empty() && k.empty() && v.empty() && !mc->GetCollection("db", "x"), "no-store-names", "names without a server"); }
    delete g;
    if (mc) { mongoc_client_destroy(mc->GetConn()); delete mc; }
    mdb::server().disarm(); mdb::server().quiesce(); mdb::server().reset();
    vf::tally("stores that do not exist");
}
// names of databases, collections, and records of collections
VF_KIND_LEAK(catalogue, 2) {
    auto& r = c.r;
    mdb::server().reset();
    std::set<string> dbs, colls; std::map<string, int> count;
    int nd = (int) r.range(1, 3);
    for (int i = 0; i < nd; i++) {
        string db = r.pick({"a", "b", "admin", "model"});
        dbs.insert(db);
        int nc = (int) r.range(1, 6);
        for (int k = 0; k < nc; k++) {
            string cn = r.pick({"x", "y", "fs.files", "fs.chunks", "SP.sub.files", "SP.sub.chunks", "only.files", "z", "x.y"});
            int n = (int) r.range(1, 150);
            for (int j = 0; j < n; j++) { mdb::B d; BSON_APPEND_INT32(d, "_id", j); BSON_APPEND_INT32(d, "v", j % 3); mdb::server().put(db + "." + cn, d); count[db + "." + cn]++; }
        }
    }
    Str w; for (auto& x: count) w << x.first << ":" << x.second << " ";
    vf::desc("catalogue|" + (string) w);
    vf::distinct(vf::hash_str(w));
    {
        Client cl("tmp", "fs", true);
        mdb::server().batch = r.chance(.5) ? (int) r.range(1, 4) : 0;
        vector<string> got; if (r.chance(.5)) got.push_back("old");
        cl.c->GetDatabaseNames(got);
        std::set<string> g(got.begin(), got.end()); g.erase("tmp");
        VF_CHECK(g == dbs, "databases", "database names wrong");
        for (auto& db: dbs) {
            vector<string> cn; if (r.chance(.5)) cn.push_back("old");
            cl.c->GetCollectionNames(db, cn);
            std::multiset<string> gc(cn.begin(), cn.end()), want;
            for (auto& x: count) if (x.first.compare(0, db.size() + 1, db + ".") == 0) want.insert(x.first.substr(db.size() + 1));
            for (const char* s: {"fs", "SP.sub"}) if (want.count(string(s) + ".files") && want.count(string(s) + ".chunks")) want.insert(s);
            Str m; for (auto& x: gc) m << x << " ";
            VF_CHECK(gc == want, "collections", Str() << "collections of " << db << ": " << (string) m << " with " << (string) w);
        }
        for (auto& x: count) {
            string db = x.first.substr(0, x.first.find('.')), cn = x.first.substr(db.size() + 1);
            mongoc_collection_t* k = cl.c->GetCollection(db, cn);
            VF_CHECK(k != nullptr, "collection", "collection " + x.first + " not found");
            MongoCollection mcol(k);
            VF_CHECK(mcol.QueryRecordsCount() == x.second, "record-count", Str() << "records of " << x.first << ": " << mcol.QueryRecordsCount() << " expected " << x.second);
            mdb::B q; BSON_APPEND_INT32(q, "v", 1);
            mongoc_cursor_t* cur = mcol.ExecuteQuery(q);
            const bson_t* d; int n = 0;
            while (mongoc_cursor_next(cur, &d)) n += mdb::Server::num(d, "v", -1) == 1;
            mongoc_cursor_destroy(cur);
            int want = 0; for (auto& d2: mdb::server().docs(x.first)) want += mdb::Server::num(d2, "v", -1) == 1;
            VF_CHECK(n == want, "query", Str() << "query of " << x.first << " gives " << n << " expected " << want);
        }
        VF_CHECK(!cl.c->GetCollection("a", "never"), "collection-absent", "a collection that does not exist");
    }
    vf::tally("catalogues");
}
