// A small document-database server on the loopback interface, in a thread of the harness: the ground truth for the store, with injected faults.
#ifndef MONGOD_HPP
#define MONGOD_HPP
#include "vf.hpp"
#include <atomic>
#include <mutex>
#include <thread>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <unistd.h>
#include <mongoc.h>

namespace mdb {
// --- owned documents -----------------------------------------------------
struct B {
    bson_t* b;
    B(): b(bson_new()) {}
    explicit B(const bson_t* o): b(bson_copy(o)) {}
    B(const B& o): b(bson_copy(o.b)) {}
    B(B&& o): b(o.b) { o.b = bson_new(); }
    B& operator=(const B& o) { if (this != &o) { bson_destroy(b); b = bson_copy(o.b); } return *this; }
    ~B() { bson_destroy(b); }
    operator bson_t*() const { return b; }
    std::string json() const { char* s = bson_as_relaxed_extended_json(b, nullptr); std::string r = s ? s : "?"; bson_free(s); return r; }
    bool same(const bson_t* o) const { return bson_equal(b, o); }
};
inline bool sub(const bson_iter_t& it, bson_t& out) {
    const uint8_t* d; uint32_t n;
    if (BSON_ITER_HOLDS_DOCUMENT(&it)) bson_iter_document(&it, &n, &d);
    else if (BSON_ITER_HOLDS_ARRAY(&it)) bson_iter_array(&it, &n, &d);
    else return false;
    return bson_init_static(&out, d, n);
}
inline bool number(const bson_value_t* v, long double& x) {
    switch (v->value_type) {
        case BSON_TYPE_INT32: x = v->value.v_int32; return true;
        case BSON_TYPE_INT64: x = v->value.v_int64; return true;
        case BSON_TYPE_DOUBLE: x = v->value.v_double; return true;
        default: return false;
    }
}
inline int cmp(const bson_value_t* a, const bson_value_t* b) { // 0 equal; numbers compared as numbers
    long double x, y;
    if (number(a, x) && number(b, y)) return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
    if (a->value_type != b->value_type) return 2;
    switch (a->value_type) {
        case BSON_TYPE_UTF8: { std::string s(a->value.v_utf8.str, a->value.v_utf8.len), t(b->value.v_utf8.str, b->value.v_utf8.len); return s < t ? -1 : s > t; }
        case BSON_TYPE_OID: return bson_oid_compare(&a->value.v_oid, &b->value.v_oid);
        case BSON_TYPE_BOOL: return (int) a->value.v_bool - (int) b->value.v_bool;
        case BSON_TYPE_DATE_TIME: return a->value.v_datetime < b->value.v_datetime ? -1 : a->value.v_datetime > b->value.v_datetime;
        case BSON_TYPE_NULL: return 0;
        default: { bson_t *p = bson_new(), *q = bson_new(); bson_append_value(p, "", 0, a); bson_append_value(q, "", 0, b); int r = bson_equal(p, q) ? 0 : 2; bson_destroy(p); bson_destroy(q); return r; }
    }
}
inline bool match(const bson_t* doc, const bson_t* filter) {
    bson_iter_t f;
    if (!bson_iter_init(&f, filter)) return false;
    while (bson_iter_next(&f)) {
        const char* key = bson_iter_key(&f);
        bson_iter_t it, d;
        bson_t ops;
        bool found = bson_iter_init(&it, doc) && bson_iter_find_descendant(&it, key, &d);
        bson_iter_t o;
        if (BSON_ITER_HOLDS_DOCUMENT(&f) && sub(f, ops) && bson_iter_init(&o, &ops) && bson_iter_next(&o) && bson_iter_key(&o)[0] == '$') {
            do {
                std::string op = bson_iter_key(&o);
                int c = found ? cmp(bson_iter_value(&d), bson_iter_value(&o)) : 2;
                bool ok;
                if (op == "$gte") ok = c == 0 || c == 1;
                else if (op == "$gt") ok = c == 1;
                else if (op == "$lte") ok = c == 0 || c == -1;
                else if (op == "$lt") ok = c == -1;
                else if (op == "$eq") ok = c == 0;
                else if (op == "$ne") ok = c != 0;
                else { fprintf(stderr, "HARNESS: query operator %s\n", op.c_str()); _exit(3); }
                if (!ok) return false;
            } while (bson_iter_next(&o));
            continue;
        }
        if (!found) { if (BSON_ITER_HOLDS_NULL(&f)) continue; return false; }
        if (cmp(bson_iter_value(&d), bson_iter_value(&f)) != 0) return false;
    }
    return true;
}

enum Fault { F_NONE, F_ERROR, F_DROP_BEFORE, F_DROP_AFTER, F_DELAY, F_TRUNCATE };
inline const char* fname(int f) { static const char* n[] = {"none", "error reply", "connection lost before", "connection lost after", "delay", "reply cut short"}; return n[f]; }

struct Server {
    int fd = -1, port = 0;
    std::thread acceptor;
    std::mutex m;
    std::map<std::string, std::vector<B> > colls; // "db.coll"
    struct Cursor { std::string ns; std::vector<B> rest; };
    std::map<int64_t, Cursor> cursors;
    int64_t next_cursor = 1000;
    int batch = 0;             // 0: whatever the client asks
    // faults: the command number `at` counted from arm(), for `n` commands
    int fault = F_NONE; long at = -1, span = 0, seen = 0; std::string only; long injected = 0;
    std::vector<std::string> log;
    std::map<std::string, uint64_t> counts;
    std::atomic<int> active{0};
    void quiesce() { for (int i = 0; i < 2000 && active > 0; i++) usleep(500); } // after the clients are gone

    void start() {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a; memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = 0;
        socklen_t n = sizeof a;
        if (fd < 0 || bind(fd, (sockaddr*) &a, sizeof a) || listen(fd, 16) || getsockname(fd, (sockaddr*) &a, &n)) { fprintf(stderr, "HARNESS: cannot listen on the loopback\n"); _exit(3); }
        port = ntohs(a.sin_port);
        acceptor = std::thread([this] { for (;;) { int c = accept(fd, nullptr, nullptr); if (c < 0) return; active++; std::thread([this, c] { serve(c); close(c); active--; }).detach(); } });
        acceptor.detach();
    }
    void reset() { std::lock_guard<std::mutex> l(m); colls.clear(); cursors.clear(); log.clear(); fault = F_NONE; at = -1; span = 0; seen = 0; only.clear(); injected = 0; batch = 0; }
    void arm(int f, long k, long n, const std::string& cmd = "") { std::lock_guard<std::mutex> l(m); fault = f; at = k; span = n; seen = 0; only = cmd; injected = 0; }
    long disarm() { std::lock_guard<std::mutex> l(m); fault = F_NONE; at = -1; return injected; }
    long commands() { std::lock_guard<std::mutex> l(m); return seen; }
    std::vector<B> docs(const std::string& ns) { std::lock_guard<std::mutex> l(m); return colls[ns]; }
    void put(const std::string& ns, const B& d) { std::lock_guard<std::mutex> l(m); colls[ns].push_back(d); }

    // --- wire ---
    static bool readn(int c, void* p, size_t n) { char* q = (char*) p; while (n) { ssize_t k = recv(c, q, n, 0); if (k <= 0) return false; q += k; n -= (size_t) k; } return true; }
    static bool writen(int c, const void* p, size_t n) { const char* q = (const char*) p; while (n) { ssize_t k = send(c, q, n, MSG_NOSIGNAL); if (k <= 0) return false; q += k; n -= (size_t) k; } return true; }
    static int32_t rd(const char* p) { int32_t v; memcpy(&v, p, 4); return v; }
    static void i32(std::string& s, int32_t v) { s.append((char*) &v, 4); }
    void serve(int c) {
        int one = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        for (;;) {
            int32_t h[4];
            if (!readn(c, h, 16)) return;
            if (h[0] < 16 || h[0] > 64 * 1024 * 1024) return;
            std::string body((size_t) h[0] - 16, 0);
            if (!readn(c, &body[0], body.size())) return;
            B reply;
            std::string out;
            if (h[3] == 2004) { // legacy query: the handshake
                size_t p = 4; p += strlen(&body[p]) + 1; p += 8;
                bson_t q;
                if (!bson_init_static(&q, (const uint8_t*) &body[p], (size_t) rd(&body[p]))) return;
                B cmd(&q);
                hello(reply);
                i32(out, 0); i32(out, 0); i32(out, h[1]); i32(out, 1);
                i32(out, 8); out.append(8, 0); i32(out, 0); i32(out, 1);
                out.append((const char*) bson_get_data(reply), reply.b->len);
            }
            else if (h[3] == 2013) {
                uint32_t flags = (uint32_t) rd(&body[0]);
                size_t p = 4, end = body.size() - ((flags & 1) ? 4 : 0);
                B cmd;
                std::map<std::string, std::vector<B> > seqs;
                while (p < end) {
                    char kind = body[p++];
                    if (kind == 0) {
                        bson_t q; int32_t n = rd(&body[p]);
                        if (!bson_init_static(&q, (const uint8_t*) &body[p], (size_t) n)) return;
                        cmd = B(&q); p += (size_t) n;
                    }
                    else {
                        int32_t n = rd(&body[p]); size_t e = p + (size_t) n, s = p + 4;
                        std::string id = &body[s]; s += id.size() + 1;
                        while (s < e) { bson_t q; int32_t k = rd(&body[s]); if (!bson_init_static(&q, (const uint8_t*) &body[s], (size_t) k)) return; seqs[id].push_back(B(&q)); s += (size_t) k; }
                        p = e;
                    }
                }
                int f = F_NONE;
                bson_iter_t it;
                std::string name = bson_iter_init(&it, cmd) && bson_iter_next(&it) ? bson_iter_key(&it) : "";
                {
                    std::lock_guard<std::mutex> l(m);
                    counts[name]++;
                    bool counted = name != "hello" && name != "isMaster" && name != "ismaster" && name != "endSessions" && (only.empty() || only == name);
                    if (counted) { if (fault != F_NONE && seen >= at && seen < at + span) { f = fault; injected++; } seen++; }
                    if (log.size() < 400) log.push_back(name + (f ? std::string(" [") + fname(f) + "]" : "") + " " + cmd.json().substr(0, 300));
                }
                if (f == F_DROP_BEFORE) return;
                if (f == F_DELAY) usleep(20000);
                if (f == F_ERROR) { BSON_APPEND_DOUBLE(reply, "ok", 0); BSON_APPEND_UTF8(reply, "errmsg", "injected failure"); BSON_APPEND_INT32(reply, "code", 96); BSON_APPEND_UTF8(reply, "codeName", "OperationFailed"); }
                else { std::lock_guard<std::mutex> l(m); command(name, cmd, seqs, reply); }
                if (f == F_DROP_AFTER) return;
                if (flags & 2) continue;
                i32(out, 0); i32(out, 0); i32(out, h[1]); i32(out, 2013); i32(out, 0); out += '\0';
                out.append((const char*) bson_get_data(reply), reply.b->len);
                if (f == F_TRUNCATE) { int32_t n = (int32_t) out.size(); memcpy(&out[0], &n, 4); writen(c, out.data(), out.size() / 2); return; }
            }
            else return;
            int32_t n = (int32_t) out.size();
            memcpy(&out[0], &n, 4);
            if (!writen(c, out.data(), out.size())) return;
        }
    }
    static void hello(bson_t* r) {
        BSON_APPEND_BOOL(r, "helloOk", true); BSON_APPEND_BOOL(r, "ismaster", true); BSON_APPEND_BOOL(r, "isWritablePrimary", true);
        BSON_APPEND_INT32(r, "maxBsonObjectSize", 16777216); BSON_APPEND_INT32(r, "maxMessageSizeBytes", 48000000); BSON_APPEND_INT32(r, "maxWriteBatchSize", 100000);
        BSON_APPEND_DATE_TIME(r, "localTime", 1700000000000LL); BSON_APPEND_INT32(r, "logicalSessionTimeoutMinutes", 30); BSON_APPEND_INT32(r, "connectionId", 1);
        BSON_APPEND_INT32(r, "minWireVersion", 0); BSON_APPEND_INT32(r, "maxWireVersion", 17); BSON_APPEND_BOOL(r, "readOnly", false); BSON_APPEND_DOUBLE(r, "ok", 1);
    }
    static std::string str(const bson_t* d, const char* k) { bson_iter_t it; return bson_iter_init_find(&it, d, k) && BSON_ITER_HOLDS_UTF8(&it) ? bson_iter_utf8(&it, nullptr) : ""; }
    static long long num(const bson_t* d, const char* k, long long dflt) { bson_iter_t it; if (!bson_iter_init_find(&it, d, k)) return dflt; return BSON_ITER_HOLDS_NUMBER(&it) ? (BSON_ITER_HOLDS_DOUBLE(&it) ? (long long) bson_iter_double(&it) : bson_iter_as_int64(&it)) : BSON_ITER_HOLDS_BOOL(&it) ? bson_iter_bool(&it) : dflt; }
    static B doc(const bson_t* d, const char* k) { bson_iter_t it; bson_t s; if (bson_iter_init_find(&it, d, k) && sub(it, s)) return B(&s); return B(); }
    static std::vector<B> list(const bson_t* d, const char* k) {
        std::vector<B> v;
        bson_iter_t it, e; bson_t s, t;
        if (bson_iter_init_find(&it, d, k) && sub(it, s) && bson_iter_init(&e, &s)) while (bson_iter_next(&e)) if (sub(e, t)) v.push_back(B(&t));
        return v;
    }
    void emit(bson_t* reply, const std::string& ns, std::vector<B> all, long long want, const char* field, int64_t id = 0) {
        size_t n = all.size();
        if (want > 0 && n > (size_t) want) n = (size_t) want;
        if (batch > 0 && n > (size_t) batch) n = (size_t) batch;
        std::vector<B> rest(all.begin() + (long) n, all.end());
        int64_t cid = 0;
        if (!rest.empty()) { cid = id ? id : next_cursor++; cursors[cid] = Cursor{ns, rest}; }
        bson_t cur, arr;
        BSON_APPEND_DOCUMENT_BEGIN(reply, "cursor", &cur);
        BSON_APPEND_ARRAY_BEGIN(&cur, field, &arr);
        for (size_t i = 0; i < n; i++) BSON_APPEND_DOCUMENT(&arr, std::to_string(i).c_str(), all[i]);
        bson_append_array_end(&cur, &arr);
        BSON_APPEND_INT64(&cur, "id", cid);
        BSON_APPEND_UTF8(&cur, "ns", ns.c_str());
        bson_append_document_end(reply, &cur);
        BSON_APPEND_DOUBLE(reply, "ok", 1);
    }
    void command(const std::string& name, const B& cmd, std::map<std::string, std::vector<B> >& seqs, bson_t* reply) {
        std::string db = str(cmd, "$db"), coll = str(cmd, name.c_str()), ns = db + "." + coll;
        for (const char* k: {"documents", "updates", "deletes"}) if (!seqs.count(k)) for (auto& d: list(cmd, k)) seqs[k].push_back(d);
        if (name == "hello" || name == "isMaster" || name == "ismaster") { hello(reply); return; }
        if (name == "find") {
            B filter = doc(cmd, "filter"), sort = doc(cmd, "sort");
            std::vector<B> r;
            if (colls.count(ns)) for (auto& d: colls[ns]) if (match(d, filter)) r.push_back(d);
            bson_iter_t s;
            if (bson_iter_init(&s, sort) && bson_iter_next(&s)) {
                std::string k = bson_iter_key(&s);
                long long dir = bson_iter_as_int64(&s);
                std::stable_sort(r.begin(), r.end(), [&](const B& a, const B& b) { bson_iter_t x, y; bool ha = bson_iter_init_find(&x, a, k.c_str()), hb = bson_iter_init_find(&y, b, k.c_str()); if (!ha || !hb) return dir > 0 ? !ha && hb : ha && !hb; int c = cmp(bson_iter_value(&x), bson_iter_value(&y)); return dir > 0 ? c == -1 : c == 1; });
            }
            long long skip = num(cmd, "skip", 0), limit = num(cmd, "limit", 0), bs = num(cmd, "batchSize", 101);
            if (skip > 0) r.erase(r.begin(), r.begin() + std::min<long long>(skip, (long long) r.size()));
            if (limit < 0) limit = -limit;
            if (limit > 0 && r.size() > (size_t) limit) r.erase(r.begin() + limit, r.end());
            if (num(cmd, "singleBatch", 0) && bs > 0 && r.size() > (size_t) bs) r.erase(r.begin() + bs, r.end());
            B proj = doc(cmd, "projection");
            std::set<std::string> keep; bool noid = false;
            if (bson_iter_init(&s, proj)) while (bson_iter_next(&s)) { if (bson_iter_as_bool(&s)) keep.insert(bson_iter_key(&s)); else noid |= !strcmp(bson_iter_key(&s), "_id"); }
            if (!keep.empty()) for (auto& d: r) { B n; bson_iter_t it; bson_iter_init(&it, d); while (bson_iter_next(&it)) { std::string k = bson_iter_key(&it); if (keep.count(k) || (k == "_id" && !noid)) bson_append_value(n, k.c_str(), -1, bson_iter_value(&it)); } d = n; }
            emit(reply, ns, r, bs, "firstBatch");
            return;
        }
        if (name == "getMore") {
            int64_t id = num(cmd, "getMore", 0);
            auto it = cursors.find(id);
            if (it == cursors.end()) { BSON_APPEND_DOUBLE(reply, "ok", 0); BSON_APPEND_UTF8(reply, "errmsg", "cursor not found"); BSON_APPEND_INT32(reply, "code", 43); return; }
            Cursor c = it->second;
            cursors.erase(it);
            emit(reply, c.ns, c.rest, num(cmd, "batchSize", 0), "nextBatch", id);
            return;
        }
        if (name == "insert") {
            for (auto& d: seqs["documents"]) colls[ns].push_back(d);
            BSON_APPEND_INT32(reply, "n", (int) seqs["documents"].size()); BSON_APPEND_DOUBLE(reply, "ok", 1);
            return;
        }
        if (name == "update") {
            int n = 0, mod = 0;
            B ups;
            int nu = 0;
            for (auto& u: seqs["updates"]) {
                B q = doc(u, "q"), upd = doc(u, "u");
                bool multi = num(u, "multi", 0) != 0, hit = false;
                for (auto& d: colls[ns]) if (match(d, q)) { apply(d, upd); n++; mod++; hit = true; if (!multi) break; }
                if (!hit && num(u, "upsert", 0)) {
                    B d;
                    bson_iter_t it; bson_iter_init(&it, q);
                    bson_iter_t f;
                    bool ops = bson_iter_init(&f, upd) && bson_iter_next(&f) && bson_iter_key(&f)[0] == '$';
                    while (bson_iter_next(&it)) if (ops || !strcmp(bson_iter_key(&it), "_id")) bson_append_value(d, bson_iter_key(&it), -1, bson_iter_value(&it));
                    if (!bson_has_field(d, "_id") && !(bson_iter_init_find(&f, upd, "_id"))) { bson_oid_t o; bson_oid_init(&o, nullptr); BSON_APPEND_OID(d, "_id", &o); }
                    if (!ops) { B e(upd); bson_iter_t g; if (!bson_iter_init_find(&g, e, "_id")) { B x; bson_iter_init_find(&g, d, "_id"); bson_append_value(x, "_id", -1, bson_iter_value(&g)); bson_concat(x, e); e = x; } d = e; }
                    else apply(d, upd);
                    colls[ns].push_back(d);
                    n++;
                    bson_t x; BSON_APPEND_DOCUMENT_BEGIN(ups, std::to_string(nu).c_str(), &x); BSON_APPEND_INT32(&x, "index", nu); bson_iter_t g; if (bson_iter_init_find(&g, d, "_id")) bson_append_value(&x, "_id", -1, bson_iter_value(&g)); bson_append_document_end(ups, &x);
                    nu++;
                }
            }
            BSON_APPEND_INT32(reply, "n", n); BSON_APPEND_INT32(reply, "nModified", mod);
            if (nu) BSON_APPEND_ARRAY(reply, "upserted", ups);
            BSON_APPEND_DOUBLE(reply, "ok", 1);
            return;
        }
        if (name == "delete") {
            int n = 0;
            for (auto& u: seqs["deletes"]) {
                B q = doc(u, "q");
                long long limit = num(u, "limit", 0), k = 0;
                auto& v = colls[ns];
                for (size_t i = 0; i < v.size();) if (match(v[i], q) && (!limit || k < limit)) { v.erase(v.begin() + (long) i); k++; } else i++;
                n += (int) k;
            }
            BSON_APPEND_INT32(reply, "n", n); BSON_APPEND_DOUBLE(reply, "ok", 1);
            return;
        }
        if (name == "count") { B q = doc(cmd, "query"); int n = 0; for (auto& d: colls[ns]) n += match(d, q); BSON_APPEND_INT32(reply, "n", n); BSON_APPEND_DOUBLE(reply, "ok", 1); return; }
        if (name == "aggregate") { // count_documents: $match, $skip, $limit, $group
            long long n = colls.count(ns) ? (long long) colls[ns].size() : 0;
            bool group = false;
            for (auto& st: list(cmd, "pipeline")) {
                bson_iter_t it; bson_iter_init(&it, st); bson_iter_next(&it);
                std::string k = bson_iter_key(&it);
                if (k == "$match") { B q = doc(st, "$match"); n = 0; if (colls.count(ns)) for (auto& d: colls[ns]) n += match(d, q); }
                else if (k == "$group") group = true;
                else { fprintf(stderr, "HARNESS: pipeline stage %s\n", k.c_str()); _exit(3); }
            }
            std::vector<B> r;
            if (group && n > 0) { B d; BSON_APPEND_INT32(d, "_id", 1); BSON_APPEND_INT32(d, "n", (int) n); r.push_back(d); }
            emit(reply, ns, r, 101, "firstBatch");
            return;
        }
        if (name == "listDatabases") {
            bson_t arr; int i = 0;
            std::set<std::string> dbs;
            for (auto& c: colls) dbs.insert(c.first.substr(0, c.first.find('.')));
            BSON_APPEND_ARRAY_BEGIN(reply, "databases", &arr);
            for (auto& d: dbs) { bson_t x; BSON_APPEND_DOCUMENT_BEGIN(&arr, std::to_string(i++).c_str(), &x); BSON_APPEND_UTF8(&x, "name", d.c_str()); bson_append_document_end(&arr, &x); }
            bson_append_array_end(reply, &arr);
            BSON_APPEND_DOUBLE(reply, "ok", 1);
            return;
        }
        if (name == "listCollections") {
            B filter = doc(cmd, "filter");
            std::vector<B> r;
            for (auto& c: colls) if (c.first.compare(0, db.size() + 1, db + ".") == 0) { B d; BSON_APPEND_UTF8(d, "name", c.first.substr(db.size() + 1).c_str()); BSON_APPEND_UTF8(d, "type", "collection"); if (match(d, filter)) r.push_back(d); }
            emit(reply, db + ".$cmd.listCollections", r, 101, "firstBatch");
            return;
        }
        if (name == "createIndexes") { colls[ns]; BSON_APPEND_DOUBLE(reply, "ok", 1); return; }
        if (name == "listIndexes") { emit(reply, ns, std::vector<B>(), 101, "firstBatch"); return; }
        if (name == "killCursors") { for (auto& x: cursors) (void) x; BSON_APPEND_DOUBLE(reply, "ok", 1); return; }
        if (name == "endSessions" || name == "ping" || name == "buildInfo" || name == "getLastError") { BSON_APPEND_DOUBLE(reply, "ok", 1); return; }
        if (name == "drop") { colls.erase(ns); BSON_APPEND_DOUBLE(reply, "ok", 1); return; }
        fprintf(stderr, "HARNESS: the server does not know the command %s\n", cmd.json().c_str());
        _exit(3);
    }
    static void set(B& d, const char* key, const bson_value_t* v) {
        B n; bool done = false;
        bson_iter_t it; bson_iter_init(&it, d);
        while (bson_iter_next(&it)) { bool h = !strcmp(bson_iter_key(&it), key); bson_append_value(n, bson_iter_key(&it), -1, h ? v : bson_iter_value(&it)); done |= h; }
        if (!done) bson_append_value(n, key, -1, v);
        d = n;
    }
    static void apply(B& d, const B& u) {
        bson_iter_t it; bson_iter_init(&it, u);
        bool ops = false;
        while (bson_iter_next(&it)) {
            if (bson_iter_key(&it)[0] != '$') continue;
            ops = true;
            if (strcmp(bson_iter_key(&it), "$set") && strcmp(bson_iter_key(&it), "$setOnInsert")) { fprintf(stderr, "HARNESS: update operator %s\n", bson_iter_key(&it)); _exit(3); }
            bson_t s; bson_iter_t e;
            if (sub(it, s) && bson_iter_init(&e, &s)) while (bson_iter_next(&e)) set(d, bson_iter_key(&e), bson_iter_value(&e));
        }
        if (!ops) { B n; bson_iter_t g; if (bson_iter_init_find(&g, d, "_id")) bson_append_value(n, "_id", -1, bson_iter_value(&g)); bson_iter_init(&it, u); while (bson_iter_next(&it)) if (strcmp(bson_iter_key(&it), "_id")) bson_append_value(n, bson_iter_key(&it), -1, bson_iter_value(&it)); d = n; }
    }
};
inline Server& server() { static Server* s = new Server; return *s; } // never destroyed: its threads go on until the process ends

// --- what the store holds, read directly ---------------------------------
struct F { B doc; std::string name; bool named = false; B meta; bool has_meta = false; std::string bytes; bool complete = false; };
inline std::vector<F> files(const std::string& db, const std::string& gfs) {
    std::vector<F> r;
    auto fs = server().docs(db + "." + gfs + ".files");
    auto ch = server().docs(db + "." + gfs + ".chunks");
    for (auto& d: fs) {
        F f; f.doc = d;
        bson_iter_t it; bson_t s;
        if (bson_iter_init_find(&it, d, "filename") && BSON_ITER_HOLDS_UTF8(&it)) { f.name = bson_iter_utf8(&it, nullptr); f.named = true; }
        if (bson_iter_init_find(&it, d, "metadata") && sub(it, s)) { f.meta = B(&s); f.has_meta = true; }
        long long len = Server::num(d, "length", -1), cs = Server::num(d, "chunkSize", 0);
        B q; bson_iter_init_find(&it, d, "_id"); bson_append_value(q, "files_id", -1, bson_iter_value(&it));
        std::map<long long, std::string> parts;
        for (auto& c: ch) if (match(c, q)) { const uint8_t* p; uint32_t n; bson_subtype_t st; if (bson_iter_init_find(&it, c, "data") && BSON_ITER_HOLDS_BINARY(&it)) { bson_iter_binary(&it, &st, &n, &p); parts[Server::num(c, "n", -1)] = std::string((const char*) p, n); } }
        long long k = 0; bool ok = len >= 0 && cs > 0;
        for (auto& p: parts) { if (p.first != k++) ok = false; f.bytes += p.second; if ((long long) p.second.size() != cs && k != (long long) parts.size()) ok = false; }
        f.complete = ok && (long long) f.bytes.size() == len;
        r.push_back(f);
    }
    return r;
}
// chunks that belong to no file
inline size_t orphans(const std::string& db, const std::string& gfs) {
    size_t n = 0;
    auto fs = server().docs(db + "." + gfs + ".files");
    for (auto& c: server().docs(db + "." + gfs + ".chunks")) {
        bson_iter_t it;
        bool owned = false;
        if (bson_iter_init_find(&it, c, "files_id")) { B q; bson_append_value(q, "_id", -1, bson_iter_value(&it)); for (auto& f: fs) owned |= match(f, q); }
        n += !owned;
    }
    return n;
}
// a file stored by some other program
inline void plant(const std::string& db, const std::string& gfs, const char* name, const bson_t* meta, const std::string& bytes, int chunk, int idkind, int drop_chunk = -1) {
    static int serial = 0;
    B f; bson_oid_t o; bson_oid_init(&o, nullptr);
    serial++;
    auto id = [&](bson_t* d, const char* k) { if (idkind == 0) BSON_APPEND_OID(d, k, &o); else if (idkind == 1) BSON_APPEND_INT32(d, k, serial); else BSON_APPEND_UTF8(d, k, ("id" + std::to_string(serial)).c_str()); };
    id(f, "_id");
    BSON_APPEND_INT64(f, "length", (int64_t) bytes.size()); BSON_APPEND_INT32(f, "chunkSize", chunk); BSON_APPEND_DATE_TIME(f, "uploadDate", 1600000000000LL);
    if (name) BSON_APPEND_UTF8(f, "filename", name);
    if (meta) BSON_APPEND_DOCUMENT(f, "metadata", meta);
    server().put(db + "." + gfs + ".files", f);
    for (int k = 0; (size_t) k * (size_t) chunk < bytes.size(); k++) {
        if (k == drop_chunk) continue;
        B c; bson_oid_t co; bson_oid_init(&co, nullptr);
        BSON_APPEND_OID(c, "_id", &co); id(c, "files_id"); BSON_APPEND_INT32(c, "n", k);
        std::string part = bytes.substr((size_t) k * (size_t) chunk, (size_t) chunk);
        bson_append_binary(c, "data", -1, BSON_SUBTYPE_BINARY, (const uint8_t*) part.data(), (uint32_t) part.size());
        server().put(db + "." + gfs + ".chunks", c);
    }
}
}
#endif
