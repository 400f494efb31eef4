// C19: typed values read from metadata documents
#include "vf.hpp"
#include "cal.hpp"
#include <climits>
#include <limits>
#include "db_mongoc.h"
using namespace ccgl;
using namespace ccgl::db_mongoc;
using vf::Str;
using std::string;
const char* vf_rule = "Documents of 1 to 12 fields (every value kind, keys that are prefixes or case variants of each other) built with the BSON library itself and read back through each accessor by key and by iterator; numbers drawn around the limits of every numeric type, powers of two, fractions and tiny/huge magnitudes; dates from 1900 to 9999 in 18 local time zones; option maps of number-like and arbitrary texts; each (kind of value, accessor, value) is counted.";
void vf_init() { if (!freopen("/dev/null", "w", stdout)) {} }

enum K { I32, I64, DBL, TXT, BOL, DAT, NUL, OID, DOC, ARR, BIN, NK };
static const char* KN[] = {"int32", "int64", "double", "text", "bool", "date", "null", "id", "document", "array", "binary"};
struct V {
    K k = I32; long long i = 0; double d = 0; string s; bool b = false;
    string str() const { Str o; o << KN[k] << ":"; switch (k) { case I32: case I64: case DAT: o << i; break; case DBL: o << d; break; case TXT: o << vf::q(s); break; case BOL: o << b; break; default:; } return o; }
    uint64_t hash() const { uint64_t h = vf::mix(k, (uint64_t) i); h = vf::hash_bytes(&d, sizeof d, h); return vf::hash_str(s, h) + b; }
};
static long long gen_int(vf::Rng& r) {
    switch (r.below(7)) {
        case 0: return r.range(-3, 3);
        case 1: return r.range(-70000, 70000);
        case 2: { int sh = (int) r.below(63); long long p = 1LL << sh; return (r.chance(.5) ? p : -p) + r.range(-2, 2); }
        case 3: return r.pickv<long long>({INT32_MIN, INT32_MAX, UINT32_MAX, INT64_MIN, INT64_MAX, INT16_MIN, INT16_MAX, 65535, 255, -128, 127, 1LL << 53, (1LL << 53) + 1, -(1LL << 53) - 1, 16777217, -16777217, 0, INT64_MAX - 1, INT32_MIN - 1LL, INT32_MAX + 1LL});
        case 4: return (long long) r.next();
        case 5: return (int32_t) r.next();
        default: return r.range(-2000000000000LL, 4000000000000LL);
    }
}
static double gen_dbl(vf::Rng& r) {
    switch (r.below(8)) {
        case 0: return (double) gen_int(r);
        case 1: return r.real(-1, 1);
        case 2: return r.range(-99999, 99999) / 100.;
        case 3: return std::ldexp(r.real(1, 2), (int) r.range(-90, 90)) * (r.chance(.5) ? 1 : -1);
        case 4: return r.pickv<double>({0., -0., .5, -.5, -9999., -9999.5, 1e300, -1e300, 1e-25, .1, 1. / 3, 123456.789, 3.4028234663852886e38, -3.4028234663852886e38, 1.7976931348623157e308, 2147483647.5, 4294967295.5, -2147483648.5, 9.2233720368547758e18, 1.8446744073709552e19, 1e20});
        case 5: { double v; uint64_t u; do { u = r.next(); memcpy(&v, &u, 8); } while (!std::isfinite(v) || (v != 0 && std::fabs(v) < 1e-30)); return v; }
        case 6: return (float) r.real(-1e6, 1e6);
        default: return r.range(-1000000, 1000000) + r.pickv<double>({.25, .125, 0, .1, .999999});
    }
}
static string num_text(vf::Rng& r) {
    char b[400];
    switch (r.below(8)) {
        case 0: return std::to_string(gen_int(r));
        case 1: snprintf(b, sizeof b, "%.17g", gen_dbl(r)); return b;
        case 2: snprintf(b, sizeof b, "%.*f", (int) r.below(8), r.real(-1e7, 1e7)); return b;
        case 3: snprintf(b, sizeof b, "%.*e", (int) r.below(12), gen_dbl(r)); return b;
        case 4: snprintf(b, sizeof b, "%s%0*d", r.pick({"", "-", "+"}), (int) r.range(1, 9), (int) r.below(100000)); return b;
        case 5: snprintf(b, sizeof b, ".%d", (int) r.below(100000)); return b;
        case 6: snprintf(b, sizeof b, "%d.", (int) r.range(-1000, 1000)); return b;
        default: snprintf(b, sizeof b, "%g", gen_dbl(r)); return b;
    }
}
static string word(vf::Rng& r) { // never a number, no digits, no leading inf/nan/blank
    static const char* const fixed[] = {"TRUE", "true", "True", "tRuE", "FALSE", "false", "UTM", "GCS_WGS_84", "Unknown", "-", "+", ".", "e", "e+", "-.", "TRUE ", "TRUEX", "TRU", "T", "yes", "NORTH", "\xc3\xa9t\xc3\xa9", "\xe6\xb5\x81\xe5\x9f\x9f", "a=b;c", "Don't", "$set", "a.b"};
    if (r.chance(.7)) return fixed[r.below(sizeof fixed / sizeof *fixed)];
    string s;
    int n = (int) r.range(1, 30);
    for (int i = 0; i < n; i++) s += "abcdeghjkmopqrstuvwxyzABCDEGHJKLMOPQRSTUVWXYZ _-./,"[r.below(51)];
    if (s[0] == ' ') s[0] = 'x';
    return s;
}
static string date_text(vf::Rng& r, long long& t, bool& full) {
    t = cal::clampy(cal::instant(r, 1900, 9999, r.pick(cal::zones())), 1900, 9999);
    full = r.chance(.6);
    cal::F f = cal::fields(t);
    if (!full) t -= f.h * 3600 + f.mi * 60 + f.s;
    char b[64];
    if (r.chance(.3)) { // without leading zeros
        if (full) snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d", f.y, f.mo, f.d, f.h, f.mi, f.s);
        else snprintf(b, sizeof b, "%d-%d-%d", f.y, f.mo, f.d);
    }
    else if (full) snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", f.y, f.mo, f.d, f.h, f.mi, f.s);
    else snprintf(b, sizeof b, "%04d-%02d-%02d", f.y, f.mo, f.d);
    return b;
}
static V gen_v(vf::Rng& r) {
    V v;
    v.k = r.chance(.8) ? (K) r.below(DAT + 1) : (K) r.below(NK);
    switch (v.k) {
        case I32: v.i = (int32_t) gen_int(r); break;
        case I64: v.i = gen_int(r); break;
        case DBL: v.d = r.chance(.03) ? r.pickv<double>({INFINITY, -INFINITY, NAN}) : gen_dbl(r); break;
        case TXT: { long long t; bool f; switch (r.below(5)) { case 0: case 1: v.s = num_text(r); break; case 2: v.s = word(r); break; case 3: v.s = date_text(r, t, f); break; default: v.s = r.chance(.3) ? "" : r.chance(.1) ? string("ab\0cd", 5) : word(r); } break; }
        case BOL: v.b = r.chance(.5); break;
        case DAT: v.i = cal::instant(r, 1900, 9999, r.pick(cal::zones())) * 1000 + (r.chance(.3) ? 0 : r.range(0, 999)); if (r.chance(.15)) v.i = r.pickv<long long>({0, -1, 1, -999, -1000, -1001, 999, 1000, 2147483647999LL, 2147483648000LL, -2147483648000LL, -2147483649001LL, 4294967296000LL}); break;
        default: break;
    }
    return v;
}
static void put(bson_t* d, const string& key, const V& v) {
    const char* k = key.c_str();
    switch (v.k) {
        case I32: BSON_APPEND_INT32(d, k, (int32_t) v.i); break;
        case I64: BSON_APPEND_INT64(d, k, v.i); break;
        case DBL: BSON_APPEND_DOUBLE(d, k, v.d); break;
        case TXT: bson_append_utf8(d, k, -1, v.s.data(), (int) v.s.size()); break;
        case BOL: BSON_APPEND_BOOL(d, k, v.b); break;
        case DAT: BSON_APPEND_DATE_TIME(d, k, v.i); break;
        case NUL: BSON_APPEND_NULL(d, k); break;
        case OID: { bson_oid_t o; bson_oid_init_from_string(&o, "507f1f77bcf86cd799439011"); BSON_APPEND_OID(d, k, &o); break; }
        case DOC: { bson_t b; BSON_APPEND_DOCUMENT_BEGIN(d, k, &b); BSON_APPEND_INT32(&b, k, 77); bson_append_document_end(d, &b); break; }
        case ARR: { bson_t b; BSON_APPEND_ARRAY_BEGIN(d, k, &b); BSON_APPEND_INT32(&b, "0", 77); bson_append_array_end(d, &b); break; }
        case BIN: BSON_APPEND_BINARY(d, k, BSON_SUBTYPE_BINARY, (const uint8_t*) "12345", 5); break;
        default: break;
    }
}
template <class T> struct NameOf;
#define NAMEOF(T) template <> struct NameOf<T> { static const char* name() { return #T; } };
NAMEOF(int8_t) NAMEOF(uint8_t) NAMEOF(int16_t) NAMEOF(uint16_t) NAMEOF(int32_t) NAMEOF(uint32_t) NAMEOF(int64_t) NAMEOF(uint64_t) NAMEOF(float) NAMEOF(double)

// can T hold the real number x exactly up to the type's own rounding?
template <class T> static bool holds(long double x) {
    if (!std::numeric_limits<T>::is_integer) return std::fabs(x) <= (long double) std::numeric_limits<T>::max();
    return x == std::floor(x) && x >= (long double) std::numeric_limits<T>::min() && x <= (long double) std::numeric_limits<T>::max();
}
template <class T> static bool near_(T got, long double x) { // got is x, or x correctly or faithfully rounded
    if (std::numeric_limits<T>::is_integer) return (long double) got == x;
    T t = (T) x;
    return got == t || got == std::nextafter(t, (T) INFINITY) || got == std::nextafter(t, (T) -INFINITY);
}
template <class T> static void numeric(bson_t* d, const string& key, const V* v, vf::Rng& r) {
    const T before = (T) r.pickv<int>({0, 1, 77, 100});
    T a = before, b = before;
    bool ra = GetNumericFromBson(d, key.c_str(), a), rb = ra;
    if (v) {
        bson_iter_t it;
        VF_CHECK(bson_iter_init_find(&it, d, key.c_str()), "harness", "key lost");
        rb = GetNumericFromBsonIterator(&it, b);
        VF_CHECK(ra == rb && !memcmp(&a, &b, sizeof a), "numeric-iterator", Str() << NameOf<T>::name() << " by key " << +a << " by iterator " << +b);
        vf::distinct(vf::mix(v->hash(), sizeof(T) * 4 + std::numeric_limits<T>::is_signed * 2 + std::numeric_limits<T>::is_integer));
    }
    Str w; w << NameOf<T>::name() << " of " << (v ? v->str() : string("missing key")) << " gives " << ra << " " << +a << " (before " << +before << ")";
    vf::tally(ra ? "numbers returned" : "numbers refused");
    long double x;
    bool isnum = false;
    if (v && (v->k == I32 || v->k == I64)) { x = v->i; isnum = true; }
    else if (v && v->k == DBL) { x = v->d; isnum = true; }
    else if (v && v->k == TXT) { char* e; double y = strtod(v->s.c_str(), &e); isnum = !v->s.empty() && !*e && v->s.find_first_of("0123456789") != string::npos; x = y; if (!isnum && e != v->s.c_str()) return; /* text that begins with a number: not specified */ }
    if (!isnum) {
        if (v && (v->k == BOL || v->k == DAT)) { VF_CHECK(ra || a == before, "numeric-unconvertible", w); return; }
        VF_CHECK(!ra && a == before, v ? "numeric-unconvertible" : "numeric-missing", w);
        return;
    }
    if (!std::isfinite(x)) return;
    if (v->k == TXT && x != 0 && std::fabs(x) < 1e-300L) return;
    if (holds<T>(x)) VF_CHECK(ra && near_(a, x), "numeric-value", w);
    else if (std::numeric_limits<T>::is_integer && x != std::floor(x)) { // a fraction asked for as an integer: refused, or one of its neighbours
        VF_CHECK(ra ? ((long double) a == std::floor(x) || (long double) a == std::ceil(x)) : a == before, "numeric-fraction", w);
    }
    else if (std::numeric_limits<T>::is_integer) VF_CHECK(!ra && a == before, "numeric-out-of-range", w);
}
static void text(bson_t* d, const string& key, const V* v) {
    string g = GetStringFromBson(d, key.c_str());
    Str w; w << "text of " << (v ? v->str() : string("missing key")) << " gives " << vf::q(g);
    if (!v) { VF_CHECK(g.empty(), "text-missing", w); return; }
    bson_iter_t it;
    VF_CHECK(bson_iter_init_find(&it, d, key.c_str()), "harness", "key lost");
    VF_CHECK(GetStringFromBsonIterator(&it) == g, "text-iterator", w);
    vf::tally("texts read");
    char* e = nullptr;
    if (v->k == TXT) VF_CHECK(g == v->s, "text-value", w);
    else if (v->k == I32 || v->k == I64) { errno = 0; long long n = strtoll(g.c_str(), &e, 10); VF_CHECK(!g.empty() && !*e && !errno && n == v->i, "text-of-number", w); }
    else if (v->k == DBL) {
        double n = strtod(g.c_str(), &e);
        VF_CHECK(!g.empty() && !*e && (n == v->d || (std::isnan(n) && std::isnan(v->d))), "text-of-number", w);
    }
    else if (v->k == NUL || v->k == DOC || v->k == ARR) VF_CHECK(g.empty(), "text-unconvertible", w);
}
static void truth(bson_t* d, const string& key, const V* v) {
    bool g = GetBoolFromBson(d, key.c_str());
    Str w; w << "truth of " << (v ? v->str() : string("missing key")) << " gives " << g;
    if (!v) { VF_CHECK(!g, "bool-missing", w); return; }
    bson_iter_t it;
    VF_CHECK(bson_iter_init_find(&it, d, key.c_str()), "harness", "key lost");
    VF_CHECK(GetBoolFromBsonIterator(&it) == g, "bool-iterator", w);
    vf::tally("truth values read");
    switch (v->k) {
        case BOL: VF_CHECK(g == v->b, "bool-value", w); break;
        case I32: case I64: VF_CHECK(g == (v->i != 0), "bool-of-number", w); break;
        case DBL: if (!std::isnan(v->d)) VF_CHECK(g == (v->d != 0), "bool-of-number", w); break;
        case TXT: {
            string u = v->s;
            for (auto& c: u) c = (char) toupper((unsigned char) c);
            VF_CHECK(g == (u == "TRUE"), "bool-of-text", w);
            break;
        }
        case DAT: break;
        default: VF_CHECK(!g, "bool-unconvertible", w);
    }
}
static void date(bson_t* d, const string& key, const V* v) {
    long long g = GetDatetimeFromBson(d, key.c_str());
    Str w; w << "date of " << (v ? v->str() : string("missing key")) << " gives " << g << " TZ=" << getenv("TZ");
    if (!v) { VF_CHECK(g == -1, "date-missing", w); return; }
    bson_iter_t it;
    VF_CHECK(bson_iter_init_find(&it, d, key.c_str()), "harness", "key lost");
    VF_CHECK(GetDatetimeFromBsonIterator(&it) == g, "date-iterator", w);
    if (v->k == DAT) {
        long long fl = v->i / 1000 - (v->i % 1000 < 0);
        VF_CHECK(g == fl, "date-value", Str() << (string) w << " expected " << fl);
        vf::tally("instants read");
    }
    else if (v->k != TXT && v->k != I32 && v->k != I64 && v->k != DBL) VF_CHECK(g == -1, "date-unconvertible", w);
}
static void all(bson_t* d, const string& key, const V* v, vf::Rng& r) {
    numeric<int8_t>(d, key, v, r); numeric<uint8_t>(d, key, v, r); numeric<int16_t>(d, key, v, r); numeric<uint16_t>(d, key, v, r); numeric<int32_t>(d, key, v, r);
    numeric<uint32_t>(d, key, v, r); numeric<int64_t>(d, key, v, r); numeric<uint64_t>(d, key, v, r); numeric<float>(d, key, v, r); numeric<double>(d, key, v, r);
    text(d, key, v); truth(d, key, v); date(d, key, v);
}
static string gen_key(vf::Rng& r, int i) {
    static const char* const ks[] = {"NROWS", "NROW", "nrows", "NCOLS", "SRS", "SRS2", "A", "AB", "ABC", "abc", "metadata.X", "X", "DATATYPE", "INCLUDE_NODATA", "k"};
    return r.chance(.5) ? ks[r.below(sizeof ks / sizeof *ks)] : (string) (Str() << "f" << i);
}
struct Doc {
    bson_t* d;
    std::vector<std::pair<string, V> > f;
    Doc(): d(bson_new()) {}
    ~Doc() { bson_destroy(d); }
    bool has(const string& k) const { for (auto& x: f) if (x.first == k) return true; return false; }
    void add(const string& k, const V& v) { if (has(k)) return; f.push_back({k, v}); put(d, k, v); }
    string str() const { Str o; for (auto& x: f) o << x.first << "=" << x.second.str() << " "; return o; }
};
VF_KIND_LEAK(documents, 10) {
    auto& r = c.r;
    cal::use(r.pick(cal::zones()));
    Doc d;
    int n = (int) r.range(1, 12);
    for (int i = 0; i < n; i++) d.add(gen_key(r, i), gen_v(r));
    vf::desc("document|" + d.str());
    string before((const char*) bson_get_data(d.d), d.d->len);
    for (auto& x: d.f) all(d.d, x.first, &x.second, r);
    for (const char* k: {"NROWS", "NROW", "AB", "X", "missing", "", "f"}) if (!d.has(k)) all(d.d, k, nullptr, r);
    VF_CHECK(before == string((const char*) bson_get_data(d.d), d.d->len), "document-changed", "reading changed the document");
}
// dates as text against the same instant stored as a date
VF_KIND(dates, 4) {
    auto& r = c.r;
    cal::use(r.pick(cal::zones()));
    for (int i = 0; i < 10; i++) {
        long long t; bool full;
        string s = date_text(r, t, full);
        Doc d;
        V a; a.k = TXT; a.s = s;
        V b; b.k = DAT; b.i = t * 1000;
        d.add("T", a); d.add("D", b);
        vf::desc("date|" + d.str());
        vf::distinct(vf::mix((uint64_t) t, full));
        long long gt = GetDatetimeFromBson(d.d, "T"), gd = GetDatetimeFromBson(d.d, "D");
        VF_CHECK(gt == t && gd == t, "date-text", Str() << "date " << vf::q(s) << " read as " << gt << ", as an instant " << gd << ", expected " << t << " TZ=" << getenv("TZ"));
        vf::tally("dates as text");
    }
}
// options written from text
static bool plain_number(const string& s, double& x) { // decimal number, as strtod reads all of it
    if (s.empty() || s.find_first_not_of("0123456789+-.eE") != string::npos || s.find_first_of("0123456789") == string::npos) return false;
    char* e; x = strtod(s.c_str(), &e);
    return !*e;
}
VF_KIND_LEAK(options, 8) {
    auto& r = c.r;
    Doc d;
    string prefix = r.pick({"", "", "metadata.", "m_"});
    if (r.chance(.5)) { V v; v.k = TXT; v.s = "file.tif"; d.add("filename", v); }
    std::map<string, string> m;
    int n = (int) r.range(0, 8);
    for (int i = 0; i < n; i++) {
        string t;
        switch (r.below(6)) { case 0: case 1: case 2: t = num_text(r); break; case 3: t = word(r); break; case 4: { long long x; bool f; t = date_text(r, x, f); break; }
            default: t = r.pick({"", "0", "-0", "1", "TRUE", "FALSE", "12a", "1 2", "1.2.3", "--1", "1e", "0x1G", "-", "4294967296", "2147483648", "-2147483649", "2147483647", "-2147483648", "99999999999999999999", "0.5", "1e3", "1e-3", "-9999", "00012", "1,5", "5 ", " 5"}); }
        m[gen_key(r, i)] = t;
    }
    STRING_MAP opts;
    for (auto& x: m) opts[x.first] = x.second;
    Str what; for (auto& x: m) what << vf::q(x.first) << "=" << vf::q(x.second) << " ";
    vf::desc("options|prefix " + prefix + " " + (string) what);
    if (prefix.empty()) AppendStringOptionsToBson(d.d, opts); else AppendStringOptionsToBson(d.d, opts, prefix);
    vf::distinct(vf::hash_str(what, vf::hash_str(prefix)));
    size_t seen = 0;
    VF_CHECK(bson_validate(d.d, BSON_VALIDATE_NONE, nullptr), "options-invalid", "the document is not valid");
    bson_iter_t it;
    bson_iter_init(&it, d.d);
    while (bson_iter_next(&it)) {
        string k = bson_iter_key(&it);
        if (d.has(k) && seen == 0 && !(prefix.empty() && m.count(k))) { VF_CHECK(k == "filename" && BSON_ITER_HOLDS_UTF8(&it) && string(bson_iter_utf8(&it, nullptr)) == "file.tif", "options-existing", "an existing field changed"); continue; }
        VF_CHECK(k.compare(0, prefix.size(), prefix) == 0 && m.count(k.substr(prefix.size())), "options-key", Str() << "unexpected field " << k << " prefix " << prefix << " for " << (string) what);
        const string& t = m[k.substr(prefix.size())];
        seen++;
        Str w; w << "option text " << vf::q(t) << " stored as type " << (int) bson_iter_type(&it);
        double x;
        if (BSON_ITER_HOLDS_UTF8(&it)) { VF_CHECK(string(bson_iter_utf8(&it, nullptr)) == t, "options-text", w << " " << bson_iter_utf8(&it, nullptr)); }
        else {
            double got = BSON_ITER_HOLDS_INT32(&it) ? bson_iter_int32(&it) : BSON_ITER_HOLDS_INT64(&it) ? (double) bson_iter_int64(&it) : BSON_ITER_HOLDS_DOUBLE(&it) ? bson_iter_double(&it) : NAN;
            char* e; x = strtod(t.c_str(), &e);
            VF_CHECK(e != t.c_str() && !*e && x == got, "options-number", w << " value " << got);
        }
        if (plain_number(t, x) && std::isfinite(x)) { // read back: the number it says
            double back = -12345.678;
            VF_CHECK(GetNumericFromBsonIterator(&it, back) && back == x, "options-number-back", w << " read back as " << back);
            string s = GetStringFromBsonIterator(&it);
            char* e; double y = strtod(s.c_str(), &e);
            VF_CHECK(!s.empty() && !*e && y == x, "options-text-back", w << " read back as text " << vf::q(s));
            vf::tally("numeric options");
        }
        else { VF_CHECK(!std::isfinite(x = 0) || !BSON_ITER_HOLDS_UTF8(&it) || GetStringFromBsonIterator(&it) == t, "options-text-back", w); vf::tally("text options"); }
    }
    VF_CHECK(seen == m.size(), "options-count", Str() << "stored " << seen << " fields of " << m.size() << ": " << (string) what);
    for (auto& x: m) VF_CHECK(opts.count(x.first) && opts[x.first] == x.second, "options-map-changed", "the option map changed");
}
