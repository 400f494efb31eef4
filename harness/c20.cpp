// C20: text is accepted as a number exactly when it is one
#include "vf.hpp"
#include "utils_string.h"
#include <cfloat>
#include <climits>
#include <locale.h>
using namespace ccgl;
using namespace utils_string;
using vf::Str;
using vf::q;
const char* vf_rule = "Random and boundary texts (integer literals around the type limits, decorated and damaged literals, random doubles printed with 17 digits, hostile bytes) given to every parser in narrow and wide form; distinct texts are counted, a text is non-trivial when it contains a digit or a number word.";
void vf_init() { setlocale(LC_ALL, "C.UTF-8"); setlocale(LC_NUMERIC, "C"); }

static std::wstring widen(const std::string& s) { return std::wstring(s.begin(), s.end()); }
// canonical decimal integer literal? value as 128-bit
static bool canon(const std::string& s, __int128& v) {
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && s[i] == '-') { neg = true; i++; }
    if (i >= s.size() || s.size() - i > 30) return false;
    if (s[i] == '0') { if (s.size() != 1) return false; v = 0; return true; }
    v = 0;
    for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    return true;
}
// decimal (or C library) floating-point literal covering the whole text, by own grammar
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool xdig(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool is_blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string low(std::string s) { for (auto& c: s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool is_number(const std::string& t) {
    size_t i = 0;
    while (i < t.size() && is_blank(t[i])) i++;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
    std::string s = low(t.substr(i));
    if (s.empty()) return false;
    if (s == "inf" || s == "infinity" || s == "nan") return true;
    if (s.compare(0, 4, "nan(") == 0) {
        if (s.back() != ')') return false;
        for (size_t k = 4; k + 1 < s.size(); k++) { char c = s[k]; if (!(dig(c) || (c >= 'a' && c <= 'z') || c == '_')) return false; }
        return true;
    }
    size_t k = 0, nd = 0;
    if (s.size() > 2 && s[0] == '0' && s[1] == 'x') {
        k = 2;
        while (k < s.size() && xdig(s[k])) { k++; nd++; }
        if (k < s.size() && s[k] == '.') { k++; while (k < s.size() && xdig(s[k])) { k++; nd++; } }
        if (!nd) return false;
        if (k < s.size() && s[k] == 'p') {
            k++;
            if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
            if (k >= s.size()) return false;
            while (k < s.size() && dig(s[k])) k++;
        }
        return k == s.size();
    }
    while (k < s.size() && dig(s[k])) { k++; nd++; }
    if (k < s.size() && s[k] == '.') { k++; while (k < s.size() && dig(s[k])) { k++; nd++; } }
    if (!nd) return false;
    if (k < s.size() && s[k] == 'e') {
        k++;
        if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
        if (k >= s.size()) return false;
        while (k < s.size() && dig(s[k])) k++;
    }
    return k == s.size();
}
template <class F, class G>
static void one_int(const char* name, const std::string& t, F narrow, G wide, __int128 lo, __int128 hi) {
    __int128 v = 0;
    bool want = canon(t, v) && v >= lo && v <= hi;
    // vint/vuint are 64-bit here: a literal between the 32- and 64-bit range may be accepted, but only with its value
    if (!want && canon(t, v) && v >= (lo < 0 ? (__int128) INT64_MIN : 0) && v <= (lo < 0 ? (__int128) INT64_MAX : (__int128) UINT64_MAX)) {
        bool ok = false;
        auto x = narrow(t, ok);
        VF_CHECK(!ok || (__int128) x == v, std::string("value:") + name, Str() << name << "(" << q(t) << ") gave " << (long long) x);
        auto y = wide(widen(t), ok);
        VF_CHECK(!ok || (__int128) y == v, std::string("value-wide:") + name, Str() << name << "(L" << q(t) << ") gave " << (long long) y);
        return;
    }
    bool ok = !want;
    auto x = narrow(t, ok);
    VF_CHECK(ok == want, std::string("accept:") + name, Str() << name << "(" << q(t) << ") " << (ok ? "accepted" : "rejected"));
    if (want) VF_CHECK((__int128) x == v, std::string("value:") + name, Str() << name << "(" << q(t) << ") gave " << (long long) x);
    bool okw = !want;
    auto y = wide(widen(t), okw);
    VF_CHECK(okw == want, std::string("accept-wide:") + name, Str() << name << "(L" << q(t) << ") " << (okw ? "accepted" : "rejected"));
    if (want) VF_CHECK((__int128) y == v, std::string("value-wide:") + name, Str() << name << "(L" << q(t) << ") gave " << (long long) y);
    vf::tally(want ? "int_accept" : "int_reject");
}
static void check_text(const std::string& t) {
    vf::desc(Str() << "text " << q(t));
    for (char c: t) if ((unsigned char) c >= 128) return; // wide form below is built for ASCII only
    vf::distinct(vf::hash_str(t));
    one_int("IsInt", t, [](const string& s, bool& b) { return IsInt(s, b); }, [](const wstring& s, bool& b) { return IsInt(s, b); }, INT_MIN, INT_MAX);
    one_int("IsInt64", t, [](const string& s, bool& b) { return IsInt64(s, b); }, [](const wstring& s, bool& b) { return IsInt64(s, b); }, INT64_MIN, INT64_MAX);
    one_int("IsUInt", t, [](const string& s, bool& b) { return IsUInt(s, b); }, [](const wstring& s, bool& b) { return IsUInt(s, b); }, 0, UINT_MAX);
    one_int("IsUInt64", t, [](const string& s, bool& b) { return IsUInt64(s, b); }, [](const wstring& s, bool& b) { return IsUInt64(s, b); }, 0, UINT64_MAX);
    bool want = is_number(t), ok = !want, okw = !want;
    double d = IsDouble(t, ok), dw = IsDouble(widen(t), okw);
    VF_CHECK(ok == want, "accept:IsDouble", Str() << "IsDouble(" << q(t) << ") " << (ok ? "accepted" : "rejected"));
    VF_CHECK(okw == want, "accept-wide:IsDouble", Str() << "IsDouble(L" << q(t) << ") " << (okw ? "accepted" : "rejected"));
    VF_CHECK(IsNumber(t) == want && IsNumber(widen(t)) == want, "accept:IsNumber", Str() << "IsNumber(" << q(t) << ")");
    if (want) {
        double r = strtod(t.c_str(), nullptr);
        VF_CHECK((std::isnan(r) && std::isnan(d) && std::isnan(dw)) || (r == d && r == dw), "value:IsDouble", Str() << "IsDouble(" << q(t) << ") gave " << d << " / " << dw);
        VF_CHECK((std::isnan(r) && std::isnan(ToDouble(t))) || ToDouble(t) == r, "value:ToDouble", q(t));
    }
    __int128 v;
    if (canon(t, v)) {
        if (v >= INT_MIN && v <= INT_MAX) VF_CHECK(ToInt(t) == (int) v && ToInt(widen(t)) == (int) v, "value:ToInt", q(t));
        if (v >= INT64_MIN && v <= INT64_MAX) VF_CHECK(ToInt64(t) == (int64_t) v && ToInt64(widen(t)) == (int64_t) v, "value:ToInt64", q(t));
        if (v >= 0 && v <= UINT_MAX) VF_CHECK(ToUInt(t) == (unsigned) v && ToUInt(widen(t)) == (unsigned) v, "value:ToUInt", q(t));
        if (v >= 0 && v <= UINT64_MAX) VF_CHECK(ToUInt64(t) == (uint64_t) v && ToUInt64(widen(t)) == (uint64_t) v, "value:ToUInt64", q(t));
    }
    vf::tally(want ? "number_accept" : "number_reject");
}
static std::string i128(__int128 v) {
    if (v == 0) return "0";
    bool n = v < 0;
    std::string s;
    while (v != 0) { int d = (int) (v % 10); s.insert(s.begin(), (char) ('0' + (d < 0 ? -d : d))); v /= 10; }
    return n ? "-" + s : s;
}
static double rnd_double(vf::Rng& r) {
    uint64_t b = r.next();
    double d;
    switch (r.below(5)) {
        case 0: memcpy(&d, &b, 8); return d;
        case 1: return (double) r.range(-1000000, 1000000) / 64.0;
        case 2: return r.real(-1, 1);
        case 3: return std::ldexp(r.real(-1, 1), (int) r.range(-40, 60));
        default: return r.pickv<double>({0.0, -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, 1e15, 1e16, 0.1, 1e-6, 5e-7, 4.9e-7, 123456789.0, 9007199254740993.0});
    }
}
static std::string num_text(vf::Rng& r) {
    std::string t;
    switch (r.below(6)) {
        case 0: { // around limits
            __int128 lim = r.pickv<__int128>({(__int128) INT_MIN, (__int128) INT_MAX, (__int128) UINT_MAX, (__int128) INT64_MIN, (__int128) INT64_MAX, (__int128) UINT64_MAX, (__int128) 0, (__int128) SHRT_MAX, (__int128) 1 << 33});
            t = i128(lim + r.range(-3, 3));
            break;
        }
        case 1: {
            __int128 v = (__int128) (int64_t) r.next() >> r.below(64);
            t = i128(v);
            break;
        }
        case 2: { int n = (int) r.range(1, 25); for (int i = 0; i < n; i++) t += (char) ('0' + r.below(10)); if (r.chance(.4)) t = "-" + t; break; }
        case 3: { char b[64]; static const char* F[] = {"%.17g", "%.17e", "%.6f", "%g", "%a", "%.0f", "%#g"}; snprintf(b, sizeof b, F[r.below(7)], rnd_double(r)); t = b; break; }
        case 4: t = r.pick({"inf", "-inf", "nan", "Infinity", "NAN", "nan(12)", "1e", "1e+", ".", "-.", "+", "-", "", " ", "0x", "0x1p", "0x1p3", "0x.8", "1.", ".5", "-.5e-3", "1e400", "-1e-400", "1d5", "1,5", "1e5.5", "--1", "+-1", "infinit", "tRUE", "1 2", "0.0", "00", "-0", "+0", "00.5"}); break;
        default: { int n = (int) r.range(0, 12); static const char A[] = "0123456789+-.eExX abf\t\n,"; for (int i = 0; i < n; i++) t += A[r.below(sizeof A - 1)]; }
    }
    return t;
}
VF_KIND(text, 6) {
    for (int k = 0; k < 50; k++) {
        std::string t = num_text(c.r);
        switch (c.r.below(14)) {
            case 0: t = " " + t; break;
            case 1: t += " "; break;
            case 2: t = "+" + t; break;
            case 3: t = "0" + t; break;
            case 4: if (!t.empty()) t[c.r.below(t.size())] = (char) c.r.range(1, 127); break;
            case 5: t += std::string(1, '\0'); break;
            case 6: t = std::string(1, '\0') + t; break;
            case 7: t += c.r.pick({".", "f", "L", "e1", "\n", "%", "0", ".0"}); break;
            default: break;
        }
        check_text(t);
        if (k == 0) vf::sample(q(t));
    }
}
// formatting and reading back
VF_KIND(roundtrip, 4) {
    for (int k = 0; k < 50; k++) {
        uint64_t b = c.r.next() >> c.r.below(64);
        if (c.r.chance(.5)) b = 0 - b;
        if (c.r.chance(.1)) b = (uint64_t) c.r.pickv<uint64_t>({0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL});
        vf::desc(Str() << "integer bits " << b);
        int i = (int) b;
        unsigned u = (unsigned) b;
        long long l = (long long) b;
        VF_CHECK(itoa(i) == std::to_string(i) && itow(i) == std::to_wstring(i), "format:itoa", Str() << i << " -> " << itoa(i));
        VF_CHECK(utoa(u) == std::to_string(u) && utow(u) == std::to_wstring(u), "format:utoa", Str() << u << " -> " << utoa(u));
        VF_CHECK(i64toa(l) == std::to_string(l) && i64tow(l) == std::to_wstring(l), "format:i64toa", Str() << l << " -> " << i64toa(l));
        VF_CHECK(u64toa(b) == std::to_string(b) && u64tow(b) == std::to_wstring(b), "format:u64toa", Str() << b << " -> " << u64toa(b));
        VF_CHECK(ToInt(itoa(i)) == i && ToInt(itow(i)) == i && ToUInt(utoa(u)) == u && ToUInt(utow(u)) == u && ToInt64(i64toa(l)) == l && ToInt64(i64tow(l)) == l &&
                  ToUInt64(u64toa(b)) == b && ToUInt64(u64tow(b)) == b, "roundtrip:integer", Str() << b);
        VF_CHECK(ValueToString(i) == std::to_string(i) && ValueToString(b) == std::to_string(b), "format:ValueToString", Str() << b);
        VF_CHECK(ValueToString(std::to_string(b)) == std::to_string(b), "format:ValueToString", Str() << b);
        double d = rnd_double(c.r);
        vf::desc(Str() << "double " << d);
        std::string s = ftoa(d);
        std::wstring w = ftow(d);
        VF_CHECK(widen(s) == w, "format:ftow", Str() << d << " -> " << q(s));
        bool ok = false;
        double back = IsDouble(s, ok);
        if (d == d && std::fabs(d) <= DBL_MAX) {
            VF_CHECK(ok && is_number(s), "format:ftoa", Str() << d << " -> " << q(s));
            double tol = 0.5e-6 * (1 + 1e-9) + std::fabs(d) * 2e-16;
            VF_CHECK(std::fabs(back - d) <= tol || back == d, "roundtrip:ftoa", Str() << d << " -> " << q(s) << " -> " << back);
            // ValueToString writes six significant digits
            std::string v = ValueToString(d);
            double vb = strtod(v.c_str(), nullptr);
            VF_CHECK(IsNumber(v) && (std::fabs(vb - d) <= std::fabs(d) * 5.1e-6 || std::isinf(vb)), "format:ValueToString", Str() << d << " -> " << q(v));
            // a literal with 17 digits identifies the double
            char bf[64];
            snprintf(bf, sizeof bf, "%.17g", d);
            bool k1 = false, k2 = false;
            VF_CHECK(IsDouble(string(bf), k1) == d && k1 && IsDouble(widen(bf), k2) == d && k2, "value:IsDouble", Str() << bf << " read as " << ToDouble(string(bf)));
        } else {
            VF_CHECK(!s.empty() && ok, "format:ftoa", Str() << d << " -> " << q(s));
        }
        vf::distinct(vf::hash_bytes(&d, 8, b));
        if (k == 0) vf::sample(Str() << "ftoa(" << d << ")=" << s);
        vf::tally("format_roundtrips");
    }
}
// hostile bytes: only termination and memory safety
VF_KIND(hostile, 1) {
    for (int k = 0; k < 20; k++) {
        std::string t;
        int n = (int) c.r.range(0, 300);
        for (int i = 0; i < n; i++) t += (char) c.r.below(256);
        if (c.r.chance(.3)) t = std::string((size_t) c.r.range(1, 2000), '9') + t;
        vf::desc(Str() << "hostile " << q(t));
        bool b;
        IsInt(t, b); IsInt64(t, b); IsUInt(t, b); IsUInt64(t, b); IsDouble(t, b); IsNumber(t);
        std::wstring w;
        for (int i = 0; i < n; i++) w += (wchar_t) c.r.range(1, 0x10ffff);
        IsInt(w, b); IsInt64(w, b); IsUInt(w, b); IsUInt64(w, b); IsDouble(w, b); IsNumber(w);
        vf::tally("hostile_texts");
    }
}
static const char* FIXED[] = {"", " ", "0", "-0", "+0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0123", "1.0", "1e3", "0x10", "1 ", " 1", "\t1", "1\n", "nan", "inf", ".", "e5", "1e", "-", "+1.5e+3", "5."};
VF_KIND(fixed, -1) { for (auto t: FIXED) check_text(t); }
