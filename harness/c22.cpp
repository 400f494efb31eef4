// C22: universal-time calendar conversions
#include "cal.hpp"
#include "utils_time.h"
using namespace ccgl::utils_time;
using vf::Str;
using std::string;
const char* vf_rule = "Instants from 1900 to 9999 (uniform, around leap days, month ends, century years, midnights) in a process running in one of 18 local time zones that universal time must ignore; instants compared with an independent days-from-civil model; malformed texts from mutation; every instant and malformed text is counted.";
void vf_init() { if (!freopen("/dev/null", "w", stdout)) {} }
static string fmt(const char* f, const cal::F& x) { char b[64]; snprintf(b, sizeof b, f, x.y, x.mo, x.d, x.h, x.mi, x.s); return b; }
static void one(long long t, vf::Rng& r) {
    cal::F f = cal::fields(t);
    string ymd = fmt("%04d-%02d-%02d", f), full = fmt("%04d-%02d-%02d %02d:%02d:%02d", f), und = fmt("%04d_%02d_%02d_%02d%02d%02d", f);
    vf::distinct((uint64_t) t);
    vf::desc(Str() << "instant " << t << " " << full << " TZ=" << getenv("TZ"));
#define EQ(call, want, sig) do { auto got = call; VF_CHECK(got == (want), sig, Str() << #call << " gives " << got << " expected " << (want) << " for " << t << " " << full << " TZ=" << getenv("TZ")); } while (0)
    EQ(ConvertToString(t), ymd, "text-date");
    EQ(ConvertToString2(t), full, "text-full");
    EQ(ConvertToString3(t), und, "text-underscore");
    EQ(ConvertToString(t, true), ymd, "text-date");
    EQ(GetYear(t), f.y, "year"); EQ(GetMonth(t), f.mo, "month"); EQ(GetDay(t), f.d, "day");
    EQ(DayOfYear(t), f.yd + 1, "day-of-year"); EQ(DayOfYear(f.y, f.mo, f.d), f.yd + 1, "day-of-year");
    long long jd = cal::days(f.y, f.mo, f.d) + 2440588;
    EQ(JulianDay(t), jd, "julian"); EQ(JulianDay(f.y, f.mo, f.d), jd, "julian");
    EQ(JulianDay(t + 86400) - JulianDay(t), 1, "julian-consecutive");
    int y = -1, m = -1, d = -1;
    GetDateInfoFromTimet(t, &y, &m, &d);
    VF_CHECK(y == f.y && m == f.mo && d == f.d, "date-info", Str() << "GetDateInfoFromTimet " << y << "/" << m << "/" << d << " for " << full);
    struct tm tmv;
    memset(&tmv, 0, sizeof tmv);
    GetDateTime(t, &tmv);
    VF_CHECK(tmv.tm_year + 1900 == f.y && tmv.tm_mon + 1 == f.mo && tmv.tm_mday == f.d && tmv.tm_hour == f.h && tmv.tm_min == f.mi && tmv.tm_sec == f.s
             && tmv.tm_wday == f.wd && tmv.tm_yday == f.yd, "fields", Str() << "GetDateTime fields wrong for " << full);
    memset(&tmv, 0, sizeof tmv);
    UTCTime(t, &tmv);
    VF_CHECK(tmv.tm_year + 1900 == f.y && tmv.tm_mon + 1 == f.mo && tmv.tm_mday == f.d && tmv.tm_hour == f.h && tmv.tm_min == f.mi && tmv.tm_sec == f.s
             && tmv.tm_wday == f.wd && tmv.tm_yday == f.yd, "fields", Str() << "UTCTime fields wrong for " << full);
    long long midnight = t - (f.h * 3600 + f.mi * 60 + f.s);
    EQ(ConvertToTime(ymd, "%d-%d-%d", false), midnight, "parse-date");
    EQ(ConvertToTime(fmt("%04d%02d%02d", f), "%4d%2d%2d", false), midnight, "parse-date");
    EQ(ConvertToTime(full, "%d-%d-%d", false), midnight, "parse-date");
    EQ(ConvertToTime(full, "%4d-%2d-%2d %2d:%2d:%2d", true), t, "parse-full");
    EQ(ConvertToTime(full, "%d-%d-%d %d:%d:%d", true, true), t, "parse-full");
    EQ(ConvertToTime(und, "%4d_%2d_%2d_%2d%2d%2d", true), t, "parse-full");
    EQ(ConvertToTime(fmt("%d/%d/%d %d:%d", f), "%d/%d/%d %d:%d", true), t - f.s, "parse-full");
    y = f.y; m = f.mo; d = f.d;
    EQ(ConvertYMDToTime(y, m, d), midnight, "ymd");
    VF_CHECK(y == f.y && m == f.mo && d == f.d, "ymd-changed", Str() << "ConvertYMDToTime changed its arguments for " << ymd);
    VF_CHECK(IsLeapYear(f.y) == cal::leap(f.y), "leap", Str() << "IsLeapYear(" << f.y << ")");
    (void) r;
}
VF_KIND(instant, 10) {
    auto& r = c.r;
    cal::use(r.pick(cal::zones()));
    for (int i = 0; i < 8; i++) {
        long long t = cal::clampy(cal::instant(r, 1900, 9999, r.pick(cal::zones())), 1900, 9999);
        one(t, r);
        vf::tally("instants");
    }
}
VF_KIND(year_walk, 1) { // every day of a year
    auto& r = c.r;
    int y = r.chance(.5) ? (int) r.pickv<int>({1900, 1999, 2000, 2001, 2004, 2100, 2096, 2400, 9998, 1968, 1970, 1971}) : (int) r.range(1900, 9998);
    int doy = 0;
    for (int m = 1; m <= 12; m++) for (int d = 1; d <= cal::mdays(y, m); d++) {
        doy++;
        VF_CHECK(DayOfYear(y, m, d) == doy, "day-of-year", Str() << "DayOfYear(" << y << "," << m << "," << d << ") = " << DayOfYear(y, m, d) << " expected " << doy);
        long long t = cal::secs(y, m, d);
        VF_CHECK(JulianDay(t) == t / 86400 - (t % 86400 < 0) + 2440588, "julian", Str() << "JulianDay of " << y << "-" << m << "-" << d);
        int a = y, b = m, e = d;
        VF_CHECK(ConvertYMDToTime(a, b, e) == t, "ymd", Str() << "ConvertYMDToTime(" << y << "," << m << "," << d << ") = " << ConvertYMDToTime(a, b, e));
        VF_CHECK(DayOfYear(t + 86399) == doy, "day-of-year", Str() << "DayOfYear of the end of " << y << "-" << m << "-" << d);
        vf::tally("days walked");
    }
}
VF_KIND(malformed, 3) {
    auto& r = c.r;
    cal::use(r.pick(cal::zones()));
    for (int i = 0; i < 6; i++) {
        string s;
        switch (r.below(5)) {
            case 0: break;
            case 1: { int n = (int) r.below(20); for (int k = 0; k < n; k++) { s += "abcXYZ-/: ._"[r.below(12)]; } break; }
            case 2: s = Str() << r.range(1900, 2100) << "-"; break;
            case 3: s = Str() << r.range(1900, 2100) << "-" << r.range(1, 12); break;
            default: s = Str() << r.range(1900, 2100) << "-" << r.range(1, 12) << r.pick({"-", "-x", "/3", " 5", "--"}); if (s.size() > 3 && s.substr(s.size() - 2) == "--") s += "x";
        }
        // how many fields the format can read, by the scanf of the C library itself
        int v[6];
        bool hour = r.chance(.5);
        int n = hour ? sscanf(s.c_str(), "%d-%d-%d %d:%d:%d", v, v + 1, v + 2, v + 3, v + 4, v + 5) : sscanf(s.c_str(), "%d-%d-%d", v, v + 1, v + 2);
        if (n >= 3) { continue; }
        vf::desc(Str() << "ConvertToTime of malformed " << vf::q(s));
        time_t t = ConvertToTime(s, hour ? "%d-%d-%d %d:%d:%d" : "%d-%d-%d", hour, r.chance(.5));
        VF_CHECK(t == 0, "malformed", Str() << "ConvertToTime(" << vf::q(s) << ") gives " << (long long) t << ", not the failure value 0");
        vf::tally("malformed texts");
        vf::distinct(vf::hash_str(s) ^ hour);
    }
}
VF_KIND_LEAK(leaks, .3) {
    auto& r = c.r;
    cal::use(cal::zones()[8]);
    long long t = cal::clampy(cal::instant(r, 1970, 9000, cal::zones()[8]), 1970, 9000);
    bool u = r.chance(.5);
    vf::desc(Str() << "conversions|of " << t);
    ConvertToString(t, u); ConvertToString2(t, u); ConvertToString3(t, u);
    int y, m, d;
    GetDateInfoFromTimet(t, &y, &m, &d, u);
    ConvertYMDToTime(y, m, d, u);
    ConvertToTime("2001-02-03 04:05:06", "%d-%d-%d %d:%d:%d", true, u); ConvertToTime("rubbish", "%d-%d-%d", false, u);
    GetYear(t, u); GetMonth(t, u); GetDay(t, u); DayOfYear(t, u); JulianDay(t, u);
    vf::tally("leak checks");
}
