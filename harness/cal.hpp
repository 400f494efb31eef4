// Independent calendar and time-zone model (proleptic Gregorian, POSIX rules evaluated here).
#ifndef CAL_HPP
#define CAL_HPP
#include "vf.hpp"
#include <time.h>
namespace cal {
struct F { int y, mo, d, h, mi, s, wd, yd; }; // yd 0-based
inline long long days(long long y, int m, int d) {
    y -= m <= 2;
    long long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned) (y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long long) doe - 719468;
}
inline bool leap(int y) { return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0); }
inline int mdays(int y, int m) { static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : t[m - 1]; }
inline F fields(long long t) {
    long long dd = t / 86400, r = t % 86400;
    if (r < 0) { r += 86400; dd--; }
    F f;
    f.h = (int) (r / 3600); f.mi = (int) (r / 60 % 60); f.s = (int) (r % 60);
    f.wd = (int) (((dd + 4) % 7 + 7) % 7);
    long long z = dd + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned) (z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long long y = (long long) yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    f.d = (int) (doy - (153 * mp + 2) / 5 + 1);
    f.mo = (int) (mp < 10 ? mp + 3 : mp - 9);
    f.y = (int) (y + (f.mo <= 2));
    f.yd = (int) (dd - days(f.y, 1, 1));
    return f;
}
inline long long secs(int y, int mo, int d, int h = 0, int mi = 0, int s = 0) { return days(y, mo, d) * 86400 + h * 3600LL + mi * 60 + s; }
struct Rule { int m, w, d, t; }; // month, week, weekday, seconds of wall clock
struct Zone { const char* tz; int std, dst; bool has; Rule on, off; };
inline long long rule_day(int y, const Rule& r) {
    long long first = days(y, r.m, 1);
    int wd = (int) (((first + 4) % 7 + 7) % 7);
    int d = 1 + (r.d - wd + 7) % 7 + (r.w - 1) * 7;
    while (d > mdays(y, r.m)) { d -= 7; }
    return first + d - 1;
}
inline long long on_at(const Zone& z, int y) { return rule_day(y, z.on) * 86400 + z.on.t - z.std; }
inline long long off_at(const Zone& z, int y) { return rule_day(y, z.off) * 86400 + z.off.t - z.dst; }
inline bool is_dst(const Zone& z, long long t) {
    if (!z.has) { return false; }
    int y = fields(t + z.std).y;
    long long a = on_at(z, y), b = off_at(z, y);
    return a < b ? (t >= a && t < b) : !(t >= b && t < a);
}
inline int off(const Zone& z, long long t) { return is_dst(z, t) ? z.dst : z.std; }
inline const std::vector<Zone>& zones() {
    static const std::vector<Zone> v = {
        {"UTC0", 0, 0, false, {}, {}},
        {"CST-8", 28800, 0, false, {}, {}},
        {"NST3:30", -12600, 0, false, {}, {}},
        {"<+0545>-5:45", 20700, 0, false, {}, {}},
        {"<+14>-14", 50400, 0, false, {}, {}},
        {"<-12>12", -43200, 0, false, {}, {}},
        {"EST5EDT,M3.2.0,M11.1.0", -18000, -14400, true, {3, 2, 0, 7200}, {11, 1, 0, 7200}},
        {"PST8PDT,M3.2.0/2,M11.1.0/2", -28800, -25200, true, {3, 2, 0, 7200}, {11, 1, 0, 7200}},
        {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, true, {3, 5, 0, 7200}, {10, 5, 0, 10800}},
        {"GMT0BST,M3.5.0/1,M10.5.0", 0, 3600, true, {3, 5, 0, 3600}, {10, 5, 0, 7200}},
        {"AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, true, {10, 1, 0, 7200}, {4, 1, 0, 10800}},
        {"NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, 46800, true, {9, 5, 0, 7200}, {4, 1, 0, 10800}},
        {"<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", 37800, 39600, true, {10, 1, 0, 7200}, {4, 1, 0, 7200}},
        {"<-04>4<-03>,M9.1.6/24,M4.1.6/24", -14400, -10800, true, {9, 1, 6, 86400}, {4, 1, 6, 86400}},
        {"EET-2EEST,M3.5.0/0,M10.5.0/0", 7200, 10800, true, {3, 5, 0, 0}, {10, 5, 0, 0}},
        {"<-03>3<-02>,M10.3.0/0,M2.3.0/0", -10800, -7200, true, {10, 3, 0, 0}, {2, 3, 0, 0}},
        {"<-0330>3:30<-0230>,M3.2.0,M11.1.0", -12600, -9000, true, {3, 2, 0, 7200}, {11, 1, 0, 7200}},
        {"XST-3XDT-5,M4.1.0/2,M10.1.0/4", 10800, 18000, true, {4, 1, 0, 7200}, {10, 1, 0, 14400}},
    };
    return v;
}
inline void use(const Zone& z) { setenv("TZ", z.tz, 1); tzset(); }
// an instant, biased to boundaries; years lo..hi
inline long long instant(vf::Rng& r, int lo, int hi, const Zone& z) {
    int y = r.chance(.3) ? (int) r.pickv<int>({1900, 1999, 2000, 2004, 2038, 2100, 2400, 1970, 1972, 2023, 2024}) : r.chance(.5) ? (int) r.range(1970, 2100) : (int) r.range(lo, hi);
    if (y < lo || y > hi) { y = (int) r.range(lo, hi); }
    long long t;
    if (z.has && r.chance(.45)) {
        t = r.chance(.5) ? on_at(z, y) : off_at(z, y);
        t += r.pickv<long long>({0, -1, 1, 3600, -3600, 3599, -3601, 7200, -7200, 1800, -1800, 86400, -86400, 1799, 5400});
        if (r.chance(.3)) { t += r.range(-90000, 90000); }
        return t;
    }
    switch (r.below(5)) {
        case 0: { // local midnights of month and year ends
            int m = r.chance(.4) ? (r.chance(.5) ? 1 : 3) : (int) r.range(1, 12);
            t = secs(y, m, 1) - z.std + r.pickv<long long>({0, -1, 1, 60, -60, 3600, -3600, -86400, 86400});
            if (z.has && r.chance(.5)) { t += z.std - z.dst; }
            break;
        }
        case 1: t = secs(y, (int) r.range(1, 12), (int) r.range(1, 28)) - z.std + r.range(-4000, 4000); break;
        default: t = secs(y, 1, 1) + r.range(0, (leap(y) ? 366LL : 365LL) * 86400 - 1);
    }
    return t;
}
inline long long clampy(long long t, int lo, int hi) {
    long long a = secs(lo, 1, 2), b = secs(hi, 12, 30);
    return t < a ? a : t > b ? b : t;
}
}
#endif
