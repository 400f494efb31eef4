// C23: local-time conversions in every zone
#include "cal.hpp"
#include "utils_time.h"
using namespace ccgl::utils_time;
using vf::Str;
using std::string;
const char* vf_rule = "Instants from 1970 to 2400 in 18 time zones (fixed offsets; northern and southern daylight saving of one half, one and two hours; changes at 2:00, at midnight and at 24:00), biased to the seconds around each change and around local midnights of month and year ends, against an independent evaluation of the zone rules; instants x zones are counted.";
void vf_init() { if (!freopen("/dev/null", "w", stdout)) {} }
static string fmt(const char* f, const cal::F& x) { char b[64]; snprintf(b, sizeof b, f, x.y, x.mo, x.d, x.h, x.mi, x.s); return b; }
VF_KIND(local, 10) {
    auto& r = c.r;
    const cal::Zone& z = r.pick(cal::zones());
    cal::use(z);
    for (int i = 0; i < 8; i++) {
        long long t = cal::clampy(cal::instant(r, 1970, 2400, z), 1970, 2400);
        vf::distinct(vf::mix((uint64_t) t, vf::hash_str(z.tz)));
        bool dst = cal::is_dst(z, t);
        vf::tally(dst ? "instants in daylight saving" : "instants in standard time");
        cal::F s = cal::fields(t + z.std), w = cal::fields(t + cal::off(z, t));
        string ymd = fmt("%04d-%02d-%02d", s), full = fmt("%04d-%02d-%02d %02d:%02d:%02d", s), und = fmt("%04d_%02d_%02d_%02d%02d%02d", s);
        string ctx = Str() << t << " standard " << full << " wall " << fmt("%04d-%02d-%02d %02d:%02d:%02d", w) << " TZ=" << z.tz;
        vf::desc("instant " + ctx);
#define EQL(call, want, sig) do { auto got = call; VF_CHECK(got == (want), sig, Str() << #call << " gives " << got << " expected " << (want) << " for " << ctx); } while (0)
        EQL(ConvertToString(t, false), ymd, "text-date");
        EQL(ConvertToString2(t, false), full, "text-full");
        EQL(ConvertToString3(t, false), und, "text-underscore");
        // the text names the instant again
        EQL(ConvertToTime(ConvertToString2(t, false), "%4d-%2d-%2d %2d:%2d:%2d", true, false), t, "round-trip");
        EQL(ConvertToTime(ConvertToString3(t, false), "%4d_%2d_%2d_%2d%2d%2d", true, false), t, "round-trip");
        EQL(ConvertToTime(full, "%d-%d-%d %d:%d:%d", true, false), t, "parse-full");
        long long mid = t - (s.h * 3600 + s.mi * 60 + s.s);
        EQL(ConvertToTime(ymd, "%d-%d-%d", false, false), mid, "parse-date");
        int y = s.y, m = s.mo, d = s.d;
        EQL(ConvertYMDToTime(y, m, d, false), mid, "ymd");
        y = m = d = -1;
        GetDateInfoFromTimet(t, &y, &m, &d, false);
        VF_CHECK(y == s.y && m == s.mo && d == s.d, "date-info", Str() << "GetDateInfoFromTimet gives " << y << "-" << m << "-" << d << " for " << ctx);
        // wall clock fields
        EQL(GetYear(t, false), w.y, "year"); EQL(GetMonth(t, false), w.mo, "month"); EQL(GetDay(t, false), w.d, "day");
        EQL(DayOfYear(t, false), w.yd + 1, "day-of-year");
        EQL(JulianDay(t, false), cal::days(w.y, w.mo, w.d) + 2440588, "julian");
        for (int k = 0; k < 2; k++) {
            struct tm tmv;
            memset(&tmv, 0, sizeof tmv);
            if (k) { GetDateTime(t, &tmv, false); } else { LocalTime(t, &tmv); }
            VF_CHECK(tmv.tm_year + 1900 == w.y && tmv.tm_mon + 1 == w.mo && tmv.tm_mday == w.d && tmv.tm_hour == w.h && tmv.tm_min == w.mi && tmv.tm_sec == w.s
                     && tmv.tm_wday == w.wd && tmv.tm_yday == w.yd && (tmv.tm_isdst > 0) == dst, "fields", Str() << "local fields wrong for " << ctx);
        }
        // universal time is not affected by the zone
        EQL(ConvertToString2(t), fmt("%04d-%02d-%02d %02d:%02d:%02d", cal::fields(t)), "utc");
    }
}
VF_KIND(change_walk, 1) { // every quarter of an hour around one change
    auto& r = c.r;
    const cal::Zone& z = cal::zones()[6 + r.below(cal::zones().size() - 6)];
    cal::use(z);
    int y = (int) r.range(1971, 2100);
    long long base = r.chance(.5) ? cal::on_at(z, y) : cal::off_at(z, y);
    for (long long t = base - 26 * 3600; t <= base + 26 * 3600; t += 900) {
        long long u = t + r.range(0, 899);
        cal::F s = cal::fields(u + z.std);
        string full = fmt("%04d-%02d-%02d %02d:%02d:%02d", s);
        vf::desc(Str() << u << " " << full << " TZ=" << z.tz);
        VF_CHECK(ConvertToString2(u, false) == full, "text-full", Str() << "ConvertToString2 gives " << ConvertToString2(u, false) << " expected " << full << " TZ=" << z.tz << " t=" << u);
        VF_CHECK(ConvertToTime(full, "%d-%d-%d %d:%d:%d", true, false) == u, "parse-full", Str() << "ConvertToTime of " << full << " TZ=" << z.tz);
        VF_CHECK(GetDay(u, false) == cal::fields(u + cal::off(z, u)).d, "day", Str() << "GetDay at " << u << " TZ=" << z.tz);
        vf::tally("instants walked");
    }
    vf::distinct(vf::mix((uint64_t) base, vf::hash_str(z.tz)));
}
