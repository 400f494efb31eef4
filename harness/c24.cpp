// C24: DateTime
#include "cal.hpp"
#include "utils_time.h"
using namespace ccgl::utils_time;
using vf::Str;
using std::string;
const char* vf_rule = "Date-time values from 1970 to 2400 in 18 time zones (biased to daylight-saving changes, midnights, month, leap-day and year ends), moved by amounts over the whole int range, and pairs one millisecond to years apart, against an independent calendar model; values x zones x amounts are counted.";
void vf_init() {}
static cal::Zone Z;
static string show(const DateTime& d) {
    return Str() << d.year << "-" << d.month << "-" << d.day << " " << d.hour << ":" << d.minute << ":" << d.second << "." << d.milliseconds << " wd" << d.day_of_week << " yd" << d.day_of_year << " ft" << (unsigned long long) d.filetime << " total" << (unsigned long long) d.total_milliseconds;
}
static void want(const DateTime& d, const cal::F& f, int ms, long long ft, const char* sig, const string& how) {
    bool ok = d.year == f.y && d.month == f.mo && d.day == f.d && d.hour == f.h && d.minute == f.mi && d.second == f.s && d.milliseconds == ms && d.day_of_week == f.wd && d.day_of_year == f.yd;
    bool okt = ft < 0 || ((long long) d.filetime == ft && (long long) d.total_milliseconds == ft);
    VF_CHECK(ok && okt, sig, Str() << how << " TZ=" << Z.tz << " gives " << show(d) << " expected " << f.y << "-" << f.mo << "-" << f.d << " " << f.h << ":" << f.mi << ":" << f.s << "." << ms << " wd" << f.wd << " yd" << f.yd << " ft" << ft);
}
// is this wall time produced by exactly one instant?
static int preimages(long long wall, long long& t) {
    int n = 0;
    long long a = wall - Z.std;
    if (cal::off(Z, a) == Z.std) { n++; t = a; }
    if (Z.has) { long long b = wall - Z.dst; if (cal::off(Z, b) == Z.dst) { n++; t = b; } }
    return n;
}
VF_KIND(values, 10) {
    auto& r = c.r;
    Z = r.pick(cal::zones());
    cal::use(Z);
    for (int i = 0; i < 6; i++) {
        long long t = cal::clampy(cal::instant(r, 1970, 2400, Z), 1970, 2400);
        if (t < 200000) { t += 200000; }
        int ms = r.chance(.3) ? (int) r.pickv<int>({0, 1, 999, 500}) : (int) r.below(1000);
        long long ft = t * 1000 + ms;
        cal::F w = cal::fields(t + cal::off(Z, t)), u = cal::fields(t);
        vf::desc(Str() << "instant " << ft << " TZ=" << Z.tz);
        vf::distinct(vf::mix((uint64_t) ft, vf::hash_str(Z.tz)));
        vf::tally("values");
        DateTime d = DateTime::FromFileTime((ccgl::vuint64_t) ft);
        want(d, w, ms, ft, "from-instant", "FromFileTime");
        // from fields
        long long t1 = 0, wall = t + cal::off(Z, t);
        int np = preimages(wall, t1);
        if (np == 1) {
            want(DateTime::FromDateTime(w.y, w.mo, w.d, w.h, w.mi, w.s, ms), w, ms, t1 * 1000 + ms, "from-fields", "FromDateTime");
            vf::tally("values from fields");
        } else vf::tally("ambiguous wall times");
        if (r.chance(.3)) {
            long long m0 = wall - (w.h * 3600 + w.mi * 60 + w.s);
            if (preimages(m0, t1) == 1) want(DateTime::FromDateTime(w.y, w.mo, w.d), cal::fields(m0), 0, t1 * 1000, "from-fields", "FromDateTime(date only)");
        }
        // universal time and back
        DateTime g = d.ToUTCTime();
        want(g, u, ms, -1, "to-utc", "ToUTCTime");
        want(g.ToLocalTime(), w, ms, ft, "to-local", "ToUTCTime().ToLocalTime()");
        // moves
        for (int k = 0; k < 3; k++) {
            int amt = r.chance(.3) ? (int) r.pickv<int>({0, 1, 999, 1000, 60000, 3600000, 86400000, 2147483647, 1000 * 86400 * 7}) : r.chance(.5) ? (int) r.range(0, 2147483647) : (int) r.range(0, 100000000);
            vf::desc(Str() << "instant " << ft << " moved by " << amt << " TZ=" << Z.tz);
            long long f2 = ft + amt, t2 = f2 / 1000;
            DateTime a = d.Forward(amt);
            want(a, cal::fields(t2 + cal::off(Z, t2)), (int) (f2 % 1000), f2, "forward", Str() << "Forward(" << amt << ")");
            want(a.Backward(amt), w, ms, ft, "forward-backward", Str() << "Forward(" << amt << ").Backward");
            f2 = ft - amt;
            if (f2 >= 0) {
                t2 = f2 / 1000;
                DateTime b = d.Backward(amt);
                want(b, cal::fields(t2 + cal::off(Z, t2)), (int) (f2 % 1000), f2, "backward", Str() << "Backward(" << amt << ")");
                want(b.Forward(amt), w, ms, ft, "backward-forward", Str() << "Backward(" << amt << ").Forward");
                if (amt) want(d.Forward(-amt), cal::fields(t2 + cal::off(Z, t2)), (int) (f2 % 1000), f2, "forward", Str() << "Forward(" << -amt << ")");
            }
            want(d, w, ms, ft, "changed-itself", "after moving");
            vf::tally("moves");
        }
        // order
        long long o = ft + (r.chance(.3) ? 0 : r.chance(.5) ? r.range(-2, 2) : r.range(-100000000, 100000000));
        DateTime e = DateTime::FromFileTime((ccgl::vuint64_t) o);
        bool ok = (d == e) == (ft == o) && (d != e) == (ft != o) && (d < e) == (ft < o) && (d <= e) == (ft <= o) && (d > e) == (ft > o) && (d >= e) == (ft >= o);
        VF_CHECK(ok, "order", Str() << "comparison of " << ft << " and " << o << " disagrees with the order of the instants");
        vf::tally("comparisons");
    }
}
VF_KIND(now, .5) {
    auto& r = c.r;
    Z = r.pick(cal::zones());
    cal::use(Z);
    long long a = (long long) time(nullptr);
    DateTime l = DateTime::LocalTime(), g = DateTime::UTCTime();
    long long b = (long long) time(nullptr);
    vf::desc(Str() << "now TZ=" << Z.tz);
    bool ok = false, oku = false;
    for (long long t = a; t <= b; t++) {
        cal::F w = cal::fields(t + cal::off(Z, t)), u = cal::fields(t);
        ok = ok || (l.year == w.y && l.month == w.mo && l.day == w.d && l.hour == w.h && l.minute == w.mi && l.second == w.s && l.day_of_week == w.wd && l.day_of_year == w.yd && (long long) l.filetime / 1000 == t);
        oku = oku || (g.year == u.y && g.month == u.mo && g.day == u.d && g.hour == u.h && g.minute == u.mi && g.second == u.s && g.day_of_week == u.wd && g.day_of_year == u.yd);
    }
    VF_CHECK(ok, "now-local", Str() << "LocalTime() gives " << show(l) << " at " << a << " TZ=" << Z.tz);
    VF_CHECK(oku, "now-utc", Str() << "UTCTime() gives " << show(g) << " at " << a << " TZ=" << Z.tz);
    VF_CHECK(l.milliseconds >= 0 && l.milliseconds < 1000 && g.milliseconds >= 0 && g.milliseconds < 1000, "now-ms", show(l));
    vf::tally("current times");
    double t1 = TimeCounting(), t2 = TimeCounting();
    VF_CHECK(t2 >= t1 && t1 >= (double) a - 1 && t1 <= (double) b + 2, "counting", Str() << "TimeCounting " << t1);
}
VF_KIND(empty, .05) {
    DateTime d;
    VF_CHECK(!d.year && !d.month && !d.day && !d.hour && !d.minute && !d.second && !d.milliseconds && !d.filetime && !d.total_milliseconds && !d.day_of_week && !d.day_of_year, "empty", show(d));
    (void) c;
    vf::tally("empty values");
}
VF_KIND_LEAK(leaks, .3) {
    auto& r = c.r;
    Z = r.pick(cal::zones());
    cal::use(cal::zones()[6]);
    long long t = cal::clampy(cal::instant(r, 1971, 2400, Z), 1971, 2400);
    vf::desc(Str() << "date-time|of " << t);
    DateTime d = DateTime::FromFileTime((ccgl::vuint64_t) (t * 1000));
    d.ToUTCTime().ToLocalTime(); d.Forward(10).Backward(5);
    DateTime::LocalTime(); DateTime::UTCTime();
    DateTime::FromDateTime(2001, 2, 3, 4, 5, 6, 7);
    vf::tally("leak checks");
}
