// C21: splitting, trimming, case mapping, matching, narrow/wide conversion
#include "vf.hpp"
#include "utils_string.h"
#include <climits>
#include <locale.h>
using namespace ccgl;
using namespace utils_string;
using vf::Str;
using vf::q;
const char* vf_rule = "Random texts over alphabets rich in blanks, delimiters, mixed case, high bytes and NULs, and random Unicode texts, compared with a character-by-character model; distinct (operation, text) pairs are counted, all are non-trivial but the empty text.";
void vf_init() { setlocale(LC_ALL, "C.UTF-8"); }

static std::string rnd_text(vf::Rng& r, const std::string& alpha, int maxlen) {
    std::string t;
    int n = (int) r.below((uint64_t) maxlen + 1);
    for (int i = 0; i < n; i++) t += r.chance(.05) ? (char) r.below(256) : alpha[r.below(alpha.size())];
    return t;
}
static std::string show(const std::vector<std::string>& v) { std::string s = "["; for (auto& x: v) s += q(x) + ","; return s + "]"; }
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
static void split_ws(const std::string& t) {
    std::vector<std::string> want;
    std::string cur;
    for (char ch: t) { if (blank(ch)) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch; }
    if (!cur.empty()) want.push_back(cur);
    vf::desc(Str() << "SplitString " << q(t));
    std::vector<std::string> got = SplitString(t);
    VF_CHECK(got == want, "split-blanks", Str() << "SplitString(" << q(t) << ") gave " << show(got));
    vf::tally("split_blanks");
    vf::distinct(vf::hash_str(t, 1));
}
static void split_delim(const std::string& t, char d) {
    vf::desc(Str() << "SplitString " << q(t) << " at " << (int) d);
    std::vector<std::string> got = SplitString(t, d);
    std::string join;
    for (size_t i = 0; i < got.size(); i++) {
        VF_CHECK(got[i].find(d) == std::string::npos, "split-delim", Str() << q(t) << " piece holds delimiter " << show(got));
        join += (i ? std::string(1, d) : "") + got[i];
    }
    bool same = join == t || (!t.empty() && t.back() == d && join + d == t);
    VF_CHECK(same, "split-join", Str() << "SplitString(" << q(t) << ", " << q(std::string(1, d)) << ") gave " << show(got));
    size_t nd = 0;
    for (char ch: t) nd += ch == d;
    size_t want = t.empty() ? 0 : nd + (t.back() == d ? 0 : 1);
    VF_CHECK(got.size() == want || (t.empty() && got.size() <= 1), "split-count", Str() << q(t) << " gave " << show(got));
    vf::tally("split_delim");
    vf::distinct(vf::hash_str(t, (uint64_t) (unsigned char) d + 7));
}
VF_KIND(split, 4) {
    for (int k = 0; k < 40; k++) {
        std::string t = rnd_text(c.r, c.r.chance(.5) ? "ab \t\n\r\v\fX" : "a b,;c  ", c.r.chance(.1) ? c.r.chance(.02) ? 70000 : 200 : 14);
        split_ws(t);
        char d = c.r.chance(.9) ? *c.r.pick({",", ";", " ", "\t", "a", "."}) : (char) c.r.below(256);
        std::string u = rnd_text(c.r, std::string("xy, .;") + d + d, c.r.chance(.1) ? c.r.chance(.02) ? 70000 : 200 : 12);
        split_delim(u, d);
        if (k == 0) vf::sample(q(t) + " | " + q(u));
    }
}
template <class T> static void values(vf::Rng& r, const char* name, std::function<T(vf::Rng&, std::string&)> gen) {
    int n = r.chance(.03) ? (int) r.range(13, 2000) : (int) r.range(1, 12);
    char d = *r.pick({",", ";", " ", "|"});
    std::vector<T> want;
    std::string t;
    bool allnum = true;
    for (int i = 0; i < n; i++) {
        if (i) t += d;
        if (r.chance(.08)) { t += r.pick({"abc", "-", "n/a", "x"}); allnum = false; continue; }
        std::string s;
        want.push_back(gen(r, s));
        if (d != ' ' && r.chance(.2)) s = " " + s;
        if (d != ' ' && r.chance(.1)) s += " ";
        t += s;
    }
    vf::desc(Str() << "SplitStringForValues<" << name << "> " << q(t));
    std::vector<T> got;
    for (int i = (int) r.below(4); i > 0; i--) got.push_back((T) 77); // previous contents are replaced
    bool ok = SplitStringForValues(t, d, got);
    VF_CHECK(got == want, std::string("split-values:") + name, Str() << q(t));
    VF_CHECK(ok == allnum, std::string("split-values-status:") + name, Str() << q(t) << " returned " << ok);
    vf::tally("split_values");
    vf::distinct(vf::hash_str(t, 99));
}
VF_KIND(splitvalues, 2) {
    for (int k = 0; k < 20; k++) {
        values<int>(c.r, "int", [](vf::Rng& r, std::string& s) { int v = r.chance(.1) ? r.pickv<int>({INT_MAX, INT_MIN, 0}) : (int) (r.next() >> r.below(32)) * (r.chance(.5) ? 1 : -1); if (r.chance(.1)) { v = (int) r.range(-999, 999); s = std::to_string(v) + (".25"); return v; } s = std::to_string(v); return v; });
        values<double>(c.r, "double", [](vf::Rng& r, std::string& s) { double v = std::ldexp(r.real(-1, 1), (int) r.range(-30, 30)); char b[64]; snprintf(b, sizeof b, "%.17g", v); s = b; return v; });
        values<float>(c.r, "float", [](vf::Rng& r, std::string& s) { float v = (float) r.real(-1e6, 1e6); char b[64]; snprintf(b, sizeof b, "%.9g", v); s = b; return v; });
    }
}
static bool trimset(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static void trim_one(const std::string& t) {
    size_t a = 0, b = t.size();
    while (a < b && trimset(t[a])) a++;
    while (b > a && trimset(t[b - 1])) b--;
    std::string want = t.substr(a, b - a), s1 = t, s2 = t;
    vf::desc(Str() << "Trim " << q(t));
    std::string& ref = Trim(s1);
    TrimSpaces(s2);
    VF_CHECK(s1 == want && &ref == &s1, "trim", Str() << "Trim(" << q(t) << ") gave " << q(s1));
    VF_CHECK(s2 == want, "trimspaces", Str() << "TrimSpaces(" << q(t) << ") gave " << q(s2));
    vf::tally("trim");
    vf::distinct(vf::hash_str(t, 3));
}
static char up(char c) { return c >= 'a' && c <= 'z' ? (char) (c - 32) : c; }
static void case_one(vf::Rng& r, const std::string& t) {
    std::string want = t;
    for (auto& ch: want) ch = up(ch);
    vf::desc(Str() << "GetUpper " << q(t));
    VF_CHECK(GetUpper(t) == want, "upper", Str() << "GetUpper(" << q(t) << ") gave " << q(GetUpper(t)));
    // a partner text: case flipped, or one character changed
    std::string u = t;
    for (auto& ch: u) if (r.chance(.5)) { if (ch >= 'a' && ch <= 'z') ch -= 32; else if (ch >= 'A' && ch <= 'Z') ch += 32; }
    if (!u.empty() && r.chance(.4)) { size_t i = r.below(u.size()); u[i] = r.chance(.5) ? (char) (u[i] ^ 0x20) : (char) r.below(256); }
    if (r.chance(.1)) u += ' ';
    if (r.chance(.1) && !u.empty()) u.erase(u.size() - 1);
    std::string wu = u;
    for (auto& ch: wu) ch = up(ch);
    bool same = wu == want;
    vf::desc(Str() << "StringMatch " << q(t) << " " << q(u));
    VF_CHECK(StringMatch(t, u) == same && StringMatch(u, t) == same, "match", Str() << "StringMatch(" << q(t) << "," << q(u) << ") should be " << same);
    if (t.find('\0') == std::string::npos && u.find('\0') == std::string::npos)
        VF_CHECK(StringMatch(t.c_str(), u.c_str()) == same, "match-cstr", Str() << "StringMatch(" << q(t) << "," << q(u) << ") should be " << same);
    vf::tally(same ? "match_yes" : "match_no");
    vf::distinct(vf::hash_str(t, vf::hash_str(u, 5)));
}
VF_KIND(trimcase, 4) {
    for (int k = 0; k < 40; k++) {
        trim_one(rnd_text(c.r, " \t\r\nab c", c.r.chance(.02) ? 5000 : 10));
        case_one(c.r, rnd_text(c.r, "aAzZ@[`{mM09_ \xc3\xa9", c.r.chance(.1) ? c.r.chance(.05) ? 5000 : 100 : 8));
    }
}
static void utf8(std::string& o, unsigned cp) {
    if (cp < 0x80) o += (char) cp;
    else if (cp < 0x800) { o += (char) (0xC0 | cp >> 6); o += (char) (0x80 | (cp & 63)); }
    else if (cp < 0x10000) { o += (char) (0xE0 | cp >> 12); o += (char) (0x80 | (cp >> 6 & 63)); o += (char) (0x80 | (cp & 63)); }
    else { o += (char) (0xF0 | cp >> 18); o += (char) (0x80 | (cp >> 12 & 63)); o += (char) (0x80 | (cp >> 6 & 63)); o += (char) (0x80 | (cp & 63)); }
}
VF_KIND(wide, 3) {
    for (int k = 0; k < 20; k++) {
        bool utf = c.r.chance(.6);
        setlocale(LC_CTYPE, utf ? "C.UTF-8" : "C");
        std::wstring w;
        std::string n;
        int len = (int) c.r.below(c.r.chance(.05) ? 3000 : 30);
        for (int i = 0; i < len; i++) {
            unsigned cp = (unsigned) c.r.range(1, 127);
            if (utf && c.r.chance(.4)) { do cp = (unsigned) c.r.range(0x80, c.r.chance(.5) ? 0x7ff : 0x10ffff); while (cp >= 0xd800 && cp < 0xe000); }
            w += (wchar_t) cp;
            utf8(n, cp);
        }
        vf::desc(Str() << "wide|convertible " << q(n));
        VF_CHECK(wtoa(w) == n, "wtoa", Str() << "wtoa gave " << q(wtoa(w)) << " expected " << q(n));
        VF_CHECK(atow(n) == w, "atow", Str() << "atow of " << q(n));
        vf::tally("wide_roundtrip");
        vf::distinct(vf::hash_str(n, 11));
        if (k == 0) vf::sample("wide " + q(n));
        // text that cannot be converted in this locale: no memory error, definite result
        std::string bad = n;
        bad.insert(c.r.below(bad.size() + 1), c.r.pick({"\xff", "\xc3", "\x80\x80\x80\x80\x80\x80\x80\x80"}));
        std::wstring wb = w;
        wb.insert((size_t) c.r.below(wb.size() + 1), 1, utf ? (wchar_t) 0xd800 : (wchar_t) 0x4e2d);
        vf::desc(Str() << "wide|inconvertible " << q(bad));
        std::wstring x = atow(bad);
        std::string y = wtoa(wb);
        VF_CHECK(x.size() <= bad.size() && y.size() <= wb.size() * 4, "inconvertible", Str() << "atow/wtoa of inconvertible text " << q(bad));
        vf::tally("wide_inconvertible");
    }
    setlocale(LC_CTYPE, "C.UTF-8");
}
VF_KIND(fixed, -1) {
    for (auto t: {"", " ", "a", "a ", " a", "a b ", "  a\tb\r\n", "a  b", "\n\n", "a\n"}) { split_ws(t); trim_one(t); split_delim(t, ' '); split_delim(t, ','); case_one(c.r, t); }
    for (auto t: {",", ",,", "a,", ",a", "a,b,", "a,,b", ",a,,b,"}) split_delim(t, ',');
}
