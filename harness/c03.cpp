// C03: any text read as an ASCII grid
#include "rast.hpp"
using namespace m;
#ifndef VT
const char* vf_rule = "Texts read as ASCII grids of all ten cell types: complete grids with header items in any order, case, spelling (centre or corner) and spacing, cells in any number format laid out on any lines, then the same with one to three faults (missing, duplicated, malformed or absurd header items, missing, surplus, non-numeric or unrepresentable cells, truncation, changed bytes) and random bytes; a three-valued reference reader decides what must be loaded exactly, what must be refused and what is only required not to crash; distinct texts are counted.";
void vf_init() { init(); }
#else
enum Verdict { VALID, INVALID, ANY };
template <class T> struct Ref { Geo g; bool has_nd; double nd; vector<T> v; Verdict verdict; string why; };
inline bool canonical(const string& s) { // [+-] digits [. digits] [e [+-] digits]
    size_t i = 0, d = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    for (; i < s.size() && isdigit((unsigned char) s[i]); i++) d++;
    if (i < s.size() && s[i] == '.') for (i++; i < s.size() && isdigit((unsigned char) s[i]); i++) d++;
    if (!d) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        i++;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
        size_t k = i;
        while (i < s.size() && isdigit((unsigned char) s[i])) i++;
        if (i == k) return false;
    }
    return i == s.size();
}
template <class T> Ref<T> reference(const string& text) {
    typedef std::numeric_limits<T> L;
    Ref<T> f;
    f.has_nd = false;
    f.nd = 0;
    f.g.rows = f.g.cols = 0;
    f.g.xll = f.g.yll = f.g.dx = 0;
    f.verdict = VALID;
    bool any = false, bad = false;
    auto maybe = [&](const char* w) { if (!any) f.why = w; any = true; };
    auto wrong = [&](const char* w) { if (!any && !bad) f.why = w; bad = true; };
    for (unsigned char ch: text) if (ch >= 127 || (ch < 32 && ch != '\n' && ch != '\r' && ch != '\t')) maybe("bytes");
    vector<vector<string>> lines(1);
    string cur;
    for (char ch: text + "\n") {
        if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') { if (!cur.empty()) lines.back().push_back(cur); cur.clear(); if (ch == '\n') lines.emplace_back(); }
        else cur += ch;
    }
    std::map<string, string> head;
    vector<string> cells;
    for (auto& t: lines) {
        if (t.empty()) continue;
        if (t[0][0] == '#') { maybe("comment"); continue; }
        string k = t[0];
        for (auto& ch: k) ch = (char) toupper((unsigned char) ch);
        static const std::set<string> keys = {"NCOLS", "NROWS", "XLLCENTER", "XLLCORNER", "YLLCENTER", "YLLCORNER", "CELLSIZE", "NODATA_VALUE"};
        if (keys.count(k)) {
            if (t.size() > 2) maybe("more text after a header item");
            if (t.size() < 2) { wrong("header item without value"); continue; }
            if (k[1] == 'L' && k[2] == 'L') k = string(1, k[0]) + "LL" + k.substr(3);
            string g = k == "XLLCORNER" || k == "XLLCENTER" ? "X" : k == "YLLCORNER" || k == "YLLCENTER" ? "Y" : k;
            if (head.count(g)) maybe("duplicated header item");
            if (!cells.empty()) maybe("header item after data");
            head[g] = t[1];
            if (g != k) head[g + "corner"] = k.substr(3) == "CORNER" ? "1" : "";
            double d = strtod(t[1].c_str(), nullptr);
            if (!canonical(t[1])) {
                char* e;
                strtod(t[1].c_str(), &e);
                if (*e == 0) maybe("unusual number"); else wrong("header value is not a number");
                continue;
            }
            if (!std::isfinite(d)) { maybe("overflow"); continue; }
            if (k == "NCOLS" || k == "NROWS") {
                string s = t[1];
                bool neg = s[0] == '-';
                string digits = s.substr(neg);
                bool plain = digits.find_first_not_of("0123456789") == string::npos && !(digits.size() > 1 && digits[0] == '0') && s != "-0";
                if (!(d > 0)) { wrong("non-positive dimension"); continue; }
                if (!plain) { if (d != std::floor(d)) wrong("dimension is not whole"); else maybe("unusual integer"); continue; }
                if (d > 2147483647.) { wrong("dimension is too large"); continue; }
                (k == "NCOLS" ? f.g.cols : f.g.rows) = (int) d;
            } else if (k == "CELLSIZE") {
                if (!(d > 0)) wrong("non-positive cell size");
                f.g.dx = d;
            } else if (k == "NODATA_VALUE") { f.nd = d; f.has_nd = true; }
            else (g == "X" ? f.g.xll : f.g.yll) = d;
            continue;
        }
        for (auto& s: t) cells.push_back(s);
    }
    if (!head.count("NCOLS") || !head.count("NROWS") || !head.count("CELLSIZE") || !head.count("X") || !head.count("Y")) wrong("missing header item");
    if (head["Xcorner"] == "1") f.g.xll += .5 * f.g.dx;
    if (head["Ycorner"] == "1") f.g.yll += .5 * f.g.dx;
    if ((long long) cells.size() != (long long) f.g.rows * f.g.cols) wrong("count of cells");
    for (auto& s: cells) {
        char* e;
        double d = strtod(s.c_str(), &e);
        if (*e) { wrong("cell is not a number"); continue; }
        if (!canonical(s)) { maybe("unusual number"); continue; }
        if (L::is_integer) {
            if (d != std::trunc(d)) { maybe("fraction for an integer"); continue; }
            if (d < (double) L::lowest() || d >= std::ldexp(1., L::digits)) { wrong("cell outside the cell type"); continue; }
            if (std::fabs(d) > 9007199254740992.) { maybe("beyond double precision"); continue; }
        } else {
            if (!std::isfinite(d)) { maybe("overflow"); continue; }
            if (std::fabs(d) > (double) L::max()) { if (std::fabs(d) > (double) L::max() * (1 + 1e-6)) wrong("cell outside the cell type"); else maybe("rounds to the limit"); continue; }
        }
        f.v.push_back((T) d);
    }
    f.verdict = any ? ANY : bad ? INVALID : VALID;
    return f;
}
template <class T> string number(Rng& r, T x) { // one of many ways to write it
    char b[400];
    if (std::numeric_limits<T>::is_integer) {
        string s = std::to_string(x);
        switch (r.below(12)) {
            case 0: return s + ".";
            case 1: return s + ".0";
            case 2: return s[0] == '-' ? s : "+" + s;
            case 3: snprintf(b, sizeof b, "%.17e", (double) x); return b;
            case 4: return s + "e0";
            case 5: return s[0] == '-' ? "-00" + s.substr(1) : "00" + s;
            default: return s;
        }
    }
    switch (r.below(8)) {
        case 0: snprintf(b, sizeof b, "%.17E", (double) x); return b;
        case 1: snprintf(b, sizeof b, "%.3f", (double) x); return b;
        case 2: snprintf(b, sizeof b, "%+.17g", (double) x); return b;
        case 3: snprintf(b, sizeof b, "%g", (double) x); return b;
        default: snprintf(b, sizeof b, "%.17g", (double) x); return b;
    }
}
inline string recase(Rng& r, string s) {
    switch (r.below(4)) {
        case 0: for (auto& c: s) c = (char) tolower((unsigned char) c); break;
        case 1: for (auto& c: s) c = (char) (r.chance(.5) ? tolower((unsigned char) c) : toupper((unsigned char) c)); break;
        default: break;
    }
    return s;
}
inline string blanks(Rng& r) { return r.chance(.7) ? " " : r.pick({"  ", "\t", " \t ", "          "}); }
template <class T> string compose(Rng& r, const Grid<T>& g, int faults) {
    typedef std::vector<std::pair<string, string>> Head;
    Head h;
    h.push_back({"NCOLS", std::to_string(g.cols)});
    h.push_back({"NROWS", std::to_string(g.rows)});
    bool xc = r.chance(.5), yc = r.chance(.8) ? xc : !xc;
    h.push_back({xc ? "XLLCORNER" : "XLLCENTER", number<double>(r, g.xll)});
    h.push_back({yc ? "YLLCORNER" : "YLLCENTER", number<double>(r, g.yll)});
    h.push_back({"CELLSIZE", number<double>(r, g.dx)});
    if (r.chance(.85)) h.push_back({"NODATA_VALUE", number<T>(r, g.nodata)});
    if (r.chance(.3)) r.shuffle(h);
    vector<string> cells;
    for (auto x: g.v[0]) cells.push_back(number<T>(r, x));
    string eol = r.chance(.75) ? "\n" : "\r\n", tail;
    int cut = -1;
    for (int k = 0; k < faults; k++) {
        size_t i = (size_t) r.below(h.size()), j = cells.empty() ? 0 : (size_t) r.below(cells.size());
        switch (r.below(14)) {
            case 0: h.erase(h.begin() + i); if (h.empty()) h.push_back({"NCOLS", "1"}); break;
            case 1: h[i].second = r.pick({"0", "-1", "-3", "abc", "", "1.5", "1e1", "99999999999", "4294967299", "2147483647", "2147483648", "-2147483648", "nan", "inf", "0x10", "3x", "+4", "1e400", "65536", "18446744073709551617", "1,5"}); break;
            case 2: if (i < h.size()) h.push_back(h[i]); break;
            case 3: h[i].first = r.pick({"NCOLS:", "COLS", "NROW", "XLL", "#NROWS", "XLLCENTRE", "NODATA", "CELL_SIZE", "DX", "12"}); break;
            case 4: if (!cells.empty()) cells.erase(cells.begin() + j); break;
            case 5: cells.insert(cells.begin() + j, number<T>(r, g.v[0][0])); break;
            case 6: if (!cells.empty()) cells.pop_back(); break;
            case 7: cells.push_back("0"); break;
            case 8: case 9: if (!cells.empty()) cells[j] = r.pick({"abc", "1.2.3", "--5", "5x", "1,2", "1e", "1e+", "*", "N/A", "nan", "-", "+", ".", "0x1g", "1_000", "1;", "\"1\"", "NODATA_VALUE", "1-", "e5"}); break;
            case 10: if (!cells.empty()) cells[j] = r.pick({"256", "-129", "-1", "65536", "-32769", "4294967296", "-2147483649", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "1e39", "-1e39", "1e400", "3.5", "1e300", "128", "32768", "2147483648"}); break;
            case 11: { // lose or gain whole rows
                if (r.chance(.5)) { for (int q = 0; q < g.cols && !cells.empty(); q++) cells.pop_back(); } else for (int q = 0; q < g.cols; q++) cells.push_back("1");
                break;
            }
            case 12: cut = (int) r.below(1000); break;
            default: { // swap dimensions or change one of them
                for (auto& p: h) if (p.first == (r.chance(.5) ? "NCOLS" : "NROWS")) p.second = std::to_string(r.range(1, 9));
            }
        }
    }
    Str s;
    if (r.chance(.1)) s << eol;
    for (auto& p: h) { s << (r.chance(.05) ? "  " : "") << recase(r, p.first) << blanks(r) << p.second << (r.chance(.1) ? "  " : "") << eol; if (r.chance(.05)) s << eol; }
    int layout = (int) r.below(5); // rows, one a line, one line, random, rows without final end of line
    int per = g.cols;
    for (size_t i = 0; i < cells.size(); i++) {
        s << cells[i];
        bool end = layout == 1 || ((layout == 0 || layout == 4) && (i + 1) % per == 0) || (layout == 3 && r.chance(.2));
        s << (end && !(i + 1 == cells.size() && layout == 4) ? eol : blanks(r));
    }
    if (r.chance(.5)) s << eol;
    string t = s;
    if (cut >= 0) t = t.substr(0, t.size() * (size_t) cut / 1000);
    return t;
}
template <class T> void check(vf::Case& c, const string& text, const string& name) {
    auto& r = c.r;
    typedef typename Lib<T>::R R;
    Ref<T> f = reference<T>(text);
    string path = vf::scratch() + "/" + name;
    vf::write_file(path, text);
    string shown = Str() << Ty<T>::name() << " text " << vf::q(text.size() > 700 ? text.substr(0, 700) : text);
    // the reading function
    ccgl::STRDBL_MAP h;
    T* v = nullptr;
    bool ok = dr::ReadAscFile(path, h, v);
    struct Free { T*& v; ~Free() { ccgl::utils_array::Release1DArray(v); } } fr{v};
    if (f.verdict == INVALID) VF_CHECK(!ok, "accepted", "accepted although invalid (" + f.why + "): " + shown);
    if (f.verdict == VALID) VF_CHECK(ok, "refused", "refused although complete: " + shown);
    bool nd_in_type = f.has_nd && (std::numeric_limits<T>::is_integer ? f.nd == std::trunc(f.nd) && f.nd >= (double) std::numeric_limits<T>::lowest() && f.nd < std::ldexp(1., std::numeric_limits<T>::digits) : std::fabs(f.nd) <= (double) std::numeric_limits<T>::max());
    if (ok) {
        VF_CHECK(v != nullptr && h.count("NCOLS") && h.count("NROWS"), "empty", "success without data: " + shown);
        volatile T sink = T();
        for (long i = 0, n = (long) (h["NCOLS"] * h["NROWS"]); i < n; i++) sink = v[i]; // all of it is readable
        (void) sink;
    }
    double sc = f.verdict == VALID ? f.g.dx * (f.g.rows + f.g.cols) : 0;
    if (f.verdict == VALID) {
        VF_CHECK(h["NCOLS"] == f.g.cols && h["NROWS"] == f.g.rows, "size", Str() << "size is " << h["NROWS"] << "x" << h["NCOLS"] << ": " << shown);
        VF_CHECK(close_enough(h["XLLCENTER"], f.g.xll, sc) && close_enough(h["YLLCENTER"], f.g.yll, sc), "location", Str() << "location is " << h["XLLCENTER"] << "," << h["YLLCENTER"] << ", expected " << f.g.xll << "," << f.g.yll << ": " << shown);
        VF_CHECK(h["CELLSIZE"] == f.g.dx, "cellsize", Str() << "cell size is " << h["CELLSIZE"] << ": " << shown);
        if (f.has_nd) VF_CHECK(h["NODATA_VALUE"] == f.nd, "nodata", Str() << "no-data is " << h["NODATA_VALUE"] << ": " << shown);
        for (int i = 0; i < f.g.n(); i++) VF_CHECK(same<T>(v[i], f.v[i]), "cell", Str() << "cell " << i << " is " << +v[i] << ", expected " << +f.v[i] << ": " << shown);
        vf::tally("cells compared", f.g.n());
    }
    // a raster of the library
    bool calc = r.chance(.3);
    bool has_valid = true;
    if (calc && f.verdict == VALID) {
        has_valid = false;
        for (auto x: f.v) if (!f.has_nd || !nd_in_type || !ndeq((double) x, (double) (T) f.nd)) has_valid = true;
        if (!(f.has_nd && nd_in_type)) calc = false;
    }
    if (f.verdict == ANY && calc) calc = false;
    std::unique_ptr<R> b(R::Init(path, calc));
    if (f.verdict == INVALID) VF_CHECK(b == nullptr, "raster:accepted", "a raster was made of an invalid text (" + f.why + "): " + shown);
    if (f.verdict == VALID && has_valid) {
        VF_CHECK(b != nullptr, "raster:refused", "no raster was made of a complete text: " + shown);
        VF_CHECK(b->GetRows() == f.g.rows && b->GetCols() == f.g.cols && b->GetLayers() == 1, "raster:size", "size of raster: " + shown);
        VF_CHECK(close_enough(b->GetXllCenter(), f.g.xll, sc) && close_enough(b->GetYllCenter(), f.g.yll, sc) && b->GetCellWidth() == f.g.dx, "raster:location", "location of raster: " + shown);
        if (nd_in_type) VF_CHECK(ndeq((double) b->GetNoDataValue(), (double) (T) f.nd), "raster:nodata", Str() << "no-data of raster is " << +b->GetNoDataValue() << ": " << shown);
        for (int i = 0; i < f.g.n(); i++) {
            T got = b->GetValue(i / f.g.cols, i % f.g.cols);
            VF_CHECK(same<T>(got, f.v[i]) || (nd_in_type && ndeq((double) f.v[i], (double) (T) f.nd) && ndeq((double) got, (double) (T) f.nd)), "raster:cell", Str() << "cell " << i << " of raster is " << +got << ", expected " << +f.v[i] << ": " << shown);
        }
    }
    if (b) vf::tally("rasters made");
    vf::tally(f.verdict == VALID ? "must be loaded" : f.verdict == INVALID ? "must be refused" : "must not crash");
    if (f.verdict == INVALID) vf::tally("refused: " + f.why);
    vf::distinct(vf::hash_str(text));
}
template <class T> Grid<T> asc_grid(Rng& r) {
    GenOpt o;
    Grid<T> g = gen_grid<T>(r, o);
    if (sizeof(T) == 8 && std::numeric_limits<T>::is_integer) { if (std::fabs((double) g.nodata) > 9e15) g.nodata = 7; for (auto& x: g.v[0]) x = (T) (x / 4096); }
    return g;
}
template <class T> void text(vf::Case& c) {
    auto& r = c.r;
    Grid<T> g = asc_grid<T>(r);
    int faults = r.chance(.4) ? 0 : (int) r.range(1, 3);
    vf::desc(Str() << "text with " << faults << " faults " << Ty<T>::name());
    string t = compose(r, g, faults);
    vf::sample(t.substr(0, 200));
    check<T>(c, t, r.pick({"a.asc", "a.ASC", "b c.asc"}));
}
template <class T> void bytes(vf::Case& c) {
    auto& r = c.r;
    Grid<T> g = asc_grid<T>(r);
    vf::desc(Str() << "bytes " << Ty<T>::name());
    string t;
    if (r.chance(.2)) {
        size_t n = (size_t) r.below(300);
        bool ascii = r.chance(.5);
        for (size_t i = 0; i < n; i++) t += ascii ? "0123456789 \n.-eENCOLSRWXT_DAV#"[r.below(30)] : (char) r.below(256);
    } else {
        t = compose(r, g, (int) r.below(2));
        int k = (int) r.range(1, 4);
        for (int i = 0; i < k && !t.empty(); i++) {
            size_t p = (size_t) r.below(t.size());
            switch (r.below(5)) {
                case 0: t[p] = (char) r.below(256); break;
                case 1: t[p] = "0123456789 \n.-eEx"[r.below(17)]; break;
                case 2: t.erase(p, 1 + (size_t) r.below(4)); break;
                case 3: t.insert(p, 1, "0123456789 \n.-eEx#"[r.below(18)]); break;
                default: { size_t q = (size_t) r.below(t.size()); t.insert(p, t.substr(q, (size_t) r.below(20))); }
            }
        }
    }
    check<T>(c, t, "a.asc");
}
M_KIND(text, 3)
M_KIND(bytes, 1)
#endif
