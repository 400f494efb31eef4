// C30: option maps, logs, messages, addresses
#include "vf.hpp"
#include "basic.h"
#include "utils_string.h"
#include "utils_array.h"
#include <ctime>
#include <omp.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace ccgl;
using vf::Str;
using std::string;
using std::map;
static string slurp(const string& p) { string b; vf::read_file(p, b); return b; }
const char* vf_rule = "Random option maps merged and updated over several steps are compared with a model map, and their sources stay as they were; random messages (empty, of several lines, long, with bytes above 127) are logged to new, existing, unterminated and unwritable files whose bytes are compared before and after, the time stamp with the clock; random arrays are written as text and parsed back; random and mutated texts are judged as IPv4 addresses by an independent parser; exception texts are searched for their parts; distinct inputs are counted.";
void vf_init() { if (!freopen("/dev/null", "w", stdout)) {} vf::drop_privileges(); }
static string word(vf::Rng& r, int maxlen = 12) {
    string s;
    int n = (int) r.below(maxlen + 1);
    for (int i = 0; i < n; i++) s += (char) (r.chance(.05) ? r.range(128, 255) : r.chance(.1) ? ' ' : r.range(33, 126));
    return s;
}
typedef map<string, string> SM;
static string show(const STRING_MAP& m) { SM s(m.begin(), m.end()); Str o; for (auto& k: s) o << vf::q(k.first) << "=" << vf::q(k.second) << ";"; return o; }
VF_KIND_LEAK(maps, 6) {
    auto& r = c.r;
    STRING_MAP m;
    SM want;
    std::vector<string> keys;
    int nk = (int) r.range(1, 8);
    for (int i = 0; i < nk; i++) keys.push_back(word(r, 6));
    for (int i = 0, n = (int) r.range(1, 10); i < n; i++) {
        if (r.chance(.5)) {
            string k = r.pick(keys), v = word(r);
            vf::desc("update " + vf::q(k) + " to " + vf::q(v) + " in " + show(m));
            utils_string::UpdateStringMap(m, k, v);
            want[k] = v;
        } else {
            STRING_MAP in;
            for (int q = 0, e = (int) r.below(6); q < e; q++) in[r.pick(keys)] = word(r);
            STRING_MAP before = in;
            vf::desc("merge " + show(in) + " into " + show(m));
            utils_string::CopyStringMap(in, m);
            VF_CHECK(in == before, "map-source", "the map merged was changed");
            for (auto& q: before) want[q.first] = q.second;
        }
        VF_CHECK(SM(m.begin(), m.end()) == want, "map-result", "the map is " + show(m));
    }
    utils_string::CopyStringMap(m, m);
    VF_CHECK(SM(m.begin(), m.end()) == want, "map-self", "a map merged into itself is " + show(m));
    vf::distinct(vf::hash_str(show(m)));
    vf::tally("option_maps");
}
VF_KIND_LEAK(log, 3) {
    auto& r = c.r;
    string path = vf::scratch() + "/" + r.pick({"a.log", "b c.txt", "x"}), have;
    int state = (int) r.below(5);
    if (state == 1 || state == 2) { have = "first\nsecond" + string(state == 1 ? "\n" : "") + word(r, 300); vf::write_file(path, have); }
    if (state == 3) { path = vf::scratch() + "/none/x.log"; }
    if (state == 4) { have = "locked\n"; vf::write_file(path, have); chmod(path.c_str(), 0444); }
    bool can = state < 3;
    for (int i = 0, n = (int) r.range(1, 4); i < n; i++) {
        string msg = r.chance(.01) ? string((size_t) r.range(5000, 100000), 'm') : word(r, 40);
        if (r.chance(.1)) msg += "\nmore";
        vf::desc("log " + vf::q(msg) + " to " + path);
        time_t t0 = time(nullptr);
        Log(msg, path);
        time_t t1 = time(nullptr);
        if (!can) { VF_CHECK(state == 4 ? slurp(path) == have : access(path.c_str(), F_OK) != 0, "log-refused", "a file that cannot be written was changed"); vf::tally("logs_unwritable"); continue; }
        string now = slurp(path);
        VF_CHECK(now.size() > have.size() && now.compare(0, have.size(), have) == 0, "log-kept", "what the log held is not kept");
        string add = now.substr(have.size());
        VF_CHECK(add.size() >= 24 && add.substr(24) == ": " + msg + "\n", "log-line", "the log got " + vf::q(add));
        bool stamp = false;
        for (time_t t = t0 - 1; t <= t1 + 1; t++) { struct tm b; char x[64]; localtime_r(&t, &b); asctime_r(&b, x); if (add.compare(0, 24, string(x, 24)) == 0) stamp = true; }
        VF_CHECK(stamp, "log-time", "the time logged is " + add.substr(0, 24));
        have = now;
        vf::tally("logged_lines");
        vf::distinct(vf::hash_str(msg));
    }
    chmod(path.c_str(), 0644);
}
VF_KIND_LEAK(arrays, 2) {
    auto& r = c.r;
    int rows = r.chance(.02) ? (int) r.range(100, 3000) : (int) r.range(1, 12), cols = (int) r.range(1, 9);
    bool one = r.chance(.4);
    if (one) cols = 1;
    float** d = nullptr;
    VF_CHECK(utils_array::Initialize2DArray(rows, cols, d, 0.f), "init", "an array could not be allocated");
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) d[i][j] = r.chance(.3) ? (float) r.range(-9999, 9999) : (float) (r.real(-1, 1) * std::pow(10., (double) r.range(-30, 30)));
    string path = vf::scratch() + "/" + r.pick({"t.txt", "u"});
    if (r.chance(.3)) vf::write_file(path, string(500, 'z') + "\n");
    vf::desc(Str() << (one ? "1D" : "2D") << " array of " << rows << "x" << cols << " to text, first " << d[0][0]);
    if (one) utils_array::Output1DArrayToTxtFile(rows, d[0], path.c_str());
    else utils_array::Output2DArrayToTxtFile(rows, cols, (const float**) d, path.c_str());
    std::istringstream f(slurp(path));
    string line;
    int i = 0;
    for (; std::getline(f, line); i++) {
        std::istringstream l(line);
        string t;
        int j = 0;
        for (; l >> t; j++) {
            char* e = nullptr;
            float x = strtof(t.c_str(), &e);
            VF_CHECK(i < rows && j < cols, "text-size", Str() << "a value too many at " << i << "," << j);
            VF_CHECK(e && !*e && std::fabs((double) x - d[i][j]) <= 5.1e-6 * std::fabs((double) d[i][j]) + 1e-44, "text-value", Str() << "element " << i << "," << j << " is written as " << vf::q(t) << ", it is " << d[i][j]);
        }
        VF_CHECK(j == cols, "text-size", Str() << j << " values in line " << i);
    }
    VF_CHECK(i == rows, "text-size", Str() << i << " lines");
    utils_array::Release2DArray(d);
    vf::tally("arrays_written");
    vf::distinct(vf::mix(rows, cols));
}
static bool is_ip(const string& s) { // four numbers of at least one digit from 0 to 255 between dots
    int parts = 0;
    size_t p = 0;
    for (;;) {
        size_t e = p;
        unsigned long v = 0;
        while (e < s.size() && s[e] >= '0' && s[e] <= '9') { if (v < 100000) v = v * 10 + (s[e] - '0'); e++; }
        if (e == p || v > 255) return false;
        parts++;
        if (e == s.size()) return parts == 4;
        if (s[e] != '.') return false;
        p = e + 1;
    }
}
VF_KIND(ip, 5) {
    auto& r = c.r;
    for (int k = 0; k < 20; k++) {
        Str b;
        int n = r.chance(.8) ? 4 : (int) r.below(7);
        for (int i = 0; i < n; i++) {
            if (i) b << ".";
            switch (r.below(12)) {
                case 0: b << r.pick({"256", "999", "1000", "4294967296", "4294967297", "2147483648", "18446744073709551617", "99999999999999999999999"}); break;
                case 1: b << r.pick({"00", "007", "0255", "000000000001"}); break;
                case 2: b << r.range(200, 300); break;
                default: b << r.below(256);
            }
        }
        string s = b;
        if (r.chance(.3)) { // damaged
            int q = (int) r.range(1, 2);
            while (q--) {
                size_t at = r.below(s.size() + 1);
                const char* ch = ".. -+x0a1,:\t";
                if (r.chance(.5) || at == s.size()) s.insert(at, 1, ch[r.below(12)]);
                else if (r.chance(.5)) s.erase(at, 1);
                else s[at] = ch[r.below(12)];
            }
        }
        vf::desc("address " + vf::q(s));
        std::vector<char> h(s.c_str(), s.c_str() + s.size() + 1); // just the text, so that reading past it is seen
        bool got = IsIpAddress(h.data());
        VF_CHECK(got == is_ip(s), got ? "ip-accepted" : "ip-refused", vf::q(s) + (got ? " was accepted as an address" : " was refused as an address"));
        vf::tally(got ? "addresses" : "no_addresses");
        vf::distinct(vf::hash_str(s));
    }
}
VF_KIND_LEAK(exceptions, 1) {
    auto& r = c.r;
    string a = word(r, 30), f = word(r, 30), m = word(r, 200);
    vf::desc("exception " + vf::q(a) + vf::q(f) + vf::q(m));
    string want = "Class:" + a + "\nFunction:" + f + "\nMessage:" + m;
    auto lines = [](const string& s, const string& a, const string& f, const string& m) { // the three parts in this order
        size_t p = s.find(a), q = p == string::npos ? p : s.find(f, p + a.size());
        return q != string::npos && s.find(m, q + f.size()) != string::npos;
    };
    try { throw ModelException(a, f, m); }
    catch (std::exception& e) {
        ModelException* x = dynamic_cast<ModelException*>(&e);
        VF_CHECK(x && lines(e.what(), a, f, m) && x->ToString() == e.what(), "exception-text", "the text is " + vf::q(e.what()));
        ModelException copy(*x);
        VF_CHECK(string(copy.what()) == e.what(), "exception-copy", "a copy has another text");
    }
    vf::tally("exceptions");
    vf::distinct(vf::hash_str(want));
}
VF_KIND(threads, 1) {
    auto& r = c.r;
    int n = (int) r.range(1, 64), before = omp_get_max_threads(), m = -(int) r.range(1, 100);
    vf::desc(Str() << "thread number " << n);
    SetOpenMPThread(n);
    VF_CHECK(omp_get_max_threads() == n, "threads-set", Str() << "parallel regions use " << omp_get_max_threads() << " threads");
    SetOpenMPThread(m);
    VF_CHECK(omp_get_max_threads() == n, "threads-negative", Str() << "a negative number changed the threads to " << omp_get_max_threads());
    VF_CHECK(GetAvailableThreadNum() >= 1, "threads-available", "no processor");
    SetDefaultOpenMPThread();
    VF_CHECK(omp_get_max_threads() >= 1 && omp_get_max_threads() <= std::max(1, GetAvailableThreadNum()), "threads-default", Str() << omp_get_max_threads() << " threads by default");
    omp_set_num_threads(before);
    vf::tally("thread_numbers");
}
