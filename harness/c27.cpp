// C27: text file loading
#include "vf.hpp"
#include "utils_filesystem.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace ccgl;
using namespace utils_filesystem;
using vf::Str;
using std::string;
const char* vf_rule = "Random text files (LF, CRLF and mixed line ends, blank lines of every white space, comments, long lines, bytes above 127, no final line end, empty files, up to megabytes), absent, protected and directory paths, with previous contents in the result; the lines are compared with an independent splitting of the same bytes; distinct file contents are counted.";
void vf_init() { if (!freopen("/dev/null", "w", stdout)) {} vf::drop_privileges(); }
VF_KIND(text, 10) {
    auto& r = c.r;
    string path = vf::scratch() + "/" + r.pick({"a.txt", "a b", "x.y.asc", ".h"}), bytes;
    std::vector<string> want;
    int n = r.chance(.001) ? (int) r.range(60000, 140000) : r.chance(.03) ? (int) r.range(1000, 20000) : (int) r.below(14), mode = (int) r.below(3);
    for (int i = 0; i < n; i++) {
        string pre, body, post;
        int a = (int) r.below(r.chance(.5) ? 1 : 4), b = (int) r.below(r.chance(.5) ? 1 : 4);
        for (int k = 0; k < a; k++) pre += " \t"[r.below(2)];
        for (int k = 0; k < b; k++) post += " \t\r"[r.below(3)];
        switch (r.below(6)) {
            case 0: break;
            case 1: body = "#" + string(r.pick({"", " comment", "# x"})); break;
            case 2: body = "key\tvalue = 1 # no comment"; break;
            case 3: { int m = n < 1000 && r.chance(.02) ? (int) r.range(5000, 200000) : (int) r.range(1, 60); for (int k = 0; k < m; k++) body += (char) (k % 7 == 3 ? ' ' : r.chance(.1) ? r.range(128, 255) : r.range(33, 126)); break; }
            default: body = Str() << r.range(-1000, 1000) << " " << r.real(-5, 5);
        }
        string eol = mode == 0 ? "\n" : mode == 1 ? "\r\n" : r.chance(.5) ? "\n" : "\r\n";
        if (i + 1 == n && r.chance(.5)) eol = r.chance(.2) ? "\r" : "";
        bytes += pre + body + post + eol;
        size_t s = 0, e = body.size();
        while (s < e && strchr(" \t\r\n", body[s])) s++;
        while (e > s && strchr(" \t\r\n", body[e - 1])) e--;
        string tr = body.substr(s, e - s);
        if (!tr.empty() && tr[0] != '#') want.push_back(tr);
    }
    vf::write_file(path, bytes);
    vf::distinct(vf::hash_str(bytes));
    vf::desc(Str() << "text file of " << n << " lines " << vf::q(bytes));
    std::vector<string> got;
    if (r.chance(.4)) got.assign(r.below(4) + 1, "old");
    bool ok = LoadPlainTextFile(path, got);
    VF_CHECK(ok, "fails", Str() << "LoadPlainTextFile failed on " << n << " lines");
    for (size_t i = 0; i < want.size() && i < got.size(); i++) VF_CHECK(got[i] == want[i], "line", Str() << "line " << i << " is " << vf::q(got[i]) << " expected " << vf::q(want[i]));
    VF_CHECK(got.size() == want.size(), "count", Str() << got.size() << " lines loaded, " << want.size() << " expected");
    string again;
    vf::read_file(path, again);
    VF_CHECK(again == bytes, "modified", "LoadPlainTextFile changed the file");
    vf::tally("lines compared", want.size());
}
VF_KIND(unreadable, 1.5) {
    auto& r = c.r;
    string p = vf::scratch() + "/f";
    int what = (int) r.below(5);
    switch (what) {
        case 0: break;
        case 1: mkdir(p.c_str(), 0755); break;
        case 2: vf::write_file(p, "secret\n"); chmod(p.c_str(), 0); break;
        case 3: if (symlink("nowhere", p.c_str())) return; break;
        default: p = ""; break;
    }
    vf::desc(Str() << "LoadPlainTextFile of " << (what == 0 ? "an absent file" : what == 1 ? "a directory" : what == 2 ? "a protected file" : what == 3 ? "a dangling link" : "an empty path"));
    std::vector<string> got;
    if (r.chance(.5)) got.push_back("old");
    alarm(20); // "promptly"
    bool ok = LoadPlainTextFile(p, got);
    alarm(0);
    VF_CHECK(!ok, "reports-success", Str() << "case " << what << " reported success");
    VF_CHECK(got.empty(), "stale", Str() << "case " << what << " left " << got.size() << " lines in the result");
    vf::tally("unreadable paths");
    vf::distinct((uint64_t) what * 2 + got.size());
}
VF_KIND_LEAK(leaks, .3) {
    string p = vf::scratch() + "/f";
    vf::write_file(p, "a\nb\n");
    vf::desc("load|");
    std::vector<string> v;
    LoadPlainTextFile(p, v); LoadPlainTextFile(p + "x", v); LoadPlainTextFile(vf::scratch(), v);
    (void) c;
    vf::tally("leak checks");
}
