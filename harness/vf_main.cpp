#include "vf.hpp"
#ifdef VF_COV
extern "C" void __gcov_dump();
#endif
#ifdef VF_MEMCHECK
#include <valgrind/memcheck.h>
#endif
#include <algorithm>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" int __lsan_do_recoverable_leak_check(void);
#define VF_ASAN 1
#endif

namespace vf {
static const unsigned UNPRIV = 61234; // owns nothing but its scratch directory
static FILE* g_out = nullptr;
static std::string g_scratch_root, g_scratch;
static bool g_scratch_used = false, g_thorough = false, g_verbose = false;
static std::map<std::string, uint64_t> g_tally;
static const size_t HCAP = 1 << 21; // fixed table: recording must not look like a leak
static uint64_t* g_distinct = nullptr;
static size_t g_ndistinct = 0;
static std::vector<std::string> g_samples;
static uint64_t g_sample_no = 0, g_evals = 0, g_fails = 0;
static Case* g_case = nullptr;
static std::string g_extra;
struct Progress { volatile uint64_t seq, case_id; volatile int64_t t0; char kind[64]; char desc[1024]; };
static Progress* g_prog = nullptr;

std::vector<Kind>& kinds() { static std::vector<Kind> k; return k; }
bool thorough() { return g_thorough; }
bool verbose() { return g_verbose; }

static std::string json(const std::string& s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c: s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}
void fail_soft(const std::string& sig, const std::string& msg) {
    g_fails++;
    std::string m = msg;
    if (m.size() > 3000) m.resize(3000);
    fprintf(g_out, "{\"t\":\"fail\",\"sig\":%s,\"msg\":%s,\"case\":%llu,\"kind\":%s,\"desc\":%s}\n", json(sig).c_str(), json(m).c_str(),
            (unsigned long long) (g_case ? g_case->id : 0), json(g_case ? g_case->kind : "").c_str(), json(g_prog->desc).c_str());
    fflush(g_out);
}
void fail(const std::string& sig, const std::string& msg) { fail_soft(sig, msg); throw Abandon(); }
void tally(const std::string& key, uint64_t n) { g_tally[key] += n; }
void distinct(uint64_t h) {
    if (!h) h = 1;
    if (g_ndistinct > HCAP / 4 * 3) return;
    for (size_t i = h & (HCAP - 1);; i = (i + 1) & (HCAP - 1)) {
        if (g_distinct[i] == h) return;
        if (!g_distinct[i]) { g_distinct[i] = h; g_ndistinct++; return; }
    }
}
void sample(const std::string& s) {
    g_sample_no++;
    if (g_samples.size() < 4) { g_samples.push_back(s.substr(0, 600)); return; }
    if ((g_sample_no & (g_sample_no - 1)) == 0) g_samples[g_sample_no % 4] = s.substr(0, 600);
}
void desc(const std::string& s) {
    if (g_verbose) fprintf(stderr, "[desc] %s\n", s.c_str());
    size_t n = s.size() < sizeof(g_prog->desc) - 1 ? s.size() : sizeof(g_prog->desc) - 1;
    memcpy(g_prog->desc, s.data(), n);
    g_prog->desc[n] = 0;
}
static void rm_below(const std::string& d) {
    DIR* dp = opendir(d.c_str());
    if (!dp) return;
    while (dirent* e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); rm_below(p); rmdir(p.c_str()); }
        else unlink(p.c_str());
    }
    closedir(dp);
}
void rm_tree(const std::string& d) {
    if (g_scratch_root.size() < 5 || d.compare(0, g_scratch_root.size(), g_scratch_root) != 0) abort();
    rm_below(d);
    rmdir(d.c_str());
}
void drop_privileges() {
    if (chown(g_scratch.c_str(), UNPRIV, UNPRIV) || setgroups(0, nullptr) || setresgid(UNPRIV, UNPRIV, UNPRIV) || setresuid(UNPRIV, UNPRIV, UNPRIV)) {
        fprintf(stderr, "cannot become an unprivileged user\n");
        _exit(3);
    }
}
const std::string& scratch() { g_scratch_used = true; return g_scratch; }
void write_file(const std::string& path, const std::string& bytes) {
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) { fprintf(stderr, "harness cannot write %s\n", path.c_str()); _exit(3); }
    fwrite(bytes.data(), 1, bytes.size(), f);
    fclose(f);
}
bool read_file(const std::string& path, std::string& bytes) {
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return false;
    bytes.clear();
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) bytes.append(b, n);
    fclose(f);
    return true;
}

static size_t live_bytes() {
#ifdef VF_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
static uint64_t g_seed = 1;

// returns true if a violation was recorded
static bool exec_case(const Kind& k, uint64_t id) {
    uint64_t f0 = g_fails;
    {
        Case c;
        c.r = Rng(mix(mix(0x5eed, g_seed), id));
        c.r.next();
        c.id = id;
        c.kind = k.name;
        c.verbose = g_verbose;
        g_case = &c;
        try {
            k.fn(c);
        } catch (const Abandon&) {
        } catch (const std::exception& e) {
            int st = 0;
            char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
            fail_soft(std::string("exception:") + k.name + ":" + (n ? n : "?"), std::string("unexpected exception ") + (n ? n : "?") + ": " + e.what());
            free(n);
        } catch (...) {
            fail_soft(std::string("exception:") + k.name, "unexpected exception of unknown type");
        }
        g_case = nullptr;
    }
    if (g_scratch_used) { rm_below(g_scratch); g_scratch_used = false; }
    return g_fails != f0;
}
static void run_case(const Kind& k, uint64_t id) {
    g_prog->case_id = id;
    snprintf(g_prog->kind, sizeof g_prog->kind, "%s", k.name.c_str());
    g_prog->desc[0] = 0;
    g_prog->t0 = (int64_t) time(nullptr);
    g_prog->seq = g_prog->seq + 1;
    size_t b0 = live_bytes();
#ifdef VF_MEMCHECK
    unsigned e0 = VALGRIND_COUNT_ERRORS;
#endif
    bool failed = exec_case(k, id);
    if (const char* slow = getenv("VF_SLOW")) { // for the author: cases that take long
        if (time(nullptr) - g_prog->t0 >= 4) if (FILE* f = fopen(slow, "a")) { fprintf(f, "%lld s case %llu %s %.200s\n", (long long) (time(nullptr) - g_prog->t0), (unsigned long long) id, k.name.c_str(), g_prog->desc); fclose(f); }
    }
#ifdef VF_MEMCHECK
    if (VALGRIND_COUNT_ERRORS != e0) {
        Case c; c.id = id; c.kind = k.name; g_case = &c;
        fail_soft("memcheck:" + k.name.substr(0, k.name.find('<')), (std::string) (Str() << "Valgrind memcheck reports " << VALGRIND_COUNT_ERRORS - e0 << " errors (see the log of a replay): " << g_prog->desc));
        g_case = nullptr;
    }
    tally("sequences under memcheck");
#endif
    g_evals++;
    tally("kind." + k.name);
    if (g_prog->desc[0]) { sample(k.name + ": " + std::string(g_prog->desc)); }
    if (k.leakcheck && !failed && live_bytes() > b0) {
        // First-use allocations and bookkeeping settle; a leak grows again on every repetition.
        bool grows = true;
        size_t g = SIZE_MAX;
        for (int i = 0; i < 6 && grows; i++) {
            size_t x = live_bytes();
            if (exec_case(k, id)) { return; }
            size_t y = live_bytes();
            if (i >= 2) { grows = y > x; if (grows) g = std::min(g, y - x); }
        }
        if (grows) { // not memory of threads that are still about to end: it must go on growing, and stay
            const int reps = 16;
            usleep(20000);
            size_t x = live_bytes();
            for (int i = 0; i < reps; i++) if (exec_case(k, id)) { return; }
            for (int i = 0; i < 50 && grows; i++) { grows = live_bytes() >= x + reps * g; if (grows && i < 49) usleep(i < 10 ? 2000 : 10000); }
        }
        tally("leak_repeat_probes");
        if (grows) {
            std::string d = g_prog->desc;
            // the class of the case, without its numbers, identifies the leak
            size_t p = d.find('|');
            std::string cls = p == std::string::npos ? k.name : d.substr(0, p);
            Case c; c.id = id; c.kind = k.name; g_case = &c;
            fail_soft("leak:" + k.name + ":" + cls, (std::string) (Str() << "memory still allocated grows by " << g << " bytes every time the case runs: " << d));
            g_case = nullptr;
            if (g_verbose) {
#ifdef VF_ASAN
                __lsan_do_recoverable_leak_check();
#endif
            }
        }
    }
}
}
using namespace vf;
int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
    g_seed = num("--seed", 1);
    uint64_t worker = num("--worker", 0), nworkers = num("--nworkers", 1), start = num("--start", 0), ncases = num("--ncases", 100);
    double budget = (double) num("--budget", 600);
    g_thorough = a["--tier"] == "thorough";
    g_verbose = a.count("--only") > 0;
    g_scratch_root = a["--scratch"];
    if (g_scratch_root.empty()) { fprintf(stderr, "--scratch required\n"); return 3; }
    g_scratch = g_scratch_root + "/w" + std::to_string(worker);
    mkdir(g_scratch_root.c_str(), 0755);
    mkdir(g_scratch.c_str(), 0755);
    rm_below(g_scratch); // what a worker that was stopped left behind
    g_out = a.count("--out") ? fopen(a["--out"].c_str(), "a") : stdout;
    if (!g_out) return 3;
    std::string prog = a.count("--progress") ? a["--progress"] : g_scratch_root + "/progress" + std::to_string(worker);
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress))) return 3;
    g_prog = (Progress*) mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (g_prog == MAP_FAILED) return 3;
    g_distinct = (uint64_t*) mmap(nullptr, HCAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_samples.reserve(8);
    // deterministic order of kinds whatever the link order
    std::vector<Kind> ks;
    std::vector<Kind> probes;
    for (auto& k: kinds()) (k.weight < 0 ? probes : ks).push_back(k);
    auto byname = [](const Kind& x, const Kind& y) { return x.name < y.name; };
    std::sort(ks.begin(), ks.end(), byname);
    std::sort(probes.begin(), probes.end(), byname);
    double tot = 0;
    for (auto& k: ks) tot += k.weight;
    FILE* hashf = a.count("--out") ? fopen((a["--out"] + ".hash").c_str(), "ab") : nullptr; // before privileges may be dropped
    vf_init();
    time_t t0 = time(nullptr);
    bool cut = false;
    auto choose = [&](uint64_t id) -> const Kind& {
        if (id < probes.size()) return probes[id];
        Rng r(mix(mix(0xC0FFEE, g_seed), id));
        double u = r.unit() * tot;
        for (auto& k: ks) { if ((u -= k.weight) < 0) return k; }
        return ks.back();
    };
    if (a.count("--only")) {
        uint64_t id = num("--only", 0);
        run_case(choose(id), id);
    } else {
        for (uint64_t id = start; id < ncases; id++) {
            if (id % nworkers != worker) continue;
            if ((double) (time(nullptr) - t0) > budget) { cut = true; break; }
            if (id >= probes.size() && ks.empty()) break;
            run_case(choose(id), id);
        }
    }
    fprintf(g_out, "{\"t\":\"sum\",\"evals\":%llu,\"cut\":%s,\"rule\":%s,\"tally\":{", (unsigned long long) g_evals, cut ? "true" : "false", json(vf_rule).c_str());
    bool first = true;
    for (auto& kv: g_tally) { fprintf(g_out, "%s%s:%llu", first ? "" : ",", json(kv.first).c_str(), (unsigned long long) kv.second); first = false; }
    fprintf(g_out, "},\"samples\":[");
    first = true;
    for (auto& s: g_samples) { fprintf(g_out, "%s%s", first ? "" : ",", json(s).c_str()); first = false; }
    fprintf(g_out, "]}\n");
    fclose(g_out);
    if (hashf) {
        for (size_t i = 0; i < HCAP; i++) if (g_distinct[i]) fwrite(&g_distinct[i], 8, 1, hashf);
        fclose(hashf);
    }
    rm_tree(g_scratch);
    fflush(stdout);
#ifdef VF_COV
    __gcov_dump();
#endif
    _exit(42); // nothing else means that all went to the end
}
