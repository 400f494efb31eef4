// Runs the command-line tool built from the code under test.
#ifndef VF_PROC_HPP
#define VF_PROC_HPP
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include "vf.hpp"
extern char** environ;
namespace proc {
struct Result { int code; std::string out; }; // code: exit status, or 128 + signal
inline std::string show(const std::vector<std::string>& a) { std::string s; for (auto& x: a) s += (s.empty() ? "" : " ") + x; return s; }
inline std::string crash_name(const std::string& t) {
    size_t p = t.find("ERROR: AddressSanitizer");
    if (p != std::string::npos) { size_t e = t.find_first_of("\n", p); std::string w = t.substr(p + 24, std::min<size_t>(e - p - 24, 60)); size_t k = w.find_first_of(" :", 1); return "asan:" + w.substr(0, k); }
    if (t.find("runtime error:") != std::string::npos) return "ubsan";
    return "abnormal";
}
// A sanitizer report or a signal is a violation by itself.
inline std::string& tool() { static std::string t = "cli"; return t; }
inline Result run(const std::vector<std::string>& args, const std::string& cwd, int timeout = 40) {
    const char* w = getenv("VF_WORK");
    std::string exe = std::string(w ? w : ".") + "/" + tool(), log = vf::scratch() + "/.log";
    std::vector<std::string> env;
    for (char** e = environ; *e; e++) {
        std::string s = *e;
        if (s.compare(0, 13, "ASAN_OPTIONS=") && s.compare(0, 14, "UBSAN_OPTIONS=") && s.compare(0, 8, "VF_WORK=")) env.push_back(s);
    }
    env.push_back("ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:handle_abort=1:max_malloc_fill_size=4096:malloc_fill_byte=190:strict_string_checks=0:max_allocation_size_mb=1500:exitcode=99");
    env.push_back("UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=99");
    std::vector<char*> av, ev;
    av.push_back((char*) exe.c_str());
    for (auto& a: args) av.push_back((char*) a.c_str());
    av.push_back(nullptr);
    for (auto& a: env) ev.push_back((char*) a.c_str());
    ev.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
    pid_t pid;
    int rc = posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), ev.data());
    posix_spawn_file_actions_destroy(&fa);
    if (rc != 0) { fprintf(stderr, "cannot run %s: %s\n", exe.c_str(), strerror(rc)); _exit(3); }
    int st = 0;
    bool hung = false;
    timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    while (waitpid(pid, &st, WNOHANG) == 0) {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec - t0.tv_sec > timeout) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(1500);
    }
    Result r;
    vf::read_file(log, r.out);
    unlink(log.c_str());
    r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    vf::tally("runs of the tool");
    vf::tally("exit status " + std::to_string(r.code));
    if (hung) vf::fail("tool:hang", "the tool does not end: " + show(args));
    if (r.code == 99 || r.code >= 126 || r.code == 86) vf::fail("tool:" + crash_name(r.out), "the tool crashed (" + std::to_string(r.code) + "): " + show(args) + "\n" + r.out.substr(0, 6000));
    return r;
}
}
#endif
