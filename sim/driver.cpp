// Driver: seeded search over plans, replay, minimisation. Each run executes in a forked child.
#include "core.h"
#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>

using namespace sim;

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Result { string kind, msg; vector<string> kinds; u64 hash = 0, events = 0, line = 0; string err; bool ok() const { return kind.empty(); } };

static int g_cpu_limit = 30;   // seconds; ordinary runs take milliseconds
static u64 g_last_ms = 0;
static int g_errfd = -1;

static Result run_plan(const Plan & plan, bool verbose = false) {
    memset((void *)g_sh, 0, sizeof(Shared));
    if (g_errfd < 0) g_errfd = memfd_create("err", 0);
    if (ftruncate(g_errfd, 0)) {} lseek(g_errfd, 0, SEEK_SET);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl; rl.rlim_cur = g_cpu_limit; rl.rlim_max = g_cpu_limit + 5; setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        alarm(g_cpu_limit * 6);
        g_verbose = verbose;
        if (!verbose) { dup2(g_errfd, 2); }
        execute(plan);
        g_sh->finished = 1;
        _exit(0);
    }
    int st = 0; struct rusage ru; memset(&ru, 0, sizeof ru); while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
    g_last_ms = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000ull + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000;
    Result r; r.hash = g_sh->ev_hash; r.events = g_sh->n_events; r.line = g_sh->line;
    for (u32 i = 0; i < g_sh->n_viol && i < 8; ++i) r.kinds.push_back(g_sh->viol_kind[i]);
    if (g_sh->n_viol) { r.kind = g_sh->viol_kind[0]; r.msg = g_sh->viol_msg[0]; }
    char b[20000]; lseek(g_errfd, 0, SEEK_SET); ssize_t n = verbose ? 0 : read(g_errfd, b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0; r.err.assign(b, n);
    string what;
    if (WIFSIGNALED(st)) { int s = WTERMSIG(st); what = (s == SIGXCPU || s == SIGALRM || (s == SIGKILL)) ? "hang" : "crash"; if (r.ok()) { r.kind = what; r.msg = fmt("killed by signal %d (%s)", s, strsignal(s)); } r.kinds.push_back(what); }
    else if (!g_sh->finished && !g_sh->n_viol) {
        what = "crash"; r.kind = what; r.msg = fmt("the process exited unexpectedly with status %d", WEXITSTATUS(st)); r.kinds.push_back(what);
    }
    if (what == "crash") {
        size_t p = r.err.find("ERROR: AddressSanitizer"); if (p == string::npos) p = r.err.find("terminate called");
        if (p != string::npos) r.msg += ": " + r.err.substr(p, std::min<size_t>(300, r.err.find('\n', p) - p));
        p = r.err.find("SUMMARY:"); if (p != string::npos) r.msg += " | " + r.err.substr(p, std::min<size_t>(300, r.err.find('\n', p) - p));
        for (auto & c : r.msg) if (c == '\n') c = ' ';
    }
    return r;
}

static Plan load(const string & file) { Plan p; std::ifstream f(file); string l; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') p.push_back(l); return p; }
static void save(const string & file, const Plan & p, const vector<string> & head) { std::ofstream f(file); for (auto & h : head) f << "# " << h << "\n"; for (auto & l : p) f << l << "\n"; }

static bool is_header(const string & l) { return l.compare(0, 6, "world ") == 0 || l.compare(0, 4, "arg ") == 0 || l.compare(0, 4, "cfg ") == 0 || l == "arg" || l == "start"; }

static Plan minimise(Plan p, const string & kind, double seconds, u64 & tries) {
    double end = now_s() + seconds;
    auto fails = [&](const Plan & q) { ++tries; Result r = run_plan(q); return std::find(r.kinds.begin(), r.kinds.end(), kind) != r.kinds.end(); };
    // cut the tail first
    size_t body = 0; while (body < p.size() && is_header(p[body])) ++body;
    size_t n = 2;
    for (;;) {
        vector<size_t> idx; for (size_t i = 0; i < p.size(); ++i) if (!is_header(p[i])) idx.push_back(i);
        if (idx.size() < 2 || now_s() > end) break;
        size_t chunk = std::max<size_t>(1, (idx.size() + n - 1) / n); bool reduced = false;
        for (size_t s = idx.size(); s > 0 && now_s() < end;) {
            size_t b = s > chunk ? s - chunk : 0; std::set<size_t> drop(idx.begin() + b, idx.begin() + s);
            Plan q; for (size_t i = 0; i < p.size(); ++i) if (!drop.count(i)) q.push_back(p[i]);
            if (fails(q)) { p = q; reduced = true; idx.clear(); for (size_t i = 0; i < p.size(); ++i) if (!is_header(p[i])) idx.push_back(i); s = std::min(b, idx.size()); }
            else s = b;
        }
        if (chunk == 1) { if (!reduced) break; }
        else n = reduced ? std::max<size_t>(2, n) : n * 2;
        if (chunk > 1 && !reduced && n > 2 * idx.size()) n = idx.size();
    }
    return p;
}

struct Ctl { volatile u64 stop; };

int main(int argc, char ** argv) {
    g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)g_sh, 0, sizeof(Shared));
    setenv("ASAN_OPTIONS", "detect_leaks=0", 0);
    if (argc < 2) return 3;
    string cmd = argv[1];
    if (const char * e = getenv("SIM_CPU")) g_cpu_limit = atoi(e);
    if (cmd == "gen" && argc >= 4) { Plan p; if (!generate(argv[2], strtoull(argv[3], nullptr, 10), p)) return 3; for (auto & l : p) std::cout << l << "\n"; return 0; }
    if (cmd == "replay" && argc >= 3) {
        Plan p = load(argv[2]); bool v = argc > 3 && !strcmp(argv[3], "-v");
        Result r = run_plan(p, v);
        printf("hash %016llx events %llu\n", (unsigned long long)r.hash, (unsigned long long)r.events);
        for (u32 i = 0; i < g_sh->n_viol && i < 8; ++i) printf("violation %s %s\n", g_sh->viol_kind[i], g_sh->viol_msg[i]);
        if (!r.ok() && g_sh->n_viol == 0) printf("violation %s %s\n", r.kind.c_str(), r.msg.c_str());
        if (v) for (u32 i = 0; i < g_sh->n_ctr; ++i) printf("  %s %llu\n", g_sh->names[i], (unsigned long long)g_sh->vals[i]);
        if (!r.err.empty() && argc > 3) printf("stderr: %s\n", r.err.c_str());
        return r.ok() ? 0 : 1;
    }
    if (cmd == "min" && argc >= 5) { // min <in> <out> <kind> [seconds]
        Plan p = load(argv[2]); u64 tries = 0; size_t before = p.size();
        Plan q = minimise(p, argv[4], argc > 5 ? atof(argv[5]) : 60, tries);
        Result r = run_plan(q), r2 = run_plan(q);
        vector<string> head; { std::ifstream f(argv[2]); string l; while (std::getline(f, l)) if (!l.empty() && l[0] == '#') head.push_back(l.substr(2)); }
        head.push_back(fmt("minimised from %zu to %zu lines in %llu runs", before, q.size(), (unsigned long long)tries));
        head.push_back("violation " + r.kind + ": " + r.msg);
        head.push_back(fmt("event log hash %016llx", (unsigned long long)r.hash));
        save(argv[3], q, head);
        bool same = r.hash == r2.hash && r.kinds == r2.kinds && std::find(r.kinds.begin(), r.kinds.end(), argv[4]) != r.kinds.end();
        printf("%s %016llx %s %s\n", same ? "stable" : "unstable", (unsigned long long)r.hash, r.kind.c_str(), r.msg.c_str());
        return same ? 0 : 2;
    }
    if (cmd == "run" && argc >= 8) { // run <profile> <seed0> <count> <seconds> <jobs> <outdir> [kinds]
        string profile = argv[2]; u64 seed0 = strtoull(argv[3], nullptr, 10), cnt = strtoull(argv[4], nullptr, 10); double secs = atof(argv[5]); int jobs = atoi(argv[6]); string out = argv[7];
        std::set<string> kinds; if (argc > 8) for (auto & k : split(argv[8], ',')) kinds.insert(k);
        Ctl * ctl = (Ctl *)mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        double t0 = now_s(); vector<pid_t> ws;
        for (int j = 0; j < jobs; ++j) {
            pid_t w = fork(); if (w) { ws.push_back(w); continue; }
            g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            std::map<string, u64> ctr; std::set<u64> hashes; u64 runs = 0, ns = 0, evs = 0, sys = 0, max_ms = 0, slowest = 0; std::map<string, u64> other; vector<string> viols; std::map<string, u64> runs_with;
            for (u64 i = j; i < cnt && now_s() - t0 < secs && !ctl->stop; i += jobs) {
                Plan p; if (!generate(profile, seed0 + i, p)) _exit(3);
                Result r = run_plan(p);
                ++runs; if (g_last_ms > max_ms) { max_ms = g_last_ms; slowest = seed0 + i; } ns += g_sh->sim_ns; evs += g_sh->n_events; sys += g_sh->n_syscalls; hashes.insert(r.hash);
                for (u32 k = 0; k < g_sh->n_ctr; ++k) { ctr[g_sh->names[k]] += g_sh->vals[k]; if (!strncmp(g_sh->names[k], "fault.", 6)) runs_with[g_sh->names[k]]++; }
                if (!r.ok()) {
                    string hit; for (auto & k : r.kinds) if (kinds.empty() || kinds.count(k)) { hit = k; break; }
                    if (hit.empty()) { other[r.kind + ": " + r.msg.substr(0, 120)]++; continue; }
                    string m = r.msg; for (u32 k = 0; k < g_sh->n_viol && k < 8; ++k) if (hit == g_sh->viol_kind[k]) { m = g_sh->viol_msg[k]; break; }
                    string f = out + fmt("/v_%s_%llu.plan", profile.c_str(), (unsigned long long)(seed0 + i));
                    save(f, p, {fmt("profile %s seed %llu", profile.c_str(), (unsigned long long)(seed0 + i)), "violation " + hit + ": " + m});
                    for (auto & c : m) if (c == '\n') c = ' ';
                    viols.push_back(fmt("viol\t%llu\t%s\t%s\t", (unsigned long long)(seed0 + i), hit.c_str(), f.c_str()) + m);
                    if (viols.size() >= (getenv("SIM_ALL") ? 200 : 2)) { ctl->stop = !getenv("SIM_ALL"); break; }
                }
            }
            std::ofstream f(out + fmt("/w_%s_%d.txt", profile.c_str(), j));
            f << "runs\t" << runs << "\nsim_ns\t" << ns << "\nevents\t" << evs << "\nsyscalls\t" << sys << "\nmaxms\t" << max_ms << "\nslowest\t" << slowest << "\n";
            for (auto & c : ctr) f << "ctr\t" << c.first << "\t" << c.second << "\n";
            for (auto & c : runs_with) f << "rw\t" << c.first << "\t" << c.second << "\n";
            for (auto & o : other) { string m = o.first; for (auto & c : m) if (c == '\n') c = ' '; f << "other\t" << o.second << "\t" << m << "\n"; }
            for (auto & v : viols) f << v << "\n";
            for (u64 h : hashes) f << "h\t" << h << "\n";
            f.close(); _exit(0);
        }
        int bad = 0; for (pid_t w : ws) { int st; waitpid(w, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
        printf("elapsed %.3f\n", now_s() - t0);
        return bad ? 3 : 0;
    }
    return 3;
}
