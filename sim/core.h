// Common pieces of the simulator: seeded generator, plans, run results.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64;
using std::string; using std::vector;

inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
inline u64 hash_str(const string & s, u64 h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix64(h);
}

/// The only source of randomness: used by plan generators, never while a plan is executed.
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix64(seed ^ 0xabcdef12345ull)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool chance(unsigned percent) { return below(100) < percent; }
    bool permille(unsigned pm) { return below(1000) < pm; }
    template <class T> const T & pick(const vector<T> & v) { return v[below(v.size())]; }
};

typedef vector<string> Plan;

struct Violation { string kind, msg; };

/// counters and the event log live in memory shared with the driver, so that they survive a crash of the run
enum { MAX_CTR = 160, CTR_NAME = 40 };
struct Shared {
    u64 ev_hash; u64 n_events; u64 n_syscalls; u64 sim_ns; u64 line; u64 in_drain; u64 finished;
    u32 n_ctr; char names[MAX_CTR][CTR_NAME]; u64 vals[MAX_CTR];
    u32 n_viol; char viol_kind[8][24]; char viol_msg[8][1600];
    char note[512];
    u64 scratch[64];   // used by the interposed clocks and allocators (deterministic bookkeeping)
};
extern Shared * g_sh;
void count(const char * name, u64 n = 1);
void violation(const char * kind, const string & msg);
inline bool has_violation() { return g_sh->n_viol > 0; }
void ev(const string & s);            // append to the event log (hashed; printed when verbose)
extern bool g_verbose;

string esc(const string & s, size_t maxlen = 100000000);
string unesc(const string & s);
vector<string> split(const string & s, char sep = ' ');
string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));

// --- clocks (interposed) ---
extern i64 g_steady_ns;               // simulated monotonic clock
extern i64 g_wall_ns;                 // simulated wall clock
struct TickAt { long reads_left; i64 add_ns; };
extern vector<TickAt> g_ticks;        // advance the clock at the k-th next clock read
extern u64 g_midop_ticks;             // bumped when a tick fires inside the code under test
extern i64 g_midop_from, g_midop_to;  // clock values around the last such tick
extern void (*g_on_midop_tick)();

// --- allocation faults (interposed) ---
extern u64 g_blocks, g_moved;          // work of the code under test: executed basic blocks, bytes moved (flavour "cost")
extern int g_sut_depth;               // > 0: the code under test is running
extern long g_alloc_countdown;        // allocations until the next failure (-1: no fault armed)
extern long g_alloc_burst;            // how many consecutive ones fail
extern u64 g_alloc_calls, g_alloc_bytes, g_alloc_failed;
extern u64 g_alloc_min_size;          // only allocations of at least this size fail / count
extern i64 g_live_allocs, g_live_bytes;   // SUT allocations minus SUT frees
struct Sut { Sut() { ++g_sut_depth; } ~Sut() { --g_sut_depth; } };
struct Harness { int saved; Harness() : saved(g_sut_depth) { g_sut_depth = 0; } ~Harness() { g_sut_depth = saved; } };

// --- worlds ---
struct Profile { string world, name; };
bool generate(const string & profile, u64 seed, Plan & out);     // false: unknown profile
void execute(const Plan & plan);                                 // in a child process

bool gen_server(const string & profile, Rng & r, Plan & out);
void run_server(const Plan & plan);
bool gen_library(const string & profile, Rng & r, Plan & out);
void run_library(const Plan & plan);
bool gen_allocator(const string & profile, Rng & r, Plan & out);
void run_allocator(const Plan & plan);
bool gen_dict(const string & profile, Rng & r, Plan & out);
void run_dict(const Plan & plan);
bool gen_cost(const string & profile, Rng & r, Plan & out);
void run_cost(const Plan & plan);
bool gen_config(const string & profile, Rng & r, Plan & out);

u32 fnv1a(const string & key);
string make_key(const string & spec);      // "k3", "k3*250" (padded to 250 bytes) or "k3*250@100" (with text before it, too)
vector<string> twin_keys(Rng & r, size_t n); // keys of equal length and hash that differ at one place
string make_value(const string & spec);    // "<id>.<len>.<mode>"
bool parse_u64(const string & s, u64 & out);

} // namespace sim
