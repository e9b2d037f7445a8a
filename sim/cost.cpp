// Cost world: the work of each library call, measured in executed basic blocks of the code under test (compiler instrumentation, flavour "cost";
// zero in the other flavours), with many items, nearly full tables, growing tables, fragmented and exhausted memory.
#include "lib_api.h"
#include <algorithm>

namespace sim {

u64 g_blocks = 0, g_moved = 0;

namespace {

/// generous bounds, far above what is needed and far below anything proportional to the number of items or pages
enum : u64 { AVG_BOUND = 8000, AVG_PER_EVICTED = 3000, OP_BOUND = 5000000, PER_EVICTED = 10000 };

struct CostWorld {
    const Plan & plan; u64 mem = 64 << 20, page = 1 << 20, hash = 16; bool evict = true, c_api = false; LibCache * c = nullptr; u64 items_max = 0, phase_sum = 0, phase_n = 0, worst = 0;
    explicit CostWorld(const Plan & p) : plan(p) {}
    static string key(u64 k) { return fmt("key%llu", (unsigned long long)k); }

    template <class F> void op(const char * what, F f) {
        g_evicted.clear(); const u64 a0 = g_alloc_bytes, b0 = g_blocks; f(); u64 cost = g_blocks - b0;
        const u64 fresh = (g_alloc_bytes - a0) / 2, allowed = PER_EVICTED * g_evicted.size() + fresh; // a new table has to be filled: half a block per byte of it
        if (fresh) count("operations_that_allocated"); count("operations_measured");
        const u64 own = cost > allowed ? cost - allowed : 0; worst = std::max(worst, own);
        if (own > OP_BOUND) violation("cost", fmt("one %s took %llu blocks of work (%llu items evicted by it, %llu items stored before)", what, (unsigned long long)cost, (unsigned long long)g_evicted.size(), (unsigned long long)items_max));
        const u64 free_of_charge = AVG_PER_EVICTED * g_evicted.size() + fresh; phase_sum += cost > free_of_charge ? cost - free_of_charge : 0; phase_n += 1;
    }
    void one(int verb, u64 k, u64 size) {
        const string ky = key(k); const u32 h = fnv1a(ky);
        switch (verb) {
            case 0: { string v(size, 'x'); op("set", [&] { c->store(LV_SET, ky, h, v, 0, 0, 0); }); items_max = std::max(items_max, ++stored); break; }
            case 1: op("get", [&] { c->get(ky, h, true); }); break;
            case 2: op("delete", [&] { c->del(ky, h); }); break;
            case 3: op("touch", [&] { c->touch(ky, h, 0); }); break;
            case 4: { string v = fmt("%llu", (unsigned long long)k); op("set", [&] { c->store(LV_SET, ky, h, v, 0, 0, 0); }); ++stored; items_max = std::max(items_max, stored); if (!has_violation()) op("incr", [&] { c->arith(true, ky, h, 1); }); break; }
            case 5: { string v(size % 100 + 1, 'y'); op("append", [&] { c->store(LV_APPEND, ky, h, v, 0, 0, 0); }); break; }
            case 6: { string v(size, 'z'); op("add", [&] { c->store(LV_ADD, ky, h, v, 0, 0, 0); }); items_max = std::max(items_max, ++stored); break; }
            default: { string v(size, 'r'); op("replace", [&] { c->store(LV_REPLACE, ky, h, v, 0, 0, 0); }); break; }
        }
    }
    u64 stored = 0;
    void step(const vector<string> & a) {
        auto num = [&](size_t i) -> u64 { return i < a.size() ? strtoull(a[i].c_str(), nullptr, 10) : 0; };
        // run <verb or 9: mixed> <first key> <operations> <keys> <size> <size spread> <order: 0 ascending, else scattered> [stride]
        if (a[0] != "run") return;
        const u64 verb = num(1), first = num(2), n = num(3), keys = std::max<u64>(1, num(4)), size = std::max<u64>(1, num(5)), spread = num(6), order = num(7), stride = std::max<u64>(1, num(8)); phase_sum = phase_n = worst = 0;
        for (u64 i = 0; i < n && !has_violation(); ++i) {
            const u64 x = mix64(i * 2654435761u + order), k = first + (order ? x % keys : i % keys) * stride; static const int mixed[] = {0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7};
            one(verb == 9 ? mixed[(x >> 40) % 12] : (int)verb, k, size + (spread ? (x >> 20) % spread : 0));
        }
        const u64 avg = phase_n ? phase_sum / phase_n : 0; ev(fmt("run %s n %llu: average %llu worst %llu", a[1].c_str(), (unsigned long long)phase_n, (unsigned long long)avg, (unsigned long long)worst));
        if (phase_n >= 500 && avg > AVG_BOUND) violation("cost", fmt("%llu operations took %llu blocks of work on average", (unsigned long long)phase_n, (unsigned long long)avg));
        if (worst > g_sh->scratch[40]) g_sh->scratch[40] = worst;

    }
    void run() {
        size_t i = 0;
        for (; i < plan.size(); ++i) {
            vector<string> a = split(plan[i]); if (a[0] == "start") { ++i; break; } if (a[0] != "cfg" || a.size() < 3) continue;
            u64 v = strtoull(a[2].c_str(), nullptr, 10); if (a[1] == "mem") mem = v; else if (a[1] == "page") page = v; else if (a[1] == "hash") hash = v; else if (a[1] == "evict") evict = v; else if (a[1] == "capi") c_api = v;
        }
        string err; c = lib_create(c_api, mem, page, hash, evict, err); if (!c) { violation("config", "the cache cannot be created: " + err); return; }
        for (; i < plan.size() && !has_violation(); ++i) { g_sh->line = i; step(split(plan[i])); }
        lib_destroy(c);
        count("basic_blocks_executed", g_blocks);
    }
};

} // namespace

bool gen_cost(const string & profile, Rng & r, Plan & p) {
    if (profile != "k_cost") return false;
    auto add = [&](const string & s) { p.push_back(s); };
    const u64 page = 1ull << (r.chance(40) ? r.range(10, 11) : r.range(10, 20)); const bool big = r.chance(60); u64 mem = std::max<u64>(page * 4, 1ull << (big ? r.range(23, 25) : r.range(18, 22)));
    add("world K"); add(fmt("cfg mem %llu", (unsigned long long)mem)); add(fmt("cfg page %llu", (unsigned long long)page)); add(fmt("cfg hash %llu", 1ull << r.below(17)));
    add(fmt("cfg evict %d", (int)r.chance(75))); if (r.chance(20)) add("cfg capi 1"); add("start");
    if (r.chance(15)) { // a table of hundreds of thousands of items grows
        const u64 n = r.chance(70) ? r.range(125000, 300000) : r.range(489000, 520000); p.clear(); add("world K"); add("cfg mem 67108864"); add(fmt("cfg page %llu", 1ull << r.range(16, 20))); add(fmt("cfg hash %llu", 1ull << r.below(18))); add(fmt("cfg evict %d", (int)r.chance(75))); if (r.chance(20)) add("cfg capi 1"); add("start");
        add(fmt("run %d %llu %llu %llu %llu 0 %llu", r.chance(80) ? 0 : 6, (unsigned long long)r.below(1000000), (unsigned long long)n, (unsigned long long)n, (unsigned long long)r.range(1, 20), (unsigned long long)(r.chance(60) ? 0 : r.range(1, 1000000))));
        if (r.chance(50)) add(fmt("run %d %llu %llu %llu 8 0 %llu", r.chance(50) ? 9 : 2, (unsigned long long)r.below(1000000), (unsigned long long)r.range(1000, 60000), (unsigned long long)n, (unsigned long long)r.below(1000000)));
        return true;
    }
    u64 nkeys = big ? r.range(20000, 120000) : r.range(1000, 20000);
    if (page >= 2048 && r.chance(25)) { // many free blocks of nearly, but not quite, the wanted size
        const u64 size = r.range(250, std::min<u64>(page / 4, 8000)), n = std::min<u64>(mem / (size + 60) * (r.chance(50) ? 1 : 2), 120000), stride = r.range(2, 4);
        add(fmt("run 0 0 %llu %llu %llu 0 0", (unsigned long long)n, (unsigned long long)n, (unsigned long long)size));
        add(fmt("run 2 0 %llu %llu 1 0 0 %llu", (unsigned long long)(n / stride), (unsigned long long)(n / stride), (unsigned long long)stride));
        for (u64 k = r.range(1, 4); k--;) add(fmt("run %d %llu 700 100000 %llu %llu 0", r.chance(80) ? 0 : 6, (unsigned long long)(1000000 + k * 1000), (unsigned long long)(size + r.range(1, std::max<u64>(8, size / 16))), (unsigned long long)(r.chance(50) ? 0 : r.range(1, 30))));
        if (r.chance(50)) return true;
    }
    for (u64 n = r.range(3, 8), i = 0; i < n; ++i) {
        const u64 maxsize = std::max<u64>(8, page - 200), size = r.chance(60) ? r.range(1, 60) : r.chance(60) ? r.range(1, std::min<u64>(maxsize, 1000)) : r.range(1, maxsize), spread = r.chance(50) ? 0 : std::min<u64>(r.chance(50) ? 100 : 2000, maxsize - size + 1);
        const u64 verb = i == 0 ? 0 : r.chance(45) ? 9 : r.below(8), ops = std::min<u64>(nkeys, (i == 0 ? nkeys : r.range(1000, nkeys)) * 100 / (100 + (size + spread) / 20)) + 600;
        add(fmt("run %llu %llu %llu %llu %llu %llu %llu", (unsigned long long)verb, (unsigned long long)(r.chance(80) ? 0 : r.below(nkeys)), (unsigned long long)ops, (unsigned long long)nkeys, (unsigned long long)size, (unsigned long long)spread, (unsigned long long)(r.chance(60) ? r.range(1, 1000000) : 0)));
    }
    return true;
}

void run_cost(const Plan & plan) { CostWorld w(plan); w.run(); }

} // namespace sim

extern "C" {
void __sanitizer_cov_trace_pc() { if (sim::g_sut_depth > 0) ++sim::g_blocks; }
#ifdef SIM_COST
void * __real_memcpy(void *, const void *, size_t); void * __real_memmove(void *, const void *, size_t);
void * __wrap_memcpy(void * d, const void * s, size_t n) { if (sim::g_sut_depth > 0) sim::g_moved += n; return __real_memcpy(d, s, n); }
void * __wrap_memmove(void * d, const void * s, size_t n) { if (sim::g_sut_depth > 0) sim::g_moved += n; return __real_memmove(d, s, n); }
void * __real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t); void * __real_memchr(const void *, int, size_t);
void * __wrap_memset(void * d, int c, size_t n) { if (sim::g_sut_depth > 0) sim::g_moved += n; return __real_memset(d, c, n); }
int __wrap_memcmp(const void * a, const void * b, size_t n) { if (sim::g_sut_depth > 0) sim::g_moved += n; return __real_memcmp(a, b, n); }
void * __wrap_memchr(const void * s, int c, size_t n) { void * p = __real_memchr(s, c, n); if (sim::g_sut_depth > 0) sim::g_moved += p ? (size_t)((char *)p - (const char *)s) : n; return p; }
#endif
}
