// Allocator world: cachelot's memory allocator on its own against a model of the blocks in use.
#include "lib_api.h"
#include <algorithm>
#include <unistd.h>

namespace sim {

namespace {

struct B { char * p = nullptr; u64 n = 0, id = 0, actual = 0; };

struct MemWorld {
    const Plan & plan; u64 mem = 1 << 16, page = 1 << 12; LibAlloc * a = nullptr; u64 hdr = 8, seq = 0; bool sparse = false, failed_ctor = false;
    std::map<string, B> live; std::map<char *, string> at; std::map<u64, u64> per_page; char * lo = nullptr, * hi = nullptr; string prot; std::map<u64, u64> ref; u64 evicted_total = 0, n_alloc = 0, n_refused = 0, n_free = 0, n_re = 0, n_re_refused = 0, b_req = 0, b_un = 0, b_ser = 0, br_req = 0, br_ser = 0, br_un = 0, n_evicting = 0, n_unsure = 0;
    vector<string> on_cb;
    explicit MemWorld(const Plan & p) : plan(p) {}

    u64 page_of(const char * p) const { return (u64)(uintptr_t)p / page; }
    static char byte(u64 id, u64 i) { return (char)(mix64(id * 0x9e3779b9u + (i >> 3)) >> ((i & 7) * 8)); }
    template <class F> void each(u64 n, F f) const { if (n <= 4096 || !sparse) { for (u64 i = 0; i < n; ++i) f(i); } else { for (u64 i = 0; i < 64; ++i) { f(i); f(n - 1 - i); } } }
    static u64 word(u64 id, u64 w) { return mix64(id * 0x9e3779b9u + w); }
    void fill(B & b) { if (!sparse || b.n <= 4096) { for (u64 w = 0; w * 8 < b.n; ++w) { u64 x = word(b.id, w); memcpy(b.p + w * 8, &x, std::min<u64>(8, b.n - w * 8)); } return; } each(b.n, [&](u64 i) { b.p[i] = byte(b.id, i); }); }
    bool intact(const B & b, u64 n) const { if (!sparse || n <= 4096) { for (u64 w = 0; w * 8 < n; ++w) { u64 x = word(b.id, w); if (memcmp(b.p + w * 8, &x, std::min<u64>(8, n - w * 8))) return false; } return true; } bool ok = true; each(n, [&](u64 i) { if (b.p[i] != byte(b.id, i)) ok = false; }); return ok; }
    void forget(const string & s) { auto it = live.find(s); if (it == live.end()) return; at.erase(it->second.p); if (--per_page[page_of(it->second.p)] == 0) per_page.erase(page_of(it->second.p)); live.erase(it); }
    static MemWorld * self;
    static void on_freed(void * p) { self->freed_cb((char *)p); }
    void freed_cb(char * p) {
        auto it = at.find(p); ++evicted_total; count("blocks_evicted");
        if (it == at.end()) { violation("data", "the eviction callback reported memory which is not in use"); return; }
        string s = it->second; B b = live[s];
        if (!intact(b, b.n)) violation("data", "the contents of block " + s + fmt(" (%llu bytes) changed before its eviction", (unsigned long long)b.n));
        if (s == prot) violation("evict", "block " + s + " was evicted right after it was used");
        on_cb.push_back(s); forget(s); ev("evicted " + s);
        each(b.n, [&](u64 i) { p[i] = (char)0xee; });          // the owner is done with it
    }
    /// a page without any block in use
    bool free_page() const { return per_page.size() < mem / page; }

    void check_new(const string & s, char * p, u64 n) {
        B b; b.p = p; b.n = n; b.id = ++seq; b.actual = a->actual(p);
        if ((uintptr_t)p % sizeof(void *)) { violation("data", "block " + s + " is not aligned"); return; }
        if (page_of(p) != page_of(p + n - 1)) { violation("data", "block " + s + fmt(" of %llu bytes crosses a page boundary", (unsigned long long)n)); return; }
        lo = lo ? std::min(lo, p) : p; hi = std::max(hi, p + n);
        if ((u64)(hi - lo) > mem) { violation("data", "blocks are further apart than the arena is large"); return; }
        if (b.actual < n) { violation("data", fmt("a block of %llu bytes was given for a request of %llu", (unsigned long long)b.actual, (unsigned long long)n)); return; }
        auto it = at.lower_bound(p); const B * o = it != at.end() ? &live[it->second] : nullptr;
        if (o && o->p < p + n) { violation("data", "block " + s + " overlaps the block " + it->second + " in use"); return; }
        if (it != at.begin()) { --it; o = &live[it->second]; if (o->p + o->n > p) { violation("data", "block " + s + " overlaps the block " + it->second + " in use"); return; } }
        live[s] = b; at[p] = s; per_page[page_of(p)]++; fill(live[s]); prot = s;
        if (per_page.size() > mem / page) violation("data", "blocks lie in more pages than the arena has");
    }
    void alloc(const string & s, u64 n, bool evict) {
        if (live.count(s) || n == 0) return;
        bool fp = free_page(); const u64 limit = page - hdr; vector<void *> freed; on_cb.clear(); size_t live0 = live.size();
        char * p = (char *)(evict ? a->alloc_or_evict(n, freed) : a->alloc(n)); count("allocator_calls");
        ev(fmt("%s %s %llu -> %s", evict ? "evict" : "alloc", s.c_str(), (unsigned long long)n, p ? "ok" : "none")); if (has_violation()) return;
        ++n_alloc; sat(b_req, n); if (p) sat(b_ser, a->actual(p)); else { ++n_refused; sat(b_un, n); } if (!freed.empty()) ++n_evicting; else if (evict) ++n_unsure;
        if (n > page && p) { violation("data", fmt("a request of %llu bytes was served although the page has %llu", (unsigned long long)n, (unsigned long long)page)); return; }
        if (n > limit && p) { violation("data", fmt("a request of %llu bytes was served although the page can hold only %llu along with the block header", (unsigned long long)n, (unsigned long long)limit)); return; }
        std::set<u64> pages; for (void * q : freed) pages.insert(page_of((char *)q));
        if (pages.size() > 1) violation("evict", "one request evicted blocks of several pages");
        if (!freed.empty()) {
            if (n > page) violation("data", "blocks were evicted for a request which can not be served");
            if (fp && n <= page * 9 / 10) violation("evict", "blocks were evicted although there is a completely free page");
        }
        if (!p) {
            count("allocations_refused");
            if (live.size() != live0) { violation("data", "a refused request evicted blocks"); return; }
            if (evict && n <= page - 64) violation("data", fmt("an evicting request of %llu bytes was refused", (unsigned long long)n));
            if (fp && n <= page * 9 / 10) violation("data", fmt("a request of %llu bytes was refused although there is a completely free page", (unsigned long long)n));
            return;
        }
        check_new(s, p, n); if (sample()) verify();
    }
    static void sat(u64 & x, u64 d) { x = x + d < x ? ~0ull : x + d; } // the counters stop at their maximum
    bool sample() { return live.size() < 40 || (seq & (live.size() < 500 ? 31 : 511)) == 0; }
    void realloc(const string & s, u64 n) {
        auto it = live.find(s); if (it == live.end() || n == 0 || n > page) return; B & b = it->second;
        char * p = (char *)a->realloc(b.p, n); count("allocator_calls"); ev(fmt("realloc %s %llu -> %s", s.c_str(), (unsigned long long)n, p ? "ok" : "none"));
        ++n_re; if (!p) ++n_re_refused;
        if (n + hdr > b.actual) { const u64 d = n + hdr - b.actual; br_req += d; if (p) br_ser += a->actual(p) - b.actual; else br_un += d; }
        if (p && p != b.p) { violation("data", "in-place realloc moved block " + s); return; }
        if (!p && n <= b.n) { violation("data", "block " + s + " could not be shrunk"); return; }
        if (!intact(b, !p ? b.n : sparse && b.n > 4096 ? std::min<u64>(64, n) : std::min(b.n, n))) { violation("data", "the contents of block " + s + " changed in realloc"); return; }
        if (!p) {
            count("reallocs_refused"); if (a->actual(b.p) < b.n) violation("data", "a failed realloc shrank block " + s);
            if (a->actual(b.p) > b.actual + 64) { violation("data", "a failed realloc enlarged block " + s + fmt(" from %llu to %llu bytes", (unsigned long long)b.actual, (unsigned long long)a->actual(b.p))); return; }
            b.actual = a->actual(b.p); verify(); return;
        }
        if (n > page - hdr) { violation("data", "realloc accepted more than a page can hold"); return; }
        string name = s; forget(s); check_new(name, p, n); prot.clear(); verify();
    }
    void free(const string & s) {
        auto it = live.find(s); if (it == live.end()) return; B b = it->second;
        if (!intact(b, b.n)) { violation("data", "the contents of block " + s + fmt(" (%llu bytes) changed", (unsigned long long)b.n)); return; }
        each(b.n, [&](u64 i) { b.p[i] = (char)0xdd; });
        forget(s); a->free(b.p); ++n_free; count("allocator_calls"); ev("free " + s); if (prot == s) prot.clear(); if (sample()) verify();
    }
    void verify() {
        if (has_violation()) return;
        u64 used = 0;
        for (auto & l : live) {
            if (!intact(l.second, l.second.n)) { violation("data", "the contents of block " + l.first + fmt(" (%llu bytes) changed", (unsigned long long)l.second.n)); return; }
            u64 x = a->actual(l.second.p); if (x < l.second.n) { violation("data", "block " + l.first + " shrank"); return; } used += x;
        }
        std::map<string, u64> st; lib_stats(st);
        if (st["used_memory"] != used) violation("stats", fmt("used_memory is %llu, the blocks in use take %llu", (unsigned long long)st["used_memory"], (unsigned long long)used));
        if (st["evictions"] != evicted_total) violation("stats", fmt("evictions is %llu, %llu blocks were evicted", (unsigned long long)st["evictions"], (unsigned long long)evicted_total));
        auto eq = [&](const char * name, u64 want) { if (!has_violation() && st.count(name) && st[name] != want) violation("stats", fmt("%s is %llu, expected %llu", name, (unsigned long long)st[name], (unsigned long long)want)); };
        eq("num_malloc", n_alloc); eq("num_alloc_errors", n_refused); eq("num_free", n_free); eq("num_realloc", n_re); eq("num_realloc_errors", n_re_refused);
        eq("total_requested", b_req); eq("total_unserved", b_un); eq("total_served", b_ser); eq("total_realloc_requested", br_req); eq("total_realloc_served", br_ser); eq("total_realloc_unserved", br_un);
        const u64 hits = st["num_free_table_hits"] + st["num_free_table_weak_hits"], most = n_alloc - n_refused - n_evicting;
        if (!has_violation() && st.count("num_free_table_hits") && (hits > most || hits + n_unsure < most)) violation("stats", fmt("%llu allocations came from free blocks, expected %llu..%llu", (unsigned long long)hits, (unsigned long long)(most - std::min(most, n_unsure)), (unsigned long long)most));
    }
    void free_all() { vector<string> k; for (auto & l : live) k.push_back(l.first); for (auto & s : k) { if (has_violation()) return; free(s); } }
    static u64 fresh(LibAlloc * x, u64 n, u64 max) { u64 c = 0; while (c <= max && x->alloc(n)) ++c; return c; }

    void exec(const string & l) {
        vector<string> t = split(l); if (t.empty()) return; const string & c = t[0]; u64 n = t.size() > 2 ? strtoull(t[2].c_str(), nullptr, 10) : 0;
        if (c == "alloc") alloc(t[1], n, false);
        else if (c == "evict") alloc(t[1], n, true);
        else if (c == "realloc") realloc(t[1], n);
        else if (c == "free") free(t[1]);
        else if (c == "touch") { auto it = live.find(t[1]); if (it != live.end()) { a->touch(it->second.p); prot = t[1]; count("allocator_calls"); ev("touch " + t[1]); } }
        else if (c == "freeall") { free_all(); }
        else if (c == "fullset") { // an emptied allocator serves what a new one does
            u64 sz = strtoull(t[1].c_str(), nullptr, 10); if (!ref.count(sz)) return;
            free_all(); if (has_violation()) return; verify(); u64 k = 0;
            for (; k <= mem / 8; ++k) { string s = fmt("F%llu", (unsigned long long)k); alloc(s, sz, false); if (has_violation()) return; if (!live.count(s)) break; }
            count("full_sets_served"); ev(fmt("fullset %llu: %llu of %llu", (unsigned long long)sz, (unsigned long long)k, (unsigned long long)ref[sz]));
            if (k < ref[sz]) violation("data", fmt("an emptied allocator serves %llu requests of %llu bytes, a new one serves %llu", (unsigned long long)k, (unsigned long long)sz, (unsigned long long)ref[sz]));
            free_all();
        }
    }
    void run() {
        self = this; size_t i = 0;
        for (; i < plan.size(); ++i) {
            vector<string> t = split(plan[i]); if (t.empty()) continue; if (t[0] == "start") { ++i; break; }
            if (t[0] == "failalloc" && t.size() > 2) { g_alloc_countdown = atol(t[1].c_str()); g_alloc_burst = std::max(1l, atol(t[2].c_str())); }
            if (t[0] != "cfg" || t.size() < 3) continue; u64 v = strtoull(t[2].c_str(), nullptr, 10);
            if (t[1] == "mem") mem = v; if (t[1] == "page") page = v; if (t[1] == "ref") ref[v] = 0; if (t[1] == "sparse") sparse = v != 0;
        }
        long cd = g_alloc_countdown; g_alloc_countdown = -1; string err;
        for (auto & r : ref) {
            LibAlloc * x = alloc_create(mem, page, err); if (!x) { violation("data", "the allocator can not be created: " + err); return; }
            r.second = fresh(x, r.first, mem / 8); alloc_destroy(x);
            if (r.first <= page * 9 / 10 && r.second < mem / page) { violation("data", fmt("a new allocator serves only %llu requests of %llu bytes", (unsigned long long)r.second, (unsigned long long)r.first)); return; }
            if (r.second * r.first > mem) { violation("data", "a new allocator serves more than its memory"); return; }
        }
        lib_reset_stats(); g_alloc_countdown = cd; g_live_allocs = 0; u64 f0 = g_alloc_failed;
        a = alloc_create(mem, page, err);
        if (!a) {
            if (g_alloc_failed == f0) { violation("data", "the allocator can not be created: " + err); return; }
            if (g_live_allocs) { violation("leak", "memory was not released when the allocator could not be created"); return; }
            g_alloc_countdown = -1; a = alloc_create(mem, page, err); if (!a) { violation("data", "the allocator can not be created: " + err); return; }
        }
        g_alloc_countdown = -1; g_on_freed = on_freed; hdr = a->header(); const u64 built = g_live_allocs;
        for (; i < plan.size() && !has_violation(); ++i) { g_sh->line = i; exec(plan[i]); }
        if (has_violation()) return;
        g_sh->in_drain = 1; verify(); free_all(); verify(); if (has_violation()) return;
        if ((u64)g_live_allocs != built) { violation("leak", "the allocator allocated from the system"); return; }
        // a page worth of memory is available in every page
        u64 k = 0; for (; k < mem / page; ++k) { string s = fmt("Z%llu", (unsigned long long)k); alloc(s, page * 9 / 10, false); if (has_violation()) return; if (!live.count(s)) break; }
        if (k < mem / page) { violation("data", fmt("an emptied allocator serves only %llu page sized requests", (unsigned long long)k)); return; }
        free_all(); if (has_violation()) return;
        alloc_destroy(a); a = nullptr;
        if (g_live_allocs) violation("leak", fmt("%lld allocations were not released when the allocator was destroyed", (long long)g_live_allocs));
    }
};
MemWorld * MemWorld::self = nullptr;

} // namespace

void run_allocator(const Plan & plan) { MemWorld w(plan); w.run(); g_sh->finished = 1; _exit(0); }

bool gen_allocator(const string & name, Rng & r, Plan & p) {
    if (name != "m_alloc" && name != "m_huge") return false;
    auto add = [&](const string & s) { p.push_back(s); };
    u64 page, mem; bool huge = name == "m_huge";
    if (huge) { page = (u64)1 << r.range(21, 31); mem = (u64)1 << 33; } else { page = (u64)1 << r.range(8, r.chance(30) ? 16 : 12); mem = page << r.range(2, r.chance(20) ? 6 : 3); }
    add("world M"); add(fmt("cfg mem %llu", (unsigned long long)mem)); add(fmt("cfg page %llu", (unsigned long long)page)); if (huge) add("cfg sparse 1");
    vector<u64> refs; if (!huge || page > (1 << 25)) for (int i = 0; i < 2; ++i) { u64 n = i == 0 ? page - 8 : huge ? page / r.range(1, 4) - 64 : r.chance(40) ? r.range(page / 2, page - 8) : r.range(24, page - 8); refs.push_back(n); add(fmt("cfg ref %llu", (unsigned long long)n)); }
    if (r.chance(6)) add(fmt("failalloc %llu %llu", (unsigned long long)r.below(5), (unsigned long long)r.range(1, 2)));
    add("start");
    u64 slots = r.range(3, huge ? 60 : r.chance(30) ? 400 : 60), n = r.range(20, huge ? 150 : 900); u64 cap = r.chance(40) ? page : r.chance(50) ? page / 4 : page / 16 + 8;
    unsigned evict_pc = r.chance(30) ? 0 : (unsigned)r.range(10, 90), free_pc = (unsigned)r.range(5, 40), re_pc = r.chance(30) ? 0 : (unsigned)r.range(5, 30);
    auto size = [&]() -> u64 { unsigned q = (unsigned)r.below(100); if (q < 5) return page - r.below(20); if (q < 7) return page + r.below(70) + 1; if (q < 8) return r.chance(20) ? ~0ull - r.below(100) : page * r.range(2, 5); if (q < 40) return r.range(1, std::min<u64>(cap, 130)); if (q < 55) return std::max<u64>(1, ((u64)1 << r.below(32)) % (cap + 1) + r.below(3)); return r.range(1, cap); };
    for (u64 i = 0; i < n; ++i) {
        string s = fmt("b%llu", (unsigned long long)r.below(slots)); unsigned q = (unsigned)r.below(100);
        if (q < free_pc) add("free " + s);
        else if (q < free_pc + re_pc) add("realloc " + s + fmt(" %llu", (unsigned long long)std::min<u64>(page, size())));
        else if (q < free_pc + re_pc + 5) add("touch " + s);
        else if (r.permille(6) && !refs.empty()) add(fmt("fullset %llu", (unsigned long long)r.pick(refs)));
        else if (r.permille(6)) add("freeall");
        else add((r.chance(evict_pc) ? "evict " : "alloc ") + s + fmt(" %llu", (unsigned long long)size()));
    }
    return true;
}

} // namespace sim
