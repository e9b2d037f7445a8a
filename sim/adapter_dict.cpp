// Dictionary world: cachelot's dict (growing) and hash_table (fixed size) on their own, with hash values dictated by the plan
// and failing allocations, against a plain map. Compiled with the flags of the library.
#include "core.h"
#include <cachelot/common.h>
#include <cachelot/dict.h>
#include <new>
#include <memory>

namespace sim {

namespace {

typedef cachelot::dict<u64, u64> Dict;
typedef cachelot::hash_table<u64, u64> Table;

struct DictWorld {
    const Plan & plan; string mode; u64 size, arg; bool table; std::unique_ptr<Dict> d; std::unique_ptr<Table> t; std::map<u64, u64> m; u64 seq; bool grew;
    explicit DictWorld(const Plan & p) : plan(p), mode("mix"), size(16), arg(1), table(false), seq(0), grew(false) {}

    /// each key has one hash value, defined by the configuration
    u64 hash(u64 k) const {
        u64 h = 0;
        if (mode == "mix") h = mix64(k ^ arg); else if (mode == "ident") h = k; else if (mode == "zero") h = 0; else if (mode == "same") h = arg; else if (mode == "few") h = mix64(k % (arg % 7 + 1));
        else if (mode == "wrap") h = ~(k % (arg % 5 + 1)); else if (mode == "high") h = k << 32; else if (mode == "step") h = k * arg; else if (mode == "near") h = mix64(k) % 4 + (size - 2);
        return table && h == 0 ? 1 : h;
    }
    void bad(const string & s) { violation("data", s); }
    bool lookup(u64 k, u64 & v, int how) {
        bool found = false; const u64 h = hash(k); v = 0;
        if (table) { std::tie(found, v) = t->get(k, h); return found; }
        if (how == 0) { std::tie(found, v) = d->get(k, h); return found; }
        Dict::iterator at; std::tie(found, at) = d->entry_for(k, h, true);
        if (found) { v = at.value(); if (at.key() != k) bad(fmt("looking up key %llu finds the entry of key %llu", (unsigned long long)k, (unsigned long long)at.key())); }
        return found;
    }
    void get(u64 k, int how) {
        u64 v = 0; bool f = false; std::map<u64, u64>::iterator it = m.find(k);
        { Sut s; f = lookup(k, v, how); }
        ev(fmt("get %llu %d -> %d %llu", (unsigned long long)k, how, (int)f, (unsigned long long)v));
        if (f != (it != m.end())) bad(fmt("key %llu is %s", (unsigned long long)k, f ? "found although it is not stored" : "not found although it is stored"));
        else if (f && v != it->second) bad(fmt("key %llu has the value %llu instead of %llu", (unsigned long long)k, (unsigned long long)v, (unsigned long long)it->second));
    }
    void put(u64 k) {
        const u64 h = hash(k), v = ++seq; bool was = m.count(k) > 0, found = false, failed = false;
        if (table) { if (!was && (m.size() + 1) * 100 > t->capacity() * 90) return; Sut s; found = !t->put(k, h, v); }
        else try {
            Sut s; Dict::iterator at; const u64 c0 = d->capacity(); std::tie(found, at) = d->entry_for(k, h);
            if (found) at.unsafe_replace_kv(k, h, v); else at = d->insert(at, k, h, v);
            if (!at || at.key() != k || at.value() != v) { Harness x; bad(fmt("the position of key %llu after it was stored refers to another entry", (unsigned long long)k)); }
            if (d->capacity() > c0) { Harness x; count("table_growths"); }
        } catch (const std::bad_alloc &) { failed = true; }
        ev(fmt("put %llu %llu -> %d %d", (unsigned long long)k, (unsigned long long)v, (int)found, (int)failed));
        if (failed) { if (!armed) bad("storing failed without a failed allocation"); count("stores_failed"); return; }
        if (found != was) { bad(fmt("storing key %llu: the table says it %s", (unsigned long long)k, found ? "exists already" : "is new")); return; }
        m[k] = v;
    }
    void del(u64 k, bool by_pos) {
        bool was = m.erase(k) > 0, found = false; const u64 h = hash(k);
        { Sut s;
          if (table) found = t->del(k, h);
          else if (!by_pos) found = d->del(k, h);
          else { Dict::iterator at; std::tie(found, at) = d->entry_for(k, h, true); if (found) d->remove(at); } }
        ev(fmt("del %llu %d -> %d", (unsigned long long)k, (int)by_pos, (int)found));
        if (found != was) bad(fmt("deleting key %llu: the table says it was %s", (unsigned long long)k, found ? "there" : "not there"));
    }
    void del_if(u64 q, u64 r) {
        std::multiset<u64> asked; u64 n = 0; std::multiset<u64> all; for (auto & x : m) all.insert(x.second);
        std::map<u64, u64> left; for (auto & x : m) if (x.second % q != r) left.insert(x);
        std::set<u64> gone; bool again = false;
        auto pred = [&](u64 v) -> bool { Harness h; asked.insert(v); bool y = v % q == r; if (y) { ++n; if (!gone.insert(v).second) again = true; } return y; };
        { Sut s; if (table) t->remove_if(pred); else d->remove_if(pred); }
        ev(fmt("del_if %llu %llu -> %llu", (unsigned long long)q, (unsigned long long)r, (unsigned long long)n));
        if (again) bad("removal by condition offered a removed entry again");
        else if (n != m.size() - left.size()) bad(fmt("removal by condition removed %llu entries instead of %llu", (unsigned long long)n, (unsigned long long)(m.size() - left.size())));
        for (u64 v : asked) if (!all.count(v)) { bad("removal by condition looked at an entry which is not stored"); break; }
        m.swap(left);
    }
    void sizes() {
        u64 n = table ? t->size() : d->size(), c = table ? t->capacity() : d->capacity();
        if (n != m.size()) bad(fmt("the size is %llu instead of %llu", (unsigned long long)n, (unsigned long long)m.size()));
        else if (n > c) bad("more entries than slots");
    }
    bool armed = false;
    void step(const vector<string> & a) {
        auto num = [&](size_t i) -> u64 { return i < a.size() ? strtoull(a[i].c_str(), nullptr, 10) : 0; };
        if (a[0] == "put") put(num(1)); else if (a[0] == "get") get(num(1), (int)num(2)); else if (a[0] == "del") del(num(1), num(2) != 0);
        else if (a[0] == "has") { bool f; { Sut s; f = table ? t->contains(num(1), hash(num(1))) : d->contains(num(1), hash(num(1))); } if (f != (m.count(num(1)) > 0)) bad(fmt("contains() is wrong for key %llu", (unsigned long long)num(1))); }
        else if (a[0] == "fill") { for (u64 k = num(1), e = k + num(2); k < e && !has_violation(); ++k) put(k); }
        else if (a[0] == "drop") { for (u64 k = num(1), e = k + num(2); k < e && !has_violation(); ++k) del(k, num(3) != 0); }
        // fill up to the moment when the table is being moved, what follows happens in the middle of it
        else if (a[0] == "grow") { for (u64 k = num(1), e = k + num(2); k < e && !has_violation() && !(d && d->is_expanding()); ++k) put(k); if (d && d->is_expanding()) count("growth_in_progress"); }
        else if (a[0] == "delif") { if (num(1)) del_if(num(1), num(2)); }
        else if (a[0] == "scan") { for (auto it = m.begin(); it != m.end() && !has_violation(); ++it) get(it->first, (int)num(1)); }
        else if (a[0] == "move") { if (!table) { long cd = g_alloc_countdown; g_alloc_countdown = -1; { Sut s; d.reset(new Dict(std::move(*d))); } g_alloc_countdown = cd; count("dict_moved"); } }
        else if (a[0] == "failalloc") { armed = true; g_alloc_countdown = (long)num(1); g_alloc_burst = (long)std::max<u64>(1, num(2)); g_alloc_min_size = num(3); }
        if (!has_violation()) sizes();
    }
    void run() {
        size_t i = 0;
        for (; i < plan.size(); ++i) {
            vector<string> a = split(plan[i]); if (a[0] == "start") { ++i; break; } if (a[0] != "cfg" || a.size() < 3) continue;
            if (a[1] == "size") size = strtoull(a[2].c_str(), nullptr, 10); else if (a[1] == "mode") mode = a[2]; else if (a[1] == "arg") arg = strtoull(a[2].c_str(), nullptr, 10); else if (a[1] == "table") table = a[2] == "1";
        }
        i64 live0 = g_live_allocs;
        { Sut s; if (table) t.reset(new Table(size)); else d.reset(new Dict(size)); }
        for (; i < plan.size() && !has_violation(); ++i) { g_sh->line = i; step(split(plan[i])); }
        if (has_violation()) return;
        g_alloc_countdown = -1; g_sh->in_drain = 1;
        for (auto it = m.begin(); it != m.end() && !has_violation(); ++it) get(it->first, 0);
        for (u64 k = 1000000; k < 1000040 && !has_violation(); ++k) put(k);
        while (!m.empty() && !has_violation()) { u64 k = m.begin()->first; del(k, m.size() & 1); if (m.size() % 64 == 0) sizes(); }
        if (!has_violation()) sizes();
        { Sut s; t.reset(); d.reset(); }
        if (!has_violation() && g_live_allocs != live0) violation("leak", fmt("%lld allocations are left after the table was destroyed", (long long)(g_live_allocs - live0)));
        ev("done");
    }
};

} // namespace

bool gen_dict(const string & profile, Rng & r, Plan & p) {
    if (profile != "d_dict") return false;
    auto add = [&](const string & s) { p.push_back(s); };
    static const char * modes[] = {"mix", "mix", "mix", "ident", "zero", "same", "few", "wrap", "high", "step", "near"};
    const string mode = modes[r.below(11)]; const bool table = r.chance(25), poor = mode == "zero" || mode == "same" || mode == "few" || mode == "wrap" || mode == "high";
    const u64 size = 1ull << (table ? r.range(1, 9) : r.below(10)); u64 nkeys = r.chance(50) ? r.range(2, 40) : poor ? r.range(40, 300) : r.range(40, 3000);
    add("world D"); add("cfg mode " + mode); add(fmt("cfg size %llu", (unsigned long long)size)); if (table) { add("cfg table 1"); nkeys = std::min<u64>(nkeys, size); }
    add(fmt("cfg arg %llu", (unsigned long long)(r.chance(30) ? r.next() : r.chance(50) ? size - 1 : r.below(64)))); add("start");
    const bool faults = !table && r.chance(35); const u64 bulk = !poor && r.chance(50) ? 30 : 3;
    const bool grows = !table && (mode == "mix" || mode == "ident") && r.chance(50); if (grows) nkeys = std::max<u64>(nkeys, r.range(1200, 5000));
    for (u64 n = r.range(20, 300); n--;) {
        if (grows && r.chance(4)) add(fmt("grow %llu %llu", (unsigned long long)r.below(nkeys), (unsigned long long)nkeys * 3));
        u64 k = r.below(nkeys), c = r.below(100 + bulk);
        if (c < 34) add(fmt("put %llu", (unsigned long long)k)); else if (c < 52) add(fmt("get %llu %d", (unsigned long long)k, (int)r.below(2))); else if (c < 60) add(fmt("has %llu", (unsigned long long)k));
        else if (c < 86) add(fmt("del %llu %d", (unsigned long long)k, (int)r.below(2))); else if (c < 88) add(fmt("delif %llu %llu", (unsigned long long)r.range(1, 9), (unsigned long long)r.below(3)));
        else if (c < 90) add("move"); else if (c < 93) add(fmt("scan %d", (int)r.below(2))); else if (c < 97) { if (faults) add(fmt("failalloc %llu %llu %llu", (unsigned long long)r.range(1, 4), (unsigned long long)r.range(1, 4), (unsigned long long)(r.chance(50) ? 0 : size * 8))); }
        else if (c < 100) add(fmt("drop %llu %llu %d", (unsigned long long)k, (unsigned long long)r.range(1, nkeys / 2 + 1), (int)r.below(2)));
        else add(fmt("fill %llu %llu", (unsigned long long)k, (unsigned long long)r.range(1, nkeys / 2 + 1)));
    }
    return true;
}

void run_dict(const Plan & plan) { DictWorld w(plan); w.run(); }

} // namespace sim
