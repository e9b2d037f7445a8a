// Library world: the cache behind its C++ or C API against an executable model, with a simulated clock,
// failing system allocations, exhausted memory and chosen hash values.
#include "lib_api.h"
#include <algorithm>
#include <unistd.h>

namespace sim {

static const i64 SEC = 1000000000ll; static const i64 FOREVER = INT64_MAX;
static const i64 CLOCK_END = 4294967293ll * SEC;            // the 32 bit clock of the cache stops here: nothing outlives it
static i64 cap_exp(i64 t) { return t < CLOCK_END ? t : CLOCK_END; }

u32 hash_mode(char m, u64 i) {
    switch (m) {
    case 'z': return 0;                                  // all zero
    case 'e': return 77;                                 // all equal
    case 'm': return 0xffffffffu;                        // all ones
    case 'c': return (u32)(i % 7);                       // a few values, zero among them
    case 'h': return (u32)(i << 24);                     // equal low bits
    case 's': return (u32)i;                             // sequential
    case 'r': return (u32)(0xfffffff0u + i % 32);        // around the wrap
    case 'x': return (u32)mix64(i);
    case 't': return (u32)(mix64(i) | 0xfff0u);          // the last slots of any table
    default: return 0;
    }
}

namespace {

struct MI { string val; u32 flags = 0; u64 len = 0; i64 exp_lo = FOREVER, exp_hi = FOREVER; u64 tok = 0; u32 hash = 0; };

bool pow2(u64 x) { return x && !(x & (x - 1)); }

class LibWorld {
public:
    explicit LibWorld(const Plan & p) : plan(p) {}
    const Plan & plan;
    bool c_api = false, evict = true, cb = true, stats_check = true, sparse = false, alloc_faults = false; u64 mem = 1 << 20, page = 1 << 14, hash = 16; u64 caprefs = 0;
    LibCache * c = nullptr;
    std::map<string, MI> model; std::map<string, std::set<u64>> used; std::map<string, vector<u64>> learnt; std::map<string, u32> hashes;
    std::map<string, std::pair<u64, u64>> want; u64 total_evicted = 0; std::set<string> errs;
    string prot;                                          // item used by the previous operation
    i64 t_lo = 0, t_hi = 0; u64 fails_before = 0;
    std::map<u64, u64> capref;
    u64 used_upper = 0;

    bool can_live(const MI & m) const { return m.exp_hi == FOREVER || t_lo < m.exp_hi; }
    bool can_die(const MI & m) const { return m.exp_lo != FOREVER && t_hi >= m.exp_lo; }

    void exact(const string & n, u64 d = 1) { want[n].first += d; want[n].second += d; }
    void maybe(const string & n, u64 d = 1) { want[n].second += d; }
    static u64 upper(const string & k, u64 len) { return k.size() + len + 160; }
    void put(const string & k, const MI & m) { drop(k); model[k] = m; used_upper += upper(k, m.len); hashes[k] = m.hash; }
    void drop(const string & k) { auto it = model.find(k); if (it == model.end()) return; used_upper -= upper(k, it->second.len); if (it->second.tok) used[k].insert(it->second.tok); model.erase(it); }

    void begin() { t_lo = g_steady_ns; fails_before = g_alloc_failed; g_evicted.clear(); }
    void end(const string & opkey, bool stores, u64 need, u64 pieces) {
        t_hi = g_steady_ns;
        // room for the new item for sure: no eviction (and no refusal) is justified
        bool roomy = room(need, pieces);
        u64 bytes = 0;
        for (auto & e : g_evicted) {
            ++total_evicted; count("evictions_reported"); ev("evicted " + esc(e.key, 60) + fmt(" %llu", (unsigned long long)e.len)); bytes += e.key.size() + e.len;
            auto it = model.find(e.key);
            if (!evict) { violation("data", "item '" + esc(e.key, 60) + "' was evicted although evictions are disabled"); return; }
            if (!stores) { violation("evict", "item '" + esc(e.key, 60) + "' was evicted by an operation which stores nothing"); return; }
            if (it == model.end()) { violation("data", "the eviction callback reported '" + esc(e.key, 60) + "' which is not stored"); return; }
            if (it->second.val != e.value || it->second.len != e.len || (!c_api && it->second.flags != e.flags)) { violation("data", "the eviction callback reported '" + esc(e.key, 60) + "' with a wrong value: '" + esc(e.value, 60) + "' instead of '" + esc(it->second.val, 60) + "'"); return; }
            if (e.key == prot && e.key != opkey && !can_die(it->second)) violation("evict", "item '" + esc(e.key, 60) + "' was evicted right after it was used");
            drop(e.key);
        }
        if (!g_evicted.empty()) {
            if (bytes > page * std::max<u64>(1, pieces)) violation("evict", fmt("one store evicted %llu bytes, more than a page", (unsigned long long)bytes));
            if (roomy) violation("evict", fmt("items were evicted although memory sufficed: %zu items and %llu of %llu bytes used", model.size() + g_evicted.size(), (unsigned long long)used_upper, (unsigned long long)mem));
        }
    }
    bool room(u64 need, u64 pieces) const {
        const u64 pages = mem / page, k = model.size() + pieces;
        if (need > page * 9 / 10) return false;
        if (k <= pages) return true;                       // there is a page without any item
        const u64 free_bytes = mem > used_upper + pieces * need ? mem - used_upper - pieces * need : 0;
        return free_bytes > (pages + k) * (need * 17 / 16 + 128);
    }

    u32 hash_of(const string & spec, const string & key) { return spec == "-" ? lib_hash(key, c_api) : (u32)strtoul(spec.c_str(), nullptr, 10); }

    /// the key was observed; ok = false: violation already reported
    void check_view(const string & key, const LibView & v) {
        auto it = model.find(key);
        if (!v.found) {
            if (it == model.end()) return;
            if (!can_die(it->second) && cb) { violation("data", "item '" + esc(key, 60) + "' is lost"); return; }
            drop(key); return;
        }
        if (it == model.end()) { violation("data", "read of '" + esc(key, 60) + "' which is not stored (or was lost before) returned '" + esc(v.value, 60) + "'"); return; }
        MI & m = it->second;
        if (!can_live(m)) { violation("data", "expired item '" + esc(key, 60) + "' is still readable"); return; }
        if (v.key != key) { violation("data", "read of '" + esc(key, 60) + "' returned the item of '" + esc(v.key, 60) + "'"); return; }
        if (v.value != m.val || v.len != m.len) { violation("data", "read of '" + esc(key, 60) + "' returned '" + esc(v.value, 60) + fmt("' (%llu bytes) instead of '", (unsigned long long)v.len) + esc(m.val, 60) + fmt("' (%llu bytes)", (unsigned long long)m.len)); return; }
        if (!c_api && v.flags != m.flags) { violation("data", "read of '" + esc(key, 60) + fmt("' returned flags %u instead of %u", v.flags, m.flags)); return; }
        if (!c_api) {
            if (m.tok == 0) { if (used[key].count(v.tok)) { violation("data", "two versions of '" + esc(key, 60) + fmt("' share the cas token %llu", (unsigned long long)v.tok)); return; } m.tok = v.tok; learnt[key].push_back(v.tok); }
            else if (m.tok != v.tok) { violation("data", "the cas token of '" + esc(key, 60) + "' changed without a modification"); return; }
        }
        if (m.exp_lo == FOREVER) { if (v.ttl != 0) violation("data", "item '" + esc(key, 60) + "' without lifetime limit reports one"); }
        else {
            // whole seconds, measured from a clock reading within the operation
            i64 lo = (m.exp_lo - t_hi) / SEC - 1, hi = (m.exp_hi - t_lo) / SEC + 1;
            if ((i64)v.ttl < lo || (i64)v.ttl > hi) violation("data", "item '" + esc(key, 60) + fmt("' reports a remaining lifetime of %llu s, expected %lld..%lld", (unsigned long long)v.ttl, (long long)lo, (long long)hi));
        }
    }

    void get(const string & key, u32 h) {
        begin(); LibView v = c->get(key, h, sparse); end(key, false, 0, 0);
        ev("get " + esc(key, 40) + (v.found ? fmt(" hit %016llx", (unsigned long long)hash_str(v.value)) : string(" miss")));
        exact("cmd_get"); exact(v.found ? "get_hits" : "get_misses"); count("operations");
        check_view(key, v);
        prot = v.found ? key : "";
    }

    /// an operation failed along with an allocation: the item is either as before or as intended
    void resolve(const string & key, u32 h, bool had, const MI & before, bool may, const MI & after) {
        begin(); LibView v = c->get(key, h, sparse); end(key, false, 0, 0); exact("cmd_get"); exact(v.found ? "get_hits" : "get_misses");
        count("uncertain_writes_resolved");
        if (may && v.found && v.value == after.val && v.len == after.len && !(had && before.val == after.val)) { put(key, after); }
        else if (had) { if (!model.count(key) && !g_evict_ambiguous) {} }
        check_view(key, v);
    }
    bool g_evict_ambiguous = false;

    void store(LVerb verb, const string & vn, const string & key, u32 h, const string & value, u32 flags, u64 ttl, u64 tok) {
        const u64 need = upper(key, value.size());
        const bool ext = verb == LV_APPEND || verb == LV_PREPEND;
        u64 total = value.size(); { auto it = model.find(key); if (ext && it != model.end()) total += it->second.len; }
        begin(); LibResult r = c->store(verb, key, h, value, flags, ttl, tok);
        const bool faulted = g_alloc_failed > fails_before;
        bool had_room = room(ext ? upper(key, total) : need, ext ? 2 : 1);
        end(key, true, ext ? upper(key, total) : need, ext ? 2 : 1);
        ev(vn + " " + esc(key, 40) + fmt(" %016llx -> %d", (unsigned long long)hash_str(value), (int)r.out)); count("operations");
        if (has_violation()) return;
        auto it = model.find(key); const bool had = it != model.end(); MI before = had ? it->second : MI();
        if (had && !can_live(before)) { }
        MI n; n.val = value; n.len = value.size(); n.flags = c_api ? 0 : flags; n.hash = h;
        if (ttl) { n.exp_lo = cap_exp(t_lo + (i64)(ttl - 1) * SEC); n.exp_hi = t_hi + (i64)ttl * SEC; }
        const string cmd = "cmd_" + vn;
        if (r.out == L_ERROR) {
            maybe(cmd); for (auto s : {"_stored", "_not_stored", "_misses", "_badval"}) maybe(vn + s); maybe("set_new"); maybe("set_existing"); errs.insert(vn);
            count("errors_reported"); prot.clear();
            const u64 size = key.size() + total;
            bool ok = faulted || key.size() > 250 || size + 64 > page || !evict || ext;
            if (!ok) { violation("data", vn + " of '" + esc(key, 60) + fmt("' (%zu bytes) failed with '", value.size()) + esc(r.err, 80) + "' although evictions are enabled and it fits into a page"); return; }
            if (!faulted && key.size() <= 250 && had_room && size + 64 <= page) { violation("data", vn + " of '" + esc(key, 60) + fmt("' (%zu bytes) failed with '", value.size()) + esc(r.err, 80) + "' although memory suffices"); return; }
            if (key.size() > 250) return;
            if (ext && had) { n.val = verb == LV_APPEND ? before.val + value : value + before.val; n.len = n.val.size(); n.flags = before.flags; n.exp_lo = before.exp_lo; n.exp_hi = before.exp_hi; }
            resolve(key, h, had, before, faulted, n);
            return;
        }
        const bool must_fail = key.size() > 250 || key.size() + value.size() > page || (ext && had && r.out == L_STORED && key.size() + total > page);
        if (must_fail) { violation("data", vn + " of '" + esc(key.substr(0, 20), 60) + fmt("' with a key of %zu bytes and a value of %zu bytes was accepted", key.size(), value.size())); return; }
        exact(cmd);
        bool alive_ok = had && can_live(before), dead_ok = !had || can_die(before) || !cb;
        auto bad = [&](const char * what) { violation("data", vn + " of '" + esc(key, 60) + "' reported " + what + (had ? " although the key exists" : " although the key does not exist")); };
        bool stored = false;
        switch (verb) {
        case LV_SET: if (r.out != L_STORED) bad("no success"); if (alive_ok && dead_ok) { maybe("set_new"); maybe("set_existing"); } else exact(alive_ok ? "set_existing" : "set_new"); stored = true; break;
        case LV_ADD: if (r.out == L_STORED) { if (!dead_ok) bad("stored"); stored = true; exact("add_stored"); } else { if (!alive_ok) bad("not stored"); exact("add_not_stored"); } break;
        case LV_REPLACE: if (r.out == L_STORED) { if (!alive_ok) bad("stored"); stored = true; exact("replace_stored"); } else { if (!dead_ok) bad("not stored"); else drop(key); exact("replace_not_stored"); } break;
        case LV_CAS:
            if (r.out == L_STORED) { exact("cas_stored"); stored = true; if (!alive_ok) bad("stored"); else if (before.tok ? before.tok != tok : used[key].count(tok) != 0) violation("data", "cas of '" + esc(key, 60) + fmt("' with the outdated token %llu succeeded", (unsigned long long)tok)); else used[key].insert(tok); }
            else if (r.out == L_EXISTS) { exact("cas_badval"); if (!alive_ok) bad("exists"); else if (before.tok && before.tok == tok) violation("data", "cas of '" + esc(key, 60) + "' with the current token was rejected"); }
            else { exact("cas_misses"); if (!dead_ok) bad("not found"); else drop(key); }
            break;
        case LV_APPEND: case LV_PREPEND:
            if (r.out == L_STORED) { exact(vn + "_stored"); if (!alive_ok) { bad("stored"); break; } stored = true; n.val = verb == LV_APPEND ? before.val + value : value + before.val; n.len = n.val.size(); n.flags = before.flags; n.exp_lo = before.exp_lo; n.exp_hi = before.exp_hi; }
            else { exact(vn + "_misses"); if (!dead_ok) bad("not stored"); else drop(key); }
            break;
        }
        bool overwrite = stored && alive_ok && !ext;
        if (stored) put(key, n);
        prot = stored ? (overwrite ? string() : key) : (verb == LV_ADD && alive_ok ? key : string());
    }

    void arith(bool incr, const string & key, u32 h, u64 delta) {
        const string vn = incr ? "incr" : "decr"; auto it0 = model.find(key); const bool had0 = it0 != model.end(); MI before = had0 ? it0->second : MI();
        begin(); LibResult r = c->arith(incr, key, h, delta); const bool faulted = g_alloc_failed > fails_before; const bool had_room = room(upper(key, 20), 1); prot.clear();   // looking the counter up uses it, too
        end(key, true, upper(key, 20), 1);
        ev(vn + " " + esc(key, 40) + fmt(" %llu -> %d %llu", (unsigned long long)delta, (int)r.out, (unsigned long long)r.num)); count("operations");
        if (has_violation()) return;
        const bool had = had0; u64 x = 0; const bool numeric = had && parse_u64(before.val, x);
        MI n = before; u64 y = incr ? (~0ull - x >= delta ? x + delta : ~0ull) : (x >= delta ? x - delta : 0); n.val = std::to_string(y); n.len = n.val.size(); n.tok = 0; n.hash = h;
        prot.clear();
        if (r.out == L_ERROR) {
            maybe("cmd_" + vn); maybe(vn + "_hits"); maybe(vn + "_misses"); errs.insert(vn); count("errors_reported");
            bool ok = faulted || (had && can_live(before) && !numeric) || !evict || key.size() + 20 + 64 > page;
            if (!ok) { violation("data", vn + " of '" + esc(key, 60) + "' ('" + esc(before.val, 40) + "') failed with '" + esc(r.err, 80) + "'"); return; }
            if (!faulted && numeric && had_room && key.size() + 20 + 64 <= page) { violation("data", vn + " of '" + esc(key, 60) + "' failed with '" + esc(r.err, 80) + "' although memory suffices"); return; }
            resolve(key, h, had, before, faulted && numeric, n); return;
        }
        exact("cmd_" + vn);
        if (r.out == L_NOT_FOUND) { exact(vn + "_misses"); if (had && !can_die(before) && cb && model.count(key)) violation("data", vn + " of '" + esc(key, 60) + "' reported not found although the key exists"); else drop(key); return; }
        exact(vn + "_hits");
        if (!had || !can_live(before)) { violation("data", vn + " of '" + esc(key, 60) + "' succeeded although the key does not exist"); return; }
        if (!numeric) { violation("data", vn + " of '" + esc(key, 60) + "' succeeded although its value '" + esc(before.val, 40) + "' is not a number"); return; }
        if (r.num != y) { violation("data", vn + " of " + before.val + fmt(" by %llu returned %llu instead of %llu", (unsigned long long)delta, (unsigned long long)r.num, (unsigned long long)y)); return; }
        put(key, n); prot = key;
    }

    void del(const string & key, u32 h) {
        begin(); LibResult r = c->del(key, h); end(key, false, 0, 0); ev("delete " + esc(key, 40) + fmt(" -> %d", (int)r.out)); count("operations"); prot.clear();
        exact("cmd_delete"); auto it = model.find(key); bool had = it != model.end();
        if (r.out == L_OK) { exact("delete_hits"); if (!had || !can_live(it->second)) violation("data", "delete of '" + esc(key, 60) + "' succeeded although the key does not exist"); drop(key); }
        else if (r.out == L_NOT_FOUND) { exact("delete_misses"); if (had && !can_die(it->second) && cb) violation("data", "delete of '" + esc(key, 60) + "' found nothing although the key exists"); drop(key); }
        else violation("data", "delete failed with '" + esc(r.err, 60) + "'");
    }
    void touch(const string & key, u32 h, u64 ttl) {
        begin(); LibResult r = c->touch(key, h, ttl); end(key, false, 0, 0); ev("touch " + esc(key, 40) + fmt(" %llu -> %d", (unsigned long long)ttl, (int)r.out)); count("operations"); prot.clear();
        exact("cmd_touch"); auto it = model.find(key); bool had = it != model.end();
        if (r.out == L_OK) {
            exact("touch_hits"); if (!had || !can_live(it->second)) { violation("data", "touch of '" + esc(key, 60) + "' succeeded although the key does not exist"); return; }
            MI & m = it->second; if (ttl) { m.exp_lo = cap_exp(t_lo + (i64)(ttl - 1) * SEC); m.exp_hi = t_hi + (i64)ttl * SEC; } else m.exp_lo = m.exp_hi = FOREVER;
            prot = key;
        } else if (r.out == L_NOT_FOUND) { exact("touch_misses"); if (had && !can_die(it->second) && cb) violation("data", "touch of '" + esc(key, 60) + "' found nothing although the key exists"); drop(key); }
        else violation("data", "touch failed with '" + esc(r.err, 60) + "'");
    }
    void flush() {
        begin(); LibResult r = c->flush(); end("", false, 0, 0); ev(fmt("flush -> %d", (int)r.out)); count("operations"); prot.clear(); exact("cmd_flush");
        if (r.out != L_OK) { violation("data", "flush_all failed"); return; }
        vector<string> gone; for (auto & m : model) if (!can_live(m.second)) gone.push_back(m.first);
        for (auto & k : gone) drop(k);
    }
    void stats() {
        if (!stats_check) return;
        c->publish(); t_lo = t_hi = g_steady_ns; count("stats_checked");
        std::map<string, u64> got; lib_stats(got);
        auto bad = [&](const string & m) { violation("stats", m); };
        for (auto & w : want) {
            if (!got.count(w.first)) { if (w.first.compare(0, 4, "cmd_") == 0 || w.second.first) { bad("statistic " + w.first + " is missing"); return; } continue; }
            u64 g = got[w.first]; if (g < w.second.first || g > w.second.second) { bad(fmt("%s is %llu, expected %llu..%llu", w.first.c_str(), (unsigned long long)g, (unsigned long long)w.second.first, (unsigned long long)w.second.second)); return; }
        }
        auto sum = [&](const char * v, vector<string> parts, const char * t) { if (errs.count(v)) return; u64 s = 0; for (auto & p : parts) s += got[p]; if (s != got[t]) bad(string("the outcomes of ") + v + " do not add up to " + t); };
        sum("get", {"get_hits", "get_misses"}, "cmd_get"); sum("set", {"set_new", "set_existing"}, "cmd_set"); sum("add", {"add_stored", "add_not_stored"}, "cmd_add"); sum("replace", {"replace_stored", "replace_not_stored"}, "cmd_replace");
        sum("cas", {"cas_stored", "cas_badval", "cas_misses"}, "cmd_cas"); sum("delete", {"delete_hits", "delete_misses"}, "cmd_delete"); sum("touch", {"touch_hits", "touch_misses"}, "cmd_touch"); sum("incr", {"incr_hits", "incr_misses"}, "cmd_incr");
        sum("decr", {"decr_hits", "decr_misses"}, "cmd_decr"); sum("append", {"append_stored", "append_misses"}, "cmd_append"); sum("prepend", {"prepend_stored", "prepend_misses"}, "cmd_prepend");
        if (got["limit_maxbytes"] != mem) bad("limit_maxbytes is not the configured memory"); if (got["page_size"] != page) bad("page_size is not the configured one");
        if (cb && got["evictions"] != total_evicted) bad(fmt("evictions is %llu but %llu items were evicted", (unsigned long long)got["evictions"], (unsigned long long)total_evicted));
        u64 certain = 0, bytes = 0; for (auto & m : model) if (!can_die(m.second)) { ++certain; bytes += m.first.size() + m.second.len; }
        if (!cb) { certain = 0; bytes = 0; }
        if (got["used_memory"] > mem) bad(fmt("used_memory %llu exceeds the limit", (unsigned long long)got["used_memory"]));
        if (bytes > mem) violation("data", "the live items are larger than the configured memory");
        if (got["used_memory"] < bytes) bad(fmt("used_memory %llu is less than the %llu bytes stored", (unsigned long long)got["used_memory"], (unsigned long long)bytes));
        if (model.empty() && got["used_memory"] != 0) bad(fmt("used_memory is %llu although the cache is empty", (unsigned long long)got["used_memory"]));
        if (got["used_memory"] == 0 && certain) bad("used_memory is zero although items are stored");
        if (!c_api) {
            u64 ci = got["curr_items"];
            if (ci < certain || ci > model.size()) bad(fmt("curr_items is %llu, expected %llu..%zu", (unsigned long long)ci, (unsigned long long)certain, model.size()));
            if (got["hash_capacity"] < ci) bad("hash_capacity is less than curr_items");
            if (got["num_malloc"] - got["num_alloc_errors"] - got["num_free"] - got["evictions"] != ci) bad(fmt("num_malloc - num_alloc_errors - num_free - evictions is %lld but there are %llu items", (long long)(got["num_malloc"] - got["num_alloc_errors"] - got["num_free"] - got["evictions"]), (unsigned long long)ci));
        }
    }

    void clear_all() { // delete every item
        vector<string> ks; for (auto & m : model) ks.push_back(m.first);
        for (auto & k : ks) { del(k, hashes[k]); if (has_violation()) return; }
        model.clear(); used_upper = 0;
    }
    static u64 fill_up(LibCache * x, u64 len, bool c_api) {
        u64 n = 0; string v(len, 'f');
        for (;; ++n) { string k = "cap" + std::to_string(n); LibResult r = x->store(LV_SET, k, lib_hash(k, c_api), v, 0, 0, 0); if (r.out != L_STORED || n > 100000) break; }
        return n;
    }

    void exec(const string & l) {
        vector<string> t = split(l); if (t.empty()) return; const string & a = t[0];
        auto num = [&](size_t i) -> u64 { return i < t.size() ? strtoull(t[i].c_str(), nullptr, 10) : 0; };
        if (a == "rep" && t.size() >= 3) { const string rest = l.substr(l.find(' ', 4) + 1); for (u64 n = num(1); n-- && !has_violation();) exec(rest); return; }
        if (a == "op" && t.size() >= 8) { // op <verb> <key> <hash> <flags> <ttl> <value> <x>
            const string & v = t[1]; string key = make_key(t[2]); u32 h = hash_of(t[3], key); hashes[key] = h; u32 fl = t[4] == "-" ? 0 : (u32)num(4) & 0xffff; u64 ttl = t[5] == "-" ? 0 : num(5);
            string val = t[6] == "-" || t[6] == "0" ? string() : make_value(t[6]);
            auto lt = learnt.find(key); u64 tok = t[7][0] == 'g' ? (lt == learnt.end() ? 1 : lt->second.back()) : t[7] == "o" ? (lt == learnt.end() ? 2 : lt->second[lt->second.size() / 2]) : num(7);
            if (t[7][0] == 'g' && t[7].size() > 2) { const u64 d = strtoull(t[7].c_str() + 2, nullptr, 10); tok = t[7][1] == '^' ? tok ^ (1ull << (d & 63)) : t[7][1] == '+' ? tok + d : tok - d; }
            if (v == "get") get(key, h);
            else if (v == "set") store(LV_SET, v, key, h, val, fl, ttl, 0); else if (v == "add") store(LV_ADD, v, key, h, val, fl, ttl, 0);
            else if (v == "replace") store(LV_REPLACE, v, key, h, val, fl, ttl, 0); else if (v == "append") store(LV_APPEND, v, key, h, val, fl, ttl, 0);
            else if (v == "prepend") store(LV_PREPEND, v, key, h, val, fl, ttl, 0); else if (v == "cas" && !c_api) store(LV_CAS, v, key, h, val, fl, ttl, tok);
            else if (v == "delete") del(key, h); else if (v == "touch") touch(key, h, ttl);
            else if (v == "incr") arith(true, key, h, num(7)); else if (v == "decr") arith(false, key, h, num(7));
            else if (v == "scratch") { begin(); LibResult r = c->create_and_destroy(key, h, val); end(key, true, upper(key, val.size()), 1); ev(fmt("scratch -> %d", (int)r.out)); prot.clear(); }
        }
        else if (a == "fill") { // fill <prefix> <from> <n> <len> <hashmode> <ttl>
            char m = t.size() > 5 ? t[5][0] : '-'; for (u64 i = num(2); i < num(2) + num(3) && !has_violation(); ++i) { string k = t[1] + std::to_string(i); u32 h = m == '-' ? lib_hash(k, c_api) : hash_mode(m, i); store(LV_SET, "set", k, h, make_value(fmt("%llu.%llu.b", (unsigned long long)i, (unsigned long long)num(4))), (u32)i & 0xffff, num(6), 0); }
        }
        else if (a == "scan") { char m = t.size() > 4 ? t[4][0] : '-'; for (u64 i = num(2); i < num(2) + num(3) && !has_violation(); ++i) { string k = t[1] + std::to_string(i); get(k, m == '-' ? lib_hash(k, c_api) : hash_mode(m, i)); } }
        else if (a == "purge") { char m = t.size() > 5 ? t[5][0] : '-'; for (u64 i = num(2); i < num(2) + num(3) && !has_violation(); i += std::max<u64>(1, num(4))) { string k = t[1] + std::to_string(i); del(k, m == '-' ? lib_hash(k, c_api) : hash_mode(m, i)); } }
        else if (a == "sset") { // sset <key> <len> <id>
            string key = t[1]; u32 h = lib_hash(key, c_api); hashes[key] = h; u64 len = num(2), id = num(3); bool had_room = room(upper(key, len), 1);
            begin(); LibResult r = c->store_sparse(key, h, len, id); end(key, true, upper(key, len), 1); ev("sset " + key + fmt(" %llu -> %d", (unsigned long long)len, (int)r.out)); count("operations"); prot.clear();
            if (has_violation()) return;
            if (r.out == L_ERROR) { if (key.size() + len + 64 <= page && (evict || had_room)) violation("data", "sparse store of " + key + fmt(" with %llu bytes failed: ", (unsigned long long)len) + r.err); maybe("cmd_set"); return; }
            if (key.size() + len > page) { violation("data", fmt("an item of %llu bytes was accepted although the page is smaller", (unsigned long long)len)); return; }
            exact("cmd_set"); bool fresh = !model.count(key); exact(fresh ? "set_new" : "set_existing"); MI n; n.val = sparse_expect(id, len); n.len = len; n.flags = 7; n.hash = h; put(key, n); if (fresh) prot = key;
        }
        else if (a == "move") { ev("move"); count("cache_moved"); long cd = g_alloc_countdown; g_alloc_countdown = -1; c->move(); g_alloc_countdown = cd; }
        else if (a == "flush") flush();
        else if (a == "stats") stats();
        else if (a == "clock") { i64 ns = (i64)num(1) * 1000000; g_steady_ns += ns; g_wall_ns += ns; g_sh->sim_ns += ns; count("clock_advances"); }
        else if (a == "wall") { g_wall_ns += atoll(t[1].c_str()) * 1000000ll; count("fault.wall_clock_jump"); }
        else if (a == "tickat") g_ticks.push_back({(long)std::max<u64>(1, num(1)), (i64)num(2) * 1000000});
        else if (a == "failalloc") { g_alloc_countdown = (long)num(1); g_alloc_burst = (long)std::max<u64>(1, num(2)); g_alloc_min_size = num(3); }
        else if (a == "clear") { clear_all(); stats(); }
        else if (a == "capacity") { // capacity <len>: an emptied cache takes as much as a new one
            if (evict || !capref.count(num(1))) return;
            clear_all(); if (has_violation()) return; stats(); if (has_violation()) return;
            u64 n = 0; string v(num(1), 'f');
            for (;; ++n) { string k = "cap" + std::to_string(n); bool e0 = errs.count("set"); size_t before = model.size(); store(LV_SET, "set", k, lib_hash(k, c_api), v, 0, 0, 0); (void)e0; if (has_violation()) return; if (model.size() == before) break; }
            count("capacity_refills"); ev(fmt("capacity %llu: %llu (new: %llu)", (unsigned long long)num(1), (unsigned long long)n, (unsigned long long)capref[num(1)]));
            if (n < capref[num(1)]) violation("data", fmt("an emptied cache takes %llu items of %llu bytes, a new one takes %llu", (unsigned long long)n, (unsigned long long)num(1), (unsigned long long)capref[num(1)]));
            clear_all(); stats();
        }
        else if (a == "callback") { cb = cb && num(1) != 0; c->set_callback(num(1) != 0); }
    }

    void run() {
        size_t i = 0; bool valid_known = false; (void)valid_known;
        for (; i < plan.size(); ++i) {
            vector<string> t = split(plan[i]); if (t.empty()) continue;
            if (t[0] == "start") { ++i; break; }
            if (t[0] == "failalloc") { exec(plan[i]); continue; }
            if (t[0] != "cfg" || t.size() < 3) continue;
            u64 v = strtoull(t[2].c_str(), nullptr, 10);
            if (t[1] == "api") c_api = t[2] == "c"; if (t[1] == "mem") mem = v; if (t[1] == "page") page = v; if (t[1] == "hash") hash = v; if (t[1] == "evict") evict = v != 0; if (t[1] == "cb") cb = v != 0;
            if (t[1] == "clock") g_steady_ns = (i64)v * 1000000; if (t[1] == "sparse") sparse = v != 0; if (t[1] == "capref") capref[v] = 0; if (t[1] == "stats") stats_check = v != 0;
        }
        g_wall_ns = 1700000000ll * SEC; g_evict_sparse = sparse;
        const bool ok = pow2(mem) && pow2(page) && pow2(hash) && page >= 256 && page <= 0xffffffffull && mem / 4 >= page && hash <= 0xffffffffull;
        long cd = g_alloc_countdown; string err;
        if (ok && !evict) { g_alloc_countdown = -1; for (auto & r : capref) { LibCache * x = lib_create(c_api, mem, page, hash, false, err); if (!x) break; r.second = fill_up(x, r.first, c_api); lib_destroy(x); } g_alloc_countdown = cd; lib_reset_stats(); }
        g_live_allocs = 0;
        u64 f0 = g_alloc_failed;
        c = lib_create(c_api, mem, page, hash, evict, err);
        ev(fmt("create %llu %llu %llu -> %d ", (unsigned long long)mem, (unsigned long long)page, (unsigned long long)hash, c != nullptr) + esc(err, 80));
        count(c ? "configurations_accepted" : "configurations_refused");
        if (!c) {
            if (err.empty()) violation("config", "the cache was refused without an error message");
            const bool huge = mem > (1ull << 33) || hash > (1ull << 26);
            if (ok && !huge && g_alloc_failed == f0) violation("config", fmt("valid options (memory %llu, page %llu, table %llu) were refused: ", (unsigned long long)mem, (unsigned long long)page, (unsigned long long)hash) + err);
            if (g_live_allocs && g_alloc_failed) violation("leak", fmt("%lld allocations were not released when the cache could not be created", (long long)g_live_allocs));
            if (!ok || huge || has_violation()) return;
            g_alloc_countdown = -1; g_live_allocs = 0; lib_reset_stats();
            c = lib_create(c_api, mem, page, hash, evict, err);
            if (!c) { violation("config", "the cache cannot be created after the faults stopped: " + err); return; }
        } else if (!ok) { violation("config", fmt("invalid options (memory %llu, page %llu, table %llu) were accepted", (unsigned long long)mem, (unsigned long long)page, (unsigned long long)hash)); return; }
        if (!cb) c->set_callback(false);
        for (; i < plan.size() && !has_violation(); ++i) { g_sh->line = i; exec(plan[i]); if (!model.empty() && i % 16 == 0) stats(); }
        if (has_violation()) return;
        ev("drain"); g_sh->in_drain = 1; g_ticks.clear(); g_alloc_countdown = -1; prot.clear();
        stats();
        vector<std::pair<string, u32>> ks(hashes.begin(), hashes.end());
        for (auto & k : ks) { if (has_violation()) return; if (k.first.size() <= 250) get(k.first, k.second); }
        if (!has_violation()) flush();
        if (!has_violation()) stats();
        if (!has_violation() && !sparse) store(LV_SET, "set", "__probe__", lib_hash("__probe__", c_api), "probe", 1, 0, 0), prot.clear();
        if (!has_violation() && !sparse && model.count("__probe__")) get("__probe__", lib_hash("__probe__", c_api));
        if (!has_violation()) { clear_all(); stats(); }
        if (has_violation()) return;
        lib_destroy(c); c = nullptr;
        if (g_live_allocs != 0) violation("leak", fmt("%lld allocations of the library were not released when the cache was destroyed", (long long)g_live_allocs));
    }
};

} // namespace

void run_library(const Plan & plan) {
    LibWorld w(plan); w.run();
    g_sh->finished = 1; _exit(0);
}

} // namespace sim
