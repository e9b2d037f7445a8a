// Runs the library's inline code with the library's own compiler flags.
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <cachelot/c_api.h>
#include "lib_api.h"

namespace sim {

vector<Evicted> g_evicted; bool g_evict_sparse = false; void (*g_on_freed)(void *) = nullptr;

static void fill_edge(char * p, u64 len, u64 id) {
    u64 n = std::min<u64>(len, 64);
    for (u64 i = 0; i < n; ++i) p[i] = (char)(mix64(id + i) & 0xff);
    for (u64 i = 0; i < n; ++i) p[len - 1 - i] = (char)(mix64(id * 3 + i) & 0xff);
}
string sparse_value(u64, u64 len, const char * data) {
    u64 n = std::min<u64>(len, 64); return string(data, n) + string(data + len - n, n);
}
string sparse_expect(u64 id, u64 len) {
    string s(std::min<u64>(len, 128) < 128 ? len : 128, 0);
    if (len <= 128) { fill_edge(&s[0], len, id); u64 n = std::min<u64>(len, 64); return s.substr(0, n) + s.substr(len - n, n); }
    fill_edge(&s[0], 128, id); return s;
}

static void evicted(const char * k, size_t kl, const char * v, size_t vl, u32 flags) {
    Harness h; Evicted e; e.key.assign(k, kl); e.len = vl;
    if (g_evict_sparse) e.value = sparse_value(0, vl, v); else e.value.assign(v, vl);
    e.flags = flags; g_evicted.push_back(e);
}
static void c_evicted(CachelotConstItemPtr i) { evicted(cachelot_item_get_key(i), cachelot_item_get_keylen(i), cachelot_item_get_value(i), cachelot_item_get_valuelen(i), 0); }

class CppCache : public LibCache {
public:
    std::unique_ptr<cachelot::cache::Cache> cp;
    CppCache(u64 mem, u64 page, u64 hash, bool evict) { { Sut s; cp.reset(new cachelot::cache::Cache(cachelot::cache::Cache::Create(mem, page, hash, evict))); } set_callback(true); }
    ~CppCache() { Sut s; cp.reset(); }
    void move() override { Sut s; std::unique_ptr<cachelot::cache::Cache> n(new cachelot::cache::Cache(std::move(*cp))); cp = std::move(n); }
    void set_callback(bool on) override {
        if (on) cp->on_eviction = [](cachelot::cache::ConstItemPtr i) { evicted(i->key().begin(), i->key().length(), i->value().begin(), i->value().length(), i->opaque_flags()); };
        else cp->on_eviction = nullptr;
    }
    template <class F> LibResult guard(F f) {
        LibResult r; Sut s;
        try { f(r); }
        catch (const std::exception & e) { Harness h; r.out = L_ERROR; r.err = e.what(); }
        return r;
    }
    LibResult store(LVerb v, const string & key, u32 hash, const string & value, u32 flags, u64 ttl, u64 tok) override {
        using namespace cachelot;
        return guard([&](LibResult & r) {
            auto i = cp->create_item(slice(key.data(), key.size()), hash, value.size(), (cache::opaque_flags_type)flags, cache::seconds((uint32)ttl));
            i->assign_value(slice(value.data(), value.size()));
            bool ok = true, found = true;
            switch (v) {
            case LV_SET: cp->do_set(i); break;
            case LV_ADD: ok = cp->do_add(i); break;
            case LV_REPLACE: ok = cp->do_replace(i); break;
            case LV_APPEND: ok = cp->do_append(i); break;
            case LV_PREPEND: ok = cp->do_prepend(i); break;
            case LV_CAS: std::tie(found, ok) = cp->do_cas(i, tok); break;
            }
            r.out = ok ? L_STORED : v == LV_CAS ? (found ? L_EXISTS : L_NOT_FOUND) : L_NOT_STORED;
        });
    }
    LibResult store_sparse(const string & key, u32 hash, u64 len, u64 id) override {
        using namespace cachelot;
        return guard([&](LibResult & r) {
            auto i = cp->create_item(slice(key.data(), key.size()), hash, len, 7, cache::Item::infinite_TTL);
            fill_edge(const_cast<char *>(i->value().begin()), len, id);
            cp->do_set(i); r.out = L_STORED;
        });
    }
    LibResult create_and_destroy(const string & key, u32 hash, const string & value) override {
        using namespace cachelot;
        return guard([&](LibResult & r) {
            auto i = cp->create_item(slice(key.data(), key.size()), hash, value.size(), 0, cache::Item::infinite_TTL);
            i->assign_value(slice(value.data(), value.size())); cp->destroy_item(i); r.out = L_OK;
        });
    }
    LibView get(const string & key, u32 hash, bool sparse) override {
        Sut s; LibView v; auto i = cp->do_get(cachelot::slice(key.data(), key.size()), hash);
        if (i) { Harness h; v.found = true; v.key.assign(i->key().begin(), i->key().length()); v.len = i->value().length(); v.value = sparse ? sparse_value(0, v.len, i->value().begin()) : string(i->value().begin(), v.len); v.flags = i->opaque_flags(); v.tok = i->timestamp(); v.ttl = i->ttl().count(); }
        return v;
    }
    LibResult del(const string & key, u32 hash) override { return guard([&](LibResult & r) { r.out = cp->do_delete(cachelot::slice(key.data(), key.size()), hash) ? L_OK : L_NOT_FOUND; }); }
    LibResult touch(const string & key, u32 hash, u64 ttl) override { return guard([&](LibResult & r) { r.out = cp->do_touch(cachelot::slice(key.data(), key.size()), hash, cachelot::cache::seconds((cachelot::uint32)ttl)) ? L_OK : L_NOT_FOUND; }); }
    LibResult arith(bool incr, const string & key, u32 hash, u64 delta) override {
        return guard([&](LibResult & r) {
            bool found; cachelot::uint64 n; cachelot::slice k(key.data(), key.size());
            std::tie(found, n) = incr ? cp->do_incr(k, hash, delta) : cp->do_decr(k, hash, delta);
            r.out = found ? L_NUMBER : L_NOT_FOUND; r.num = n;
        });
    }
    LibResult flush() override { return guard([&](LibResult & r) { cp->do_flush_all(); r.out = L_OK; }); }
    void publish() override { Sut s; cp->publish_stats(); }
};

class CCache : public LibCache {
public:
    CachelotPtr c; CachelotError e; u64 gets = 0;
    explicit CCache(CachelotPtr p) : c(p) { set_callback(true); }
    ~CCache() { Sut s; cachelot_destroy(c); }
    void set_callback(bool on) override { Sut s; cachelot_on_eviction_callback(c, on ? c_evicted : nullptr); }
    void clear() { e.code = 77777; e.category = nullptr; strcpy(e.desription, "left over"); }   // every call has to report its own outcome
    static CachelotItemKey K(const string & key, u32 hash) { CachelotItemKey k; k.key = key.data(); k.keylen = key.size(); k.hash = hash; return k; }
    LibResult fin(bool ok, LOut yes, LOut no) { LibResult r; if (e.code == 77777) violation("data", "the C API left the error struct as it was"); r.out = ok ? yes : no; if (e.code && (!e.category || !strcmp(e.desription, "left over"))) violation("data", "the C API reported an error without its category or description"); if (!ok && e.code) { r.out = L_ERROR; r.err = string("error ") + e.desription; } else if (ok && e.code) { r.out = L_ERROR; r.err = "success reported along with an error"; violation("data", "the C API returned success and an error code"); } return r; }
    LibResult store(LVerb v, const string & key, u32 hash, const string & value, u32, u64 ttl, u64) override {
        clear(); bool ok = false; CachelotItemPtr i;
        { Sut s; i = cachelot_create_item_raw(c, K(key, hash), value.data(), value.size(), &e);
          if (i) {
            if (ttl) cachelot_item_set_ttl_seconds(i, (uint32_t)ttl);
            if (e.code) { Harness h; violation("data", "cachelot_create_item_raw returned an item and an error"); }
            clear();
            switch (v) {
            case LV_SET: ok = cachelot_set(c, i, &e); break;
            case LV_ADD: ok = cachelot_add(c, i, &e); break;
            case LV_REPLACE: ok = cachelot_replace(c, i, &e); break;
            case LV_APPEND: ok = cachelot_append(c, i, &e); break;
            case LV_PREPEND: ok = cachelot_prepend(c, i, &e); break;
            default: break;
            } } }
        LibResult r = fin(ok, L_STORED, L_NOT_STORED);
        if (!i && r.out != L_ERROR) { r.out = L_ERROR; r.err = "no item and no error"; violation("data", "cachelot_create_item_raw returned neither an item nor an error"); }
        return r;
    }
    LibResult store_sparse(const string & key, u32 hash, u64 len, u64 id) override { return store(LV_SET, key, hash, string(len, (char)id), 0, 0, 0); }
    LibResult create_and_destroy(const string & key, u32 hash, const string & value) override {
        clear(); CachelotItemPtr i; { Sut s; i = cachelot_create_item_raw(c, K(key, hash), value.data(), value.size(), &e); if (i) cachelot_destroy_item(c, i); }
        return fin(i != nullptr, L_OK, L_ERROR);
    }
    LibView get(const string & key, u32 hash, bool) override {
        clear(); Sut s; LibView v; const bool null = ++gets % 5 == 0; auto i = cachelot_get_unsafe(c, K(key, hash), null ? nullptr : &e); if (null) e.code = 0;
        if (e.code) { Harness h; violation("data", e.code == 77777 ? "cachelot_get_unsafe left the error struct as it was" : "cachelot_get_unsafe failed"); }
        if (i) { Harness h; v.found = true; v.key.assign(cachelot_item_get_key(i), cachelot_item_get_keylen(i)); v.len = cachelot_item_get_valuelen(i); v.value.assign(cachelot_item_get_value(i), v.len); v.ttl = cachelot_item_get_ttl_seconds(i); }
        return v;
    }
    LibResult del(const string & key, u32 hash) override { clear(); bool ok; { Sut s; ok = cachelot_delete(c, K(key, hash), &e); } return fin(ok, L_OK, L_NOT_FOUND); }
    LibResult touch(const string & key, u32 hash, u64 ttl) override { clear(); bool ok; { Sut s; ok = cachelot_touch(c, K(key, hash), (uint32_t)ttl, &e); } return fin(ok, L_OK, L_NOT_FOUND); }
    LibResult arith(bool incr, const string & key, u32 hash, u64 delta) override {
        clear(); bool ok; uint64_t n = 0; { Sut s; ok = incr ? cachelot_incr(c, K(key, hash), delta, &n, &e) : cachelot_decr(c, K(key, hash), delta, &n, &e); }
        LibResult r = fin(ok, L_NUMBER, L_NOT_FOUND); r.num = n; return r;
    }
    LibResult flush() override { clear(); { Sut s; cachelot_flush_all(c, &e); } return fin(e.code == 0, L_OK, L_ERROR); }
    void publish() override {}
    void move() override {}
};

LibCache * lib_create(bool c_api, u64 mem, u64 page, u64 hash, bool evict, string & err) {
    try {
        if (c_api) {
            CachelotOptions o; o.memory_limit = mem; o.mem_page_size = page; o.initial_dict_size = hash; o.enable_evictions = evict; CachelotError e; memset(&e, 0, sizeof e); e.code = 77777;
            CachelotPtr p; { Sut s; p = cachelot_init(o, &e); }
            if (e.code == 77777) violation("data", "cachelot_init left the error struct as it was");
            if (!p) { err = e.code && e.code != 77777 ? string("error ") + e.desription : ""; return nullptr; }
            if (e.code) violation("data", "cachelot_init returned a cache and an error");
            return new CCache(p);
        }
        return new CppCache(mem, page, hash, evict);
    } catch (const std::exception & e) { err = e.what(); return nullptr; }
}
void lib_destroy(LibCache * c) { delete c; }
u32 lib_hash(const string & key, bool c_api) { Sut s; if (c_api) return cachelot_hash(key.data(), key.size()); cachelot::cache::HashFunction f; return f(cachelot::slice(key.data(), key.size())); }
void lib_reset_stats() { cachelot::ResetStats(); }
void lib_stats(std::map<string, u64> & out) {
    using namespace cachelot;
    #define X_CACHE(t, n, d) out[#n] = (u64)__stats__.cache.n;
    #define X_MEM(t, n, d) out[#n] = (u64)__stats__.mem.n;
    CACHE_STATS(X_CACHE)
    MEMORY_STATS(X_MEM)
}

class Alloc : public LibAlloc {
public:
    cachelot::memalloc m;
    Alloc(u64 mem, u64 page) : m(mem, (cachelot::uint32)page) {}
    void * alloc(u64 n) override { Sut s; return m.alloc(n); }
    void * alloc_or_evict(u64 n, vector<void *> & freed) override {
        Sut s; return m.alloc_or_evict(n, true, [&](void * p) { Harness h; freed.push_back(p); if (g_on_freed) g_on_freed(p); });
    }
    void * realloc(void * p, u64 n) override { Sut s; return m.realloc_inplace(p, n); }
    void free(void * p) override { Sut s; m.free(p); }
    void touch(void * p) override { Sut s; m.touch(p); }
    u64 actual(void * p) override { Sut s; return m.reveal_actual_size(p); }
    u64 header() override { return cachelot::memalloc::header_size(); }
    u64 arena_size() override { return m.arena_size; }
    u64 page_size() override { return m.page_size; }
};
LibAlloc * alloc_create(u64 mem, u64 page, string & err) { try { Sut s; return new Alloc(mem, page); } catch (const std::exception & e) { err = e.what(); return nullptr; } }
void alloc_destroy(LibAlloc * a) { Sut s; delete a; }

} // namespace sim
