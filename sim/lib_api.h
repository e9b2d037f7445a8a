// The library under test behind a small interface (implemented in adapter_lib.cpp with the compiler flags of the library).
#pragma once
#include "core.h"

namespace sim {

enum LOut { L_STORED, L_NOT_STORED, L_EXISTS, L_NOT_FOUND, L_OK, L_NUMBER, L_ERROR };
struct LibResult { LOut out; string err; u64 num; LibResult() : out(L_ERROR), num(0) {} };
struct LibView { bool found; string key, value; u32 flags; u64 tok, len; u64 ttl; LibView() : found(false), flags(0), tok(0), len(0), ttl(0) {} };
struct Evicted { string key, value; u32 flags; u64 len; };

enum LVerb { LV_SET, LV_ADD, LV_REPLACE, LV_CAS, LV_APPEND, LV_PREPEND };

class LibCache {
public:
    virtual ~LibCache() {}
    virtual LibResult store(LVerb v, const string & key, u32 hash, const string & value, u32 flags, u64 ttl, u64 tok) = 0;
    /// value of `len` bytes, only the first and the last bytes of it are written
    virtual LibResult store_sparse(const string & key, u32 hash, u64 len, u64 id) = 0;
    virtual LibResult create_and_destroy(const string & key, u32 hash, const string & value) = 0;
    virtual LibView get(const string & key, u32 hash, bool sparse) = 0;
    virtual LibResult del(const string & key, u32 hash) = 0;
    virtual LibResult touch(const string & key, u32 hash, u64 ttl) = 0;
    virtual LibResult arith(bool incr, const string & key, u32 hash, u64 delta) = 0;
    virtual LibResult flush() = 0;
    virtual void publish() = 0;
    virtual void move() = 0;      // to another object (C++ API)
    virtual void set_callback(bool on) = 0;
};
extern vector<Evicted> g_evicted; extern bool g_evict_sparse;
LibCache * lib_create(bool c_api, u64 mem, u64 page, u64 hash, bool evict, string & err);
void lib_destroy(LibCache *);
u32 lib_hash(const string & key, bool c_api);
void lib_reset_stats();
void lib_stats(std::map<string, u64> & out);
string sparse_value(u64 id, u64 len, const char * data);   // digest of a sparse value read back
string sparse_expect(u64 id, u64 len);

// --- allocator ---
class LibAlloc {
public:
    virtual ~LibAlloc() {}
    virtual void * alloc(u64 n) = 0;
    virtual void * alloc_or_evict(u64 n, vector<void *> & freed) = 0;
    virtual void * realloc(void * p, u64 n) = 0;
    virtual void free(void * p) = 0;
    virtual void touch(void * p) = 0;
    virtual u64 actual(void * p) = 0;
    virtual u64 header() = 0;
    virtual u64 arena_size() = 0;
    virtual u64 page_size() = 0;
};
LibAlloc * alloc_create(u64 mem, u64 page, string & err);
void alloc_destroy(LibAlloc *);
extern void (*g_on_freed)(void *);

} // namespace sim
