// Linearizability checker: per key, just-in-time linearization over a small executable model of one item.
#pragma once
#include "core.h"
#include <algorithm>
#include <memory>
#include <set>

namespace sim {

enum Verb { V_GET, V_GETS, V_SET, V_ADD, V_REPLACE, V_CAS, V_APPEND, V_PREPEND, V_DELETE, V_TOUCH, V_INCR, V_DECR, V_OTHER };
enum Outcome { R_UNKNOWN, R_STORED, R_NOT_STORED, R_EXISTS, R_NOT_FOUND, R_DELETED, R_TOUCHED, R_NUMBER, R_HIT, R_MISS, R_ERROR };

const u64 SEQ_INF = ~0ull;
const i64 NEVER = INT64_MAX;

struct LOp {
    int sess = 0; u64 order = 0;          // operations of one session on one key happen in `order`
    u64 inv = 0, resp = SEQ_INF;
    bool must = true;                     // must have taken effect (by resp, or by the end of the run)
    Verb verb = V_GET; Outcome out = R_UNKNOWN;
    string value; u32 flags = 0; u64 ttl = 0, delta = 0, tok = 0;   // arguments
    string rvalue; u32 rflags = 0; u64 rtok = 0; bool has_rtok = false; u64 rnum = 0;  // reply
    bool err_ok = false;                  // an error reply is acceptable and means "nothing changed"
    bool err_may_apply = false;           // an error reply may also hide an applied write (allocation faults)
    bool must_fail = false;               // the request exceeds a limit: success is not acceptable
    string desc;
};

struct LClock { u64 seq; i64 lo, hi; };   // from seq on the clock reads between lo and hi

struct LVal : string { u64 hash; explicit LVal(const string & s) : string(s), hash(hash_str(s)) {} };
struct KState {
    bool present = false; std::shared_ptr<const LVal> val; u32 flags = 0;
    i64 exp_lo = NEVER, exp_hi = NEVER; u64 tok = 0, used_hash = 0; vector<u64> used;
    typedef std::pair<u64, u64> Key;       // a digest: two states are the same if their digests are
    static u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9ull; h = (h ^ (h >> 27)) * 0x94d049bb133111ebull; return h ^ (h >> 31); }
    static void put(Key & k, u64 x) { k.first = mix(k.first, x); k.second = mix(k.second + 0x2545f4914f6cdd1dull, ~x); }
    Key key() const {
        Key k(present, 1);
        if (present) { put(k, flags); put(k, (u64)exp_lo); put(k, (u64)exp_hi); put(k, tok); put(k, val->hash); put(k, val->size()); }
        put(k, used.size()); put(k, used_hash); return k;
    }
    void retire() { if (tok) { auto it = std::lower_bound(used.begin(), used.end(), tok); if (it == used.end() || *it != tok) { used.insert(it, tok); used_hash += mix(0, tok); } } tok = 0; }
    void kill() { retire(); present = false; val.reset(); flags = 0; exp_lo = exp_hi = NEVER; }
    bool is_used(u64 t) const { return std::binary_search(used.begin(), used.end(), t); }
};

struct LinEnv {
    bool may_evict = false;      // items may vanish at any time
    size_t page_size = 0; size_t key_len = 0;
};

class LinChecker {
public:
    LinChecker(const vector<LOp> & ops, const vector<LClock> & clocks, LinEnv env) : m_ops(ops), m_clocks(clocks), m_env(env) {}
    /// 1: linearizable, 0: not (explanation in why), -1: gave up
    int check(string & why);
    u64 steps = 0;
private:
    struct Config { KState st; vector<unsigned> pos; };   // pos: number of linearized operations of each session
    void step(const KState & st, const LOp & op, vector<KState> & out);
    void pre(const KState & s, vector<KState> & out);
    bool done(const Config & c, int i) const { return c.pos[m_sess[i]] > m_index[i]; }
    void closure(vector<Config> & cfgs, int target);
    static KState::Key ckey(const Config & c) { KState::Key k = c.st.key(); for (unsigned n : c.pos) KState::put(k, n); return k; }
    const vector<LOp> & m_ops; const vector<LClock> & m_clocks; LinEnv m_env;
    std::map<const LOp *, std::shared_ptr<const LVal>> m_vals;
    vector<vector<int>> m_by;           // operations of each session in their order
    vector<unsigned> m_sess, m_index;   // session and position in it of each operation
    vector<char> m_invoked, m_over;     // invoked, response processed
    size_t m_open = 0;                  // invoked, response not yet processed
    i64 m_lo = 0, m_hi = 0;
    bool m_overflow = false;
};

inline void LinChecker::pre(const KState & s, vector<KState> & out) {
    if (!s.present) { out.push_back(s); return; }
    bool may_live = s.exp_hi == NEVER || m_lo < s.exp_hi;
    bool may_die = m_env.may_evict || (s.exp_lo != NEVER && m_hi > s.exp_lo);
    if (may_live) out.push_back(s);
    if (may_die || !may_live) { KState d = s; d.kill(); out.push_back(d); }
}

inline void LinChecker::step(const KState & st, const LOp & op, vector<KState> & out) {
    ++steps;
    vector<KState> ps; pre(st, ps);
    for (const KState & s : ps) {
        const bool any = op.out == R_UNKNOWN;
        auto fresh = [&](const string & v, u32 fl, i64 lo, i64 hi) {
            KState n = s; n.retire(); n.present = true; if (&v == &op.value) { auto & c = m_vals[&op]; if (!c) c = std::make_shared<const LVal>(v); n.val = c; } else n.val = std::make_shared<const LVal>(v); n.flags = fl; n.exp_lo = lo; n.exp_hi = hi; return n;
        };
        i64 lo = NEVER, hi = NEVER;
        if (op.ttl) { lo = m_lo + (i64)(op.ttl - 1) * 1000000000ll; hi = m_hi + (i64)op.ttl * 1000000000ll; }
        const bool write = op.verb != V_GET && op.verb != V_GETS;
        if (op.out == R_ERROR || (any && op.err_ok)) {
            bool numeric_err = false; u64 x;
            if ((op.verb == V_INCR || op.verb == V_DECR) && s.present && !parse_u64(*s.val, x)) numeric_err = true;
            bool big = false;
            if ((op.verb == V_APPEND || op.verb == V_PREPEND) && s.present && s.val->size() + op.value.size() + m_env.key_len + 64 > m_env.page_size) big = true;
            if (op.err_ok || numeric_err || big) out.push_back(s);
            if (!(any || (op.err_may_apply && write))) continue;
        }
        if (op.must_fail && !any) { if (op.out != R_ERROR) continue; }
        const bool a = any || (op.out == R_ERROR && op.err_may_apply);
        switch (op.verb) {
        case V_GET: case V_GETS:
            if (a) { out.push_back(s); break; }
            if (op.out == R_MISS) { if (!s.present) out.push_back(s); }
            else if (op.out == R_HIT) {
                if (!s.present || *s.val != op.rvalue || s.flags != op.rflags) break;
                KState n = s;
                if (op.has_rtok) {
                    if (n.tok == 0) { if (n.is_used(op.rtok)) break; n.tok = op.rtok; }
                    else if (n.tok != op.rtok) break;
                }
                out.push_back(n);
            }
            break;
        case V_SET: if (a || op.out == R_STORED) out.push_back(fresh(op.value, op.flags, lo, hi)); break;
        case V_ADD:
            if (s.present) { if (a || op.out == R_NOT_STORED) out.push_back(s); }
            else if (a || op.out == R_STORED) out.push_back(fresh(op.value, op.flags, lo, hi));
            break;
        case V_REPLACE:
            if (!s.present) { if (a || op.out == R_NOT_STORED) out.push_back(s); }
            else if (a || op.out == R_STORED) out.push_back(fresh(op.value, op.flags, lo, hi));
            break;
        case V_CAS:
            if (!s.present) { if (a || op.out == R_NOT_FOUND) out.push_back(s); break; }
            if (s.tok) {
                if (s.tok == op.tok) { if (a || op.out == R_STORED) out.push_back(fresh(op.value, op.flags, lo, hi)); }
                else if (a || op.out == R_EXISTS) out.push_back(s);
            } else {
                if (a || op.out == R_EXISTS) out.push_back(s);
                if ((a || op.out == R_STORED) && !s.is_used(op.tok)) {
                    KState t = s; t.tok = op.tok; t.retire();
                    KState n = fresh(op.value, op.flags, lo, hi); n.used = t.used; n.used_hash = t.used_hash; out.push_back(n);
                }
            }
            break;
        case V_APPEND: case V_PREPEND:
            if (!s.present) { if (a || op.out == R_NOT_STORED) out.push_back(s); break; }
            if (a || op.out == R_STORED) {
                if (s.val->size() + op.value.size() + m_env.key_len > m_env.page_size) { if (any) out.push_back(s); break; }
                out.push_back(fresh(op.verb == V_APPEND ? *s.val + op.value : op.value + *s.val, s.flags, s.exp_lo, s.exp_hi));
            }
            break;
        case V_DELETE:
            if (!s.present) { if (a || op.out == R_NOT_FOUND) out.push_back(s); }
            else if (a || op.out == R_DELETED) { KState n = s; n.kill(); out.push_back(n); }
            break;
        case V_TOUCH:
            if (!s.present) { if (a || op.out == R_NOT_FOUND) out.push_back(s); }
            else if (a || op.out == R_TOUCHED) { KState n = s; n.exp_lo = lo; n.exp_hi = hi; out.push_back(n); }
            break;
        case V_INCR: case V_DECR: {
            if (!s.present) { if (a || op.out == R_NOT_FOUND) out.push_back(s); break; }
            u64 x;
            if (!parse_u64(*s.val, x)) { if (any) out.push_back(s); break; }
            u64 y = op.verb == V_INCR ? (~0ull - x >= op.delta ? x + op.delta : ~0ull) : (x >= op.delta ? x - op.delta : 0);
            if (a || (op.out == R_NUMBER && op.rnum == y)) out.push_back(fresh(std::to_string(y), s.flags, s.exp_lo, s.exp_hi));
            break; }
        default: out.push_back(s);
        }
    }
}

/// target >= 0: all ways to linearize pending operations so that target is linearized; target < 0: all ways at all
inline void LinChecker::closure(vector<Config> & cfgs, int target) {
    std::set<KState::Key> seen; vector<Config> work, result;
    for (auto & c : cfgs) if (seen.insert(ckey(c)).second) work.push_back(c);
    while (!work.empty()) {
        Config c = std::move(work.back()); work.pop_back();
        bool has = target >= 0 && done(c, target);
        if (has || target < 0) result.push_back(c);
        if (has) continue;               // lazily: nothing else needs to be linearized now
        for (size_t q = 0; q < m_by.size(); ++q) {     // the next one of each session
            if (c.pos[q] == m_by[q].size()) continue;
            const int i = m_by[q][c.pos[q]];
            if (!m_invoked[i]) continue;
            vector<KState> nx; step(c.st, m_ops[i], nx);
            for (auto & st : nx) {
                Config n; n.st = st; n.pos = c.pos; ++n.pos[q];
                if (seen.size() > 20000) { m_overflow = true; return; }
                if (seen.insert(ckey(n)).second) work.push_back(std::move(n));
            }
        }
    }
    cfgs.swap(result);
}

inline int LinChecker::check(string & why) {
    struct E { u64 seq; int type, idx; };
    vector<E> evs; u64 last = 0;
    for (size_t i = 0; i < m_ops.size(); ++i) {
        evs.push_back({m_ops[i].inv, 1, (int)i});
        last = std::max(last, m_ops[i].inv);
        if (m_ops[i].resp != SEQ_INF) { evs.push_back({m_ops[i].resp, 2, (int)i}); last = std::max(last, m_ops[i].resp); }
    }
    for (size_t i = 0; i < m_clocks.size(); ++i) if (m_clocks[i].seq <= last) evs.push_back({m_clocks[i].seq, 0, (int)i});
    std::stable_sort(evs.begin(), evs.end(), [](const E & a, const E & b) { return a.seq != b.seq ? a.seq < b.seq : a.type < b.type; });
    m_over.assign(m_ops.size(), 0); m_invoked.assign(m_ops.size(), 0); m_sess.resize(m_ops.size()); m_index.resize(m_ops.size());
    std::map<int, vector<int>> by;
    for (size_t i = 0; i < m_ops.size(); ++i) by[m_ops[i].sess].push_back((int)i);
    for (auto & b : by) {
        std::stable_sort(b.second.begin(), b.second.end(), [&](int x, int y) { return m_ops[x].order < m_ops[y].order; });
        for (size_t i = 0; i < b.second.size(); ++i) { m_sess[b.second[i]] = (unsigned)m_by.size(); m_index[b.second[i]] = (unsigned)i; }
        m_by.push_back(b.second);
    }
    vector<Config> cfgs(1); cfgs[0].pos.assign(m_by.size(), 0);
    vector<string> recent;
    for (auto & e : evs) {
        if (e.type == 0) {
            if (m_open) closure(cfgs, -1);
            m_lo = m_clocks[e.idx].lo; m_hi = m_clocks[e.idx].hi;
        } else if (e.type == 1) {
            m_invoked[e.idx] = 1; ++m_open;
        } else {
            vector<Config> before = cfgs;
            closure(cfgs, e.idx);
            if (m_overflow) return -1;
            if (cfgs.empty()) {
                why = "no order of the requests explains: " + m_ops[e.idx].desc + "; the item could be";
                int n = 0; for (auto & c : before) { if (n++ == 3) break; why += " {" + (c.st.present ? "'" + esc(*c.st.val, 60) + "' flags " + std::to_string(c.st.flags) + (c.st.exp_lo == NEVER ? "" : fmt(" expiring at %lld..%lld ms", (long long)(c.st.exp_lo / 1000000), (long long)(c.st.exp_hi / 1000000))) + (c.st.tok ? fmt(" token %llu", (unsigned long long)c.st.tok) : string()) : string("absent")) + "}"; }
                why += fmt(" at clock %lld..%lld ms; before it:", (long long)(m_lo / 1000000), (long long)(m_hi / 1000000));
                size_t s = recent.size() > 6 ? recent.size() - 6 : 0;
                for (size_t i = s; i < recent.size(); ++i) why += " <" + recent[i] + ">";
                return 0;
            }
            m_over[e.idx] = 1; --m_open;
            recent.push_back(m_ops[e.idx].desc);
            // merge equal configurations
            std::set<KState::Key> u; vector<Config> m; for (auto & c : cfgs) if (u.insert(ckey(c)).second) m.push_back(std::move(c));
            cfgs.swap(m);
        }
        if (m_overflow) return -1;
    }
    // operations which must have happened but were never answered (noreply, closed connections)
    for (size_t i = 0; i < m_ops.size(); ++i) if (!m_over[i] && m_ops[i].must) {
        closure(cfgs, (int)i);
        if (m_overflow) return -1;
        if (cfgs.empty()) { why = "request cannot have been executed: " + m_ops[i].desc; return 0; }
    }
    return 1;
}

} // namespace sim
