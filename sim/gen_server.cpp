// Plan generators of the server world: one seed = one workload, schedule and fault sequence.
#include "core.h"
#include <errno.h>
#include <signal.h>

namespace sim {

namespace {

struct Mix { // relative weights of the steps
    int req = 30, burst = 6, deliver = 20, deliver_all = 10, poll = 25, clock = 3, wall = 0, window = 0, space = 0, open = 0, conn = 3, halfclose = 0, close = 0, reset = 0,
        raw = 0, fail = 0, failalloc = 0, tick = 0, spur = 0, usr1 = 0, udp = 0, ublock = 0, wild = 0, quit = 0;
};

struct Gen {
    Rng & r; Plan & p; Mix w; const string & name;
    int nkeys = 4; size_t page = 65536, mem = 4u << 20, maxval = 20000; string pressure = "none";
    int next_conn = 0; vector<int> live; u64 vid = 0, dgid = 0; int max_conns = 4;
    bool has_tcp = true, has_unix = false, has_udp = false; bool noreply = true, flush = true, big_keys = false, numeric = false, small_only = false;
    int ttl_percent = 5, max_ttl = 5; int noreply_percent = 12; int private_percent = 0; std::map<int, int> priv; bool windowed = false;
    vector<string> twins; std::set<string> long_keys; bool stats_verb = true;
    int acked = 0;

    Gen(Rng & rr, Plan & pp, const string & n) : r(rr), p(pp), name(n) {}
    void add(const string & l) { p.push_back(l); }

    string key() {
        u64 k = r.below(nkeys);
        if (k < twins.size()) return twins[k];
        if (big_keys && k % 3 == 1) return fmt("K%llu*%d", (unsigned long long)k, k % 2 ? 250 : 249);
        return fmt("k%llu", (unsigned long long)k);
    }
    u64 octave(unsigned top) { const u64 b = 1ull << r.below(top); return b + r.below(b); }   // any order of magnitude
    string value(size_t cap = 0) {
        if (!cap) cap = maxval;
        ++vid;
        static const char * modes[] = {"a", "b", "c"};
        u64 len; unsigned q = (unsigned)r.below(100);
        if (q < 4) return "0";
        if (q < 60 || small_only) len = r.range(3, 40);
        else if (q < 85) len = r.range(40, 700);
        else len = r.range(500, cap);
        len = std::min<u64>(len, cap);
        return fmt("%llu.%llu.%s", (unsigned long long)vid, (unsigned long long)len, modes[r.below(3)]);
    }
    string number() {
        static const char * edge[] = {"0", "1", "9", "10", "99", "100", "18446744073709551615", "18446744073709551614", "9999999999999999999", "10000000000000000000", "4294967295", "4294967296", "18446744073709551610", "9223372036854775807", "9223372036854775808", "00", "007", "18446744073709551616", "99999999999999999999", "20000000000000000000", "19000000000000000000", "18446744073709551700", "184467440737095516150"};
        if (r.chance(55)) return string(edge[r.below(23)]) + ".0.n";
        if (r.chance(30)) return fmt("%llu.0.n", (unsigned long long)r.next());
        if (r.chance(20)) { static const char * bad[] = {"x", "12a", "-1", "+5", "1\\x20", "\\x201", "1.5", "0x10"}; return string(bad[r.below(8)] == string("1.5") ? "1,5" : bad[r.below(8)]) + ".0.t"; }
        return fmt("%llu.0.n", (unsigned long long)r.below(2000));
    }
    string delta() {
        static const char * edge[] = {"0", "1", "18446744073709551615", "18446744073709551614", "9", "10", "4294967296", "9223372036854775808"};
        if (r.chance(35)) return edge[r.below(8)];
        if (r.chance(20)) return fmt("%llu", (unsigned long long)r.next());
        return fmt("%llu", (unsigned long long)r.below(1000));
    }
    string ttl() { return ttl_percent && (int)r.below(100) < ttl_percent ? fmt("%llu", (unsigned long long)(r.chance(2) ? 4294967295ull : r.chance(5) ? 100 : r.range(1, max_ttl))) : "0"; }
    string flags() { return r.chance(50) ? "0" : r.chance(20) ? "65535" : fmt("%llu", (unsigned long long)r.below(65536)); }
    string nr() { return noreply && (int)r.below(100) < noreply_percent ? "1" : "0"; }

    /// g: the version read last, o: an older one, g^n: with one bit changed, g+n, g-n
    string token() { return r.chance(62) ? "g" : r.chance(30) ? (r.chance(60) ? fmt("g^%llu", (unsigned long long)r.below(64)) : r.chance(50) ? fmt("g+%llu", (unsigned long long)1 << r.below(64)) : fmt("g-%llu", (unsigned long long)1 << r.below(64))) : r.chance(70) ? "o" : fmt("%llu", (unsigned long long)r.below(60)); }

    /// the seven request fields
    string request(bool udp = false) {
        unsigned q = (unsigned)r.below(100); string k = key();
        size_t cap = udp ? std::min<size_t>(maxval, r.chance(70) ? 3000 : 62000) : 0;
        if (noreply && pressure == "none" && r.chance(3)) { // keys that only ever hold small numbers, so that incr and decr without reply cannot fail
            const string n = fmt("n%d", (int)r.below(2)), nn = nr(); const unsigned w = (unsigned)r.below(10);
            if (w < 2) return "set " + n + " 0 0 " + fmt("%llu.0.n", (unsigned long long)r.below(1000)) + " - " + nn;
            if (w < 7) return string(w < 5 ? "incr " : "decr ") + n + " - - - " + fmt("%llu", (unsigned long long)r.below(300)) + " " + (r.chance(60) ? "1" : "0");
            if (w < 8) return "delete " + n + " - - - - " + nn;
            return "get " + n + " - - - - 0";
        }
        if (numeric) {
            string nn = nr();
            if (q < 14) return "set " + k + " " + flags() + " " + ttl() + " " + number() + " - " + nn;
            if (q < 18) return "add " + k + " " + flags() + " " + ttl() + " " + number() + " - " + nn;
            if (q < 45) return "incr " + k + " - - - " + delta() + " 0";
            if (q < 65) return "decr " + k + " - - - " + delta() + " 0";
            if (q < 70) return "append " + k + " 0 0 " + fmt("%llu.0.n", (unsigned long long)r.below(10)) + " - 0";
            if (q < 74) return "delete " + k + " - - - - " + nn;
            if (q < 80) return "cas " + k + " " + flags() + " 0 " + number() + " g 0";
            if (q < 90) return "gets " + k + " - - - - 0";
            return "get " + k + " - - - - 0";
        }
        if (q < 24) return "set " + k + " " + flags() + " " + ttl() + " " + value(cap) + " - " + nr();
        if (q < 29) return "add " + k + " " + flags() + " " + ttl() + " " + value(cap) + " - " + nr();
        if (q < 34) return "replace " + k + " " + flags() + " " + ttl() + " " + value(cap) + " - " + nr();
        if (q < 46) return "cas " + k + " " + flags() + " " + ttl() + " " + value(cap) + " " + token() + " " + nr();
        if (q < 50) return "append " + k + " 0 0 " + value(150) + " - " + (pressure == "none" ? nr() : "0");
        if (q < 53) return "prepend " + k + " 0 0 " + value(150) + " - " + (pressure == "none" ? nr() : "0");
        if (q < 60) return "delete " + k + " - - - - " + nr();
        if (q < 63) return "touch " + k + " - " + ttl() + " - - " + nr();
        if (q < 66) return string(r.chance(50) ? "incr " : "decr ") + k + " - - - " + delta() + " 0";
        if (q < 67) return "set " + k + " 0 0 " + number() + " - 0";
        if (q < 82 || udp) {
            string ks = k; unsigned n = udp ? (unsigned)r.below(2) : r.chance(40) ? (unsigned)r.below(5) : 0;
            if (udp && maxval > 12000 && maxval < 100000) n = 0;
            while (n--) ks += "," + key();
            return string(r.chance(65) ? "gets " : "get ") + ks + " - - - - 0";
        }
        if (q < 94) return string(r.chance(50) ? "gets " : "get ") + k + " - - - - 0";
        if (q < 96) return "version - - - - - 0";
        if (q < 98 && flush) return "flush_all - - - - - " + nr();
        if (stats_verb) return "stats - - - - - 0";
        return "get " + k + " - - - - 0";
    }

    void new_conn() {
        int c = next_conn++;
        add(fmt("conn %d %s", c, has_unix && (!has_tcp || r.chance(50)) ? "unix" : "tcp"));
        live.push_back(c);
    }
    int any_conn() { if (live.empty() || (live.size() == 1 && r.chance(5))) new_conn(); return live[r.below(live.size())]; }
    void drop(int c) { for (size_t i = 0; i < live.size(); ++i) if (live[i] == c) { live.erase(live.begin() + i); break; } }
    void req_on(int c) {
        if (private_percent && (int)r.below(100) < private_percent) {
            int n = priv[c]++; ++vid;
            add(fmt("req %d set q%d_%d 0 0 %llu.%llu.%s - %d", c, c, n, (unsigned long long)vid, (unsigned long long)r.range(4, r.chance(20) ? 3000 : 60), r.chance(50) ? "c" : "a", r.chance(40) ? 1 : 0));
        } else add(fmt("req %d ", c) + request());
    }

    string hostile_line() {
        string k = key(); string big(r.range(251, 400), 'L');
        vector<string> v = {
            "bogus\r\n", "\r\n", " \r\n", "get\r\n", "get \r\n", "gett " + k + "\r\n", "GET " + k + "\r\n", "set\r\n", "add\r\n", "cas\r\n", "delete\r\n", "touch\r\n", "incr\r\n", "set " + k + "\r\n", "set " + k + " 0\r\n", "set " + k + " 0 0\r\n",
            "set " + k + " 0 0 -1\r\n", "set " + k + " 0 0 abc\r\n", "set " + k + " 0 0 99999999999999999999\r\n", "delete " + k + " bogus\r\n", "delete " + k + " 0 0\r\n", "incr " + k + " abc\r\n", "incr " + k + " -1\r\n", "incr " + k + "\r\n",
            "incr " + k + " 99999999999999999999999\r\n", "incr " + k + " 18446744073709551616\r\n", "decr " + k + " 1 bogus\r\n", "touch " + k + " x\r\n", "touch " + k + "\r\n", "stats foo\r\n", "version x\r\n", "flush_all x\r\n", "flush_all 10 10\r\n",
            "get " + big + "\r\n", "get " + k + " " + big + "\r\n", "delete " + big + "\r\n", "incr " + big + " 1\r\n", "touch " + big + " 1\r\n", "gets " + big + " " + k + "\r\n", "STORED\r\n", "END\r\n", "VALUE " + k + " 0 1\r\n", "verbosity 1\r\n", "\r\r\n", "\x01\x02\x03\r\n", "se\r\n", "s\r\n", "fluhs_all\r\n", "quitt\r\n", "statss\r\n",
            "\xff\xfe\r\n", string("set\0k 0 0 1\r\n", 13), "get" + string(r.range(300, 3000), 'x') + "\r\n", string(r.range(500, 20000), 'A') + "\r\n", string("\n\r\n"), "get\t" + k + "\r\n",
            "get  " + k + "\r\n", "get " + k + "  " + k + "\r\n", "gets \r\n", "delete \r\n", "delete  " + k + "\r\n", "incr  1\r\n", "incr  " + k + " 1\r\n", "incr " + k + "  1\r\n", "decr " + k + " \r\n", "touch " + k + " \r\n", "touch  " + k + " 1\r\n", "touch " + k + " -1\r\n", "touch " + k + " 4294967296\r\n",
            "touch " + k + " 1 noreply x\r\n", "incr " + k + " 1 noreplyx\r\n", "delete " + k + " noreplyy\r\n", "incr " + k + " 1.5\r\n", "incr " + k + " 0x10\r\n", "incr " + k + " +1\r\n", "decr " + k + " 1 1\r\n", " get " + k + "\r\n", "flush_all 5\r\n", "flush_all noreply x\r\n", "touch " + k + " 1.0\r\n", "touch " + k + " 0 NOREPLY\r\n",
            "get " + string(251, 'L') + "\r\n", "delete " + string(251, 'L') + "\r\n", "incr " + string(251, 'L') + " 1\r\n", "touch " + string(251, 'L') + " 1\r\n", "get " + k + " " + string(251, 'M') + " " + k + "\r\n",
        };
        if (r.chance(25)) { // a valid request with something after it
            static const char * tail[] = {"0", "1", "x", "noreply noreply", "NOREPLY", "norepl", "noreply0", "noreply 0", "0 noreply", "-1", "-", "Noreply", "noreplz", "aoreply", "no reply", "\\0", "60", "1 noreply"};
            vector<string> h = {"delete " + k, "incr " + k + " " + delta(), "decr " + k + " " + delta(), "touch " + k + " " + ttl(), "flush_all", "version"};
            const size_t w = r.below(h.size()); const string t = tail[r.below(18)]; return h[w] + (w == 4 && r.chance(10) ? "  " : " ") + t + "\r\n";
        }
        if (r.chance(15)) { // a name that is almost a command
            static const char * names[] = {"get", "gets", "set", "add", "cas", "incr", "decr", "touch", "stats", "delete", "append", "prepend", "replace", "version", "flush_all", "quit"};
            string n = names[r.below(16)]; const size_t at = r.below(n.size());
            switch (r.below(4)) { case 0: n[at] = (char)('a' + r.below(26)); break; case 1: n[at] = (char)toupper(n[at]); break; case 2: n.erase(at, 1); break; default: n.insert(at, 1, n[at]); }
            bool real = n.empty(); for (auto x : names) real = real || n == x;
            if (!real) { static const char * rest[] = {"", " K", " K 1", " K 0 0 1", " K 1 noreply", " K 0 0 1 1"}; string a = rest[r.below(6)]; const size_t p = a.find('K'); if (p != string::npos) a.replace(p, 1, k); return n + a + "\r\n"; }
        }
        return v[r.below(v.size())];
    }
    string hostile_block() { // refused storage requests with their data block
        string k = key(); string big(r.range(251, 400), 'L'); string evil;
        vector<string> blocks = {"hello", "flush_all", "delete k0", "\r\ndelete k0\r\n", "set k1 0 0 3\r\nbad", "quit", "incr k0 1", "", "set k0 0 0 1\r\nX\r\nset k1 0 0 1\r\nY", "version", "get k0"};
        evil = blocks[r.below(blocks.size())];
        static const char * verbs[] = {"set", "add", "replace", "append", "prepend"};
        string v = verbs[r.below(5)]; string n = std::to_string(evil.size());
        switch (r.below(21)) {
        case 20: { static const char * tail[] = {"0", "1", "noreply noreply", "norepl", "aoreply", "noreplz", "0 noreply", "noreply 0", "-1"}; const bool c = r.chance(20); return (c ? string("cas") : v) + " " + k + " 0 0 " + n + (c ? " 7 " : " ") + tail[r.below(9)] + "\r\n" + evil + "\r\n"; }
        case 8: return v + "  0 0 " + n + "\r\n" + evil + "\r\n";
        case 9: return "cas " + k + " 0 0 " + n + "\r\n" + evil + "\r\n";
        case 10: return "cas " + k + " 0 0 " + n + (r.chance(50) ? " -1" : " 18446744073709551616") + "\r\n" + evil + "\r\n";
        case 11: return "cas " + k + " 0 0 " + n + " 1 x\r\n" + evil + "\r\n";
        case 12: return v + " " + k + " -1 0 " + n + "\r\n" + evil + "\r\n";
        case 13: return v + " " + k + " 0 -1 " + n + "\r\n" + evil + "\r\n";
        case 14: return v + " " + k + " 0 0 " + n + " noreply x\r\n" + evil + "\r\n";
        case 15: return v + " " + k + (r.chance(50) ? "  0 " : " 0  ") + n + "\r\n" + evil + "\r\n";
        case 16: return v + " " + k + " 0 0 " + n + (r.chance(50) ? " NOREPLY" : " noreplyx") + "\r\n" + evil + "\r\n";
        case 17: return v + " " + string(251, 'L') + " 0 0 " + n + "\r\n" + evil + "\r\n";
        case 18: return v + " " + k + " 1.5 0 " + n + "\r\n" + evil + "\r\n";
        case 19: return v + " " + k + " 0 1s " + n + "\r\n" + evil + "\r\n";
        case 0: return v + " " + big + " 0 0 " + n + "\r\n" + evil + "\r\n";
        case 1: return v + " " + k + " x 0 " + n + "\r\n" + evil + "\r\n";
        case 2: return v + " " + k + " 0 x " + n + "\r\n" + evil + "\r\n";
        case 3: return v + " " + k + " 0 0 " + n + " bogus\r\n" + evil + "\r\n";
        case 4: return v + " " + k + " 65536 0 " + n + "\r\n" + evil + "\r\n";
        case 5: return "cas " + k + " 0 0 " + n + " notnum\r\n" + evil + "\r\n";
        case 6: return v + " " + k + " 0 4294967296 " + n + "\r\n" + evil + "\r\n";
        default: { // larger than a page, made of commands
            string b; while (b.size() <= page) b += r.chance(50) ? "delete k0\r\n" : "set k1 0 0 1\r\nX\r\n";
            return v + " " + k + " 0 0 " + std::to_string(b.size()) + "\r\n" + b + "\r\n"; }
        }
    }
    /// a data block that is not followed by CR LF
    string unterminated() {
        static const char * verbs[] = {"set", "add", "replace", "append", "prepend"}; static const char * ends[] = {"\n\r", "\rX", "X\n", "\r\r", "XX", "\n\n", "  "};
        string b; for (u64 n = r.chance(80) ? r.below(40) : r.range(400, 2000); n--;) b += (char)('a' + r.below(26)); if (r.chance(20)) b += "\r\n";
        return string(verbs[r.below(5)]) + " " + (r.chance(50) ? key() : string("wk")) + " 0 0 " + std::to_string(b.size()) + "\r\n" + b + ends[r.below(7)];
    }
    string wild_bytes() {
        if (r.chance(15)) { static const char * a[] = {"set K 0 0 3\r\nzzz\r\n", "delete K\r\n", "append K 0 0 3\r\nzzz\r\n", "set K 0 0 3 noreply\r\nzzz\r\n", "delete K noreply\r\n"}; string t = a[r.below(5)]; t.replace(t.find('K'), 1, key()); return string(1, (char)0x80) + t; } // the binary protocol is not supported: no such request is executed
        switch (r.below(7)) {
        case 0: return "set wk 0 0 3\r\nabcdef\r\n";
        case 1: { string s; s += (char)0x80; for (int i = 0; i < 30; ++i) s += (char)r.below(256); return s; }
        case 2: return "set wk 0 0 4294967295\r\nfoo\r\n";
        case 3: return "set wk 0 0 4294967290\r\n";
        case 4: return "set wk 0 0 3\r\nab\r\nEND\r\n";
        case 5: { string s = "x"; for (u64 n = r.range(1, 400); n--;) { char c = (char)r.below(256); s += c == 'k' || c == 'q' ? '.' : c; } return s; }
        default: return "set wk 0 0 40000000\r\nbar\r\n";
        }
    }
    void raw(int c) {
        if (r.chance(55)) add(fmt("raw %d E1 ", c) + esc(hostile_line()));
        else add(fmt("raw %d E1 ", c) + esc(hostile_block()));
    }

    void fault() {
        switch (r.below(has_udp ? 9 : 7)) {
        case 0: add(fmt("fail accept %d %llu", r.chance(50) ? EMFILE : ENFILE, (unsigned long long)r.range(1, 4))); break;
        case 1: add(fmt("fail accept %d %llu", r.chance(50) ? EPERM : ENETDOWN, (unsigned long long)r.range(1, 3))); break;
        case 2: add(fmt("fail accept %d 1", r.chance(50) ? ENOMEM : ENOBUFS)); break;
        case 3: add(fmt("fail epoll_wait %d %llu", EINTR, (unsigned long long)r.range(1, 3))); break;
        case 4: add(fmt("fail recv %d %llu", EINTR, (unsigned long long)r.range(1, 2))); break;
        case 5: add(fmt("fail send %d %llu", EINTR, (unsigned long long)r.range(1, 2))); break;
        case 6: add(fmt("fail accept %d %llu", EINTR, (unsigned long long)r.range(1, 2))); break;
        case 7: { static const int e[] = {ECONNREFUSED, EINTR, ENOBUFS, ENOMEM, EHOSTUNREACH, ENETDOWN}; add(fmt("fail recvfrom %d %llu", e[r.below(6)], (unsigned long long)r.range(1, 2))); break; }
        default: { static const int e[] = {ECONNREFUSED, ENOBUFS, EMSGSIZE, EPERM, ENETUNREACH, EHOSTUNREACH, ENOMEM, EINTR, EACCES}; add(fmt("fail sendto %d %llu", e[r.below(9)], (unsigned long long)r.range(1, 2))); break; }
        }
    }
    void udp_step() {
        if (dgid == 0 || r.chance(60)) {
            static const char * modes[] = {"zero", "seq", "multi", "resv", "short", "empty", "hdronly", "cut", "bad", "line", "seqm"};
            string m = r.chance(78) ? "ok" : modes[r.below(11)];
            add(fmt("udp %llu %llu %llu %s ", (unsigned long long)dgid, (unsigned long long)(5000 + r.below(3)), (unsigned long long)(r.chance(15) ? r.below(3) : r.below(65536)), m.c_str()) + request(true));
            u64 id = dgid++;
            if (r.chance(85)) add(fmt("ud %llu", (unsigned long long)id)); else if (r.chance(40)) add(fmt("udrop %llu", (unsigned long long)id));
        } else add(fmt("ud %llu", (unsigned long long)(r.chance(60) ? dgid - 1 - r.below(std::min<u64>(dgid, 4)) : r.below(dgid))));  // late or duplicated
    }

    void step() {
        int tot = w.req + w.burst + w.deliver + w.deliver_all + w.poll + w.clock + w.wall + w.window + w.space + w.open + w.conn + w.halfclose + w.close + w.reset + w.raw + w.fail + w.failalloc + w.tick + w.spur + w.usr1 + w.udp + w.ublock + w.wild + w.quit;
        int q = (int)r.below(tot);
        auto is = [&](int n) { if (q < n) { q = 1 << 30; return true; } q -= n; return false; };
        if (is(w.req)) { req_on(any_conn()); }
        else if (w.burst >= 6 && noreply && pressure == "none" && r.chance(2) && is(w.burst)) { // many requests without reply, in one segment if the buffer is large enough
            int c = any_conn(); if (r.chance(60)) { add(fmt("req %d set %s 0 0 %llu.%llu.a - 0", c, key().c_str(), (unsigned long long)++vid, (unsigned long long)std::min<u64>(maxval, r.range(1000, 12000)))); add(fmt("deliver %d 100000000", c)); add("poll 5 0"); }
            const u64 n = (u64)1 << r.range(3, 8); const unsigned style = (unsigned)r.below(3);
            for (u64 i = n + r.below(n); i--;) {
                if (private_percent && style < 2) { add(fmt("req %d set q%d_%d 0 0 %llu.%llu.c - 1", c, c, priv[c], (unsigned long long)++vid, (unsigned long long)r.range(4, 9))); ++priv[c]; }
                else if (style == 0) add(fmt("req %d delete none%llu - - - - 1", c, (unsigned long long)r.below(5)));
                else if (style == 1) add(fmt("req %d set s%llu 0 0 %llu.%llu.c - 1", c, (unsigned long long)(r.below(60)), (unsigned long long)++vid, (unsigned long long)r.range(4, 9)));
                else add(fmt("req %d touch none - 0 - - 1", c));
            }
            if (r.chance(70)) add(fmt("req %d ", c) + request());
            if (r.chance(80)) add(fmt("deliver %d 100000000", c)); if (r.chance(60)) add(fmt("poll %llu 0", (unsigned long long)r.range(1, 20)));
        }
        else if (is(w.burst)) { int c = any_conn(); for (u64 n = r.range(2, 7); n--;) req_on(c); if (r.chance(60)) { add(fmt("deliver %d 100000000", c)); if (r.chance(60)) add(fmt("poll %llu 0", (unsigned long long)r.below(1000))); } }
        else if (is(w.deliver)) { int c = any_conn(); add(fmt("deliver %d %llu", c, (unsigned long long)(r.chance(40) ? r.range(1, 6) : r.chance(50) ? r.range(1, 40) : r.chance(15) ? octave(20) : r.range(20, 3000)))); if (r.chance(55)) add(fmt("poll %llu %llu", (unsigned long long)r.below(1000), (unsigned long long)(r.chance(70) ? 0 : r.range(1, 2)))); }
        else if (is(w.deliver_all)) { int c = any_conn(); add(fmt("deliver %d 100000000", c)); if (r.chance(70)) add(fmt("poll %llu 0", (unsigned long long)r.below(1000))); }
        else if (is(w.poll)) add(fmt("poll %llu %llu", (unsigned long long)r.below(1000), (unsigned long long)(r.chance(60) ? 0 : r.range(1, 3))));
        else if (is(w.clock)) add(fmt("clock %llu", (unsigned long long)(r.chance(40) ? r.range(1, 300) : r.chance(70) ? r.range(300, 2500) : r.range(2000, 20000))));
        else if (is(w.wall)) add(fmt("wall %lld", (long long)r.range(0, 200000000) - 100000000));
        else if (is(w.window)) { add(fmt("window %d %llu", any_conn(), (unsigned long long)(r.chance(40) ? 0 : r.chance(20) ? octave(21) : r.range(1, 200)))); windowed = true; }
        else if (is(w.space)) { add(fmt("space %d %llu", any_conn(), (unsigned long long)(r.chance(20) ? octave(21) : r.range(1, r.chance(50) ? 9 : 900)))); if (r.chance(50)) add("poll 1 0"); }
        else if (is(w.open)) { add(fmt("open %d", any_conn())); if (r.chance(50)) add("poll 2 0"); }
        else if (is(w.conn)) { if ((int)live.size() < max_conns && next_conn < 14) new_conn(); }
        else if (is(w.halfclose)) { int c = any_conn(); add(fmt("halfclose %d", c)); if (r.chance(50)) add(fmt("deliver %d 100000000", c)); drop(c); }
        else if (is(w.close)) { int c = any_conn(); add(fmt("close %d", c)); drop(c); }
        else if (is(w.reset)) { int c = any_conn(); add(fmt("reset %d", c)); drop(c); }
        else if (is(w.raw)) raw(any_conn());
        else if (is(w.fail)) { fault(); }
        else if (is(w.failalloc)) { add(fmt("failalloc %llu %llu %llu", (unsigned long long)r.below(r.chance(50) ? 4 : 30), (unsigned long long)(r.chance(60) ? 1 : r.range(2, 6)), (unsigned long long)(r.chance(50) ? 0 : 400))); }
        else if (is(w.tick)) add(fmt("tickat %llu %llu", (unsigned long long)r.range(1, 4), (unsigned long long)(r.chance(50) ? r.range(200, 1100) : r.range(900, 5000))));
        else if (is(w.spur)) add(fmt("spur %d", any_conn()));
        else if (is(w.usr1)) { add(fmt("signal %d", SIGUSR1)); if (r.chance(50)) add("poll 3 0"); }
        else if (is(w.udp)) udp_step();
        else if (is(w.ublock)) add(r.chance(40) ? "ublock" : "uopen");
        else if (is(w.wild)) { int c = any_conn(); if (r.chance(50)) add(fmt("raw %d EW ", c) + esc(unterminated())); add(fmt("raw %d C ", c) + esc(wild_bytes())); add(fmt("deliver %d 100000000", c)); add("poll 4 0"); drop(c); }
        else if (is(w.quit)) { int c = any_conn(); add(fmt("req %d quit - - - - - 0", c)); drop(c); }
    }

    void header(const string & extra = "") {
        add("world S");
        string a = "arg -p " + string(has_tcp ? "11211" : "0") + " -U " + (has_udp ? "11211" : "0");
        if (has_unix) a += " -s /tmp/sim.sock";
        add(a);
        add(fmt("arg -m %lluK -P %lluK", (unsigned long long)(mem / 1024), (unsigned long long)(page / 1024)));
        if (pressure == "oom") add("arg -M");
        if (!extra.empty()) add(extra);
        add(fmt("cfg mem %llu", (unsigned long long)mem)); add(fmt("cfg page %llu", (unsigned long long)page)); add("cfg pressure " + pressure);
        add(fmt("cfg clock %llu", (unsigned long long)(r.chance(30) ? r.range(1, 999) : r.range(1000, 10000000))));
    }
    void run(u64 steps) { add("start"); if (has_tcp || has_unix) new_conn(); while (steps--) step(); }
};

} // namespace

/// long lines, large values and large replies in small pieces, and long pipelines
static void cost_plan(Rng & r, Plan & p) {
    static const string name = "s_cost"; Gen g(r, p, name); Mix & w = g.w; g.page = 1u << 20; g.mem = 8u << 20; g.maxval = 2000; g.flush = false; g.has_unix = r.chance(30); g.max_conns = 3; g.nkeys = (int)r.range(2, 5);
    w.conn = 4; w.window = 0; g.header(); g.add("cfg meter 1"); g.run(r.range(5, 30));
    for (u64 n = r.range(1, 4); n--;) {
        const int c = g.any_conn(); const u64 segs = r.range(200, 2500); u64 len; g.add(fmt("deliver %d 100000000", c)); g.add("poll 1 0");
        switch (r.below(9)) {
        case 6: { string ks = "m0"; for (int i = 0; i < 8; ++i) g.add(fmt("req %d set m%d 0 0 %llu.%llu.a - 0", c, i, (unsigned long long)++g.vid, (unsigned long long)r.range(1, 300))); for (u64 i = r.range(500, 4000); i--;) ks += r.chance(20) ? fmt(",m%d", (int)r.below(9)) : fmt(",absent%llu", (unsigned long long)r.below(3000)); g.add(fmt("req %d %s ", c, r.chance(50) ? "get" : "gets") + ks + " - - - - 0"); if (r.chance(50)) g.add(fmt("deliver %d 100000000", c)); else g.add(fmt("trickle %d %llu 3000", c, (unsigned long long)r.range(10, 3000))); break; }
        case 5: len = r.range(100000, 1000000); g.add(fmt("req %d set %s 0 0 %llu.%llu.a - 0", c, g.key().c_str(), (unsigned long long)++g.vid, (unsigned long long)len)); g.add(fmt("deliver %d 100000000", c)); for (int i = 0; i < 12; ++i) g.add("poll 1 0"); g.add(fmt("reqs %llu %d version - - - - - 0", (unsigned long long)r.range(1000, 20000), c)); g.add(fmt("deliver %d 100000000", c)); break;
        case 0: len = r.chance(20) ? r.range(1000000, 6000000) : r.range(20000, 400000); g.add(fmt("raw %d E1 %s\\R%llu,%s;\\x0d\\x0a", c, r.chance(50) ? "get\\x20" : "", (unsigned long long)len, r.chance(70) ? "41" : r.chance(50) ? "0d" : "20")); g.add(fmt("trickle %d %llu %llu", c, (unsigned long long)std::max<u64>(1, len / segs), (unsigned long long)segs)); break;
        case 1: case 2: len = r.range(20000, 1000000); g.add(fmt("req %d set %s 0 0 %llu.%llu.%s - 0", c, g.key().c_str(), (unsigned long long)++g.vid, (unsigned long long)len, r.chance(50) ? "a" : "b")); g.add(fmt("trickle %d %llu %llu", c, (unsigned long long)std::max<u64>(1, len / segs), (unsigned long long)segs + 1)); break;
        case 7: { // the header of a storage request may be long, too
            len = r.range(1000, 100000); const u64 h = r.range(3000, 1000000); const char * cmd[] = {"set", "add", "append", "cas", "replace"}; string hd = fmt("raw %d E1 %s\\x20", c, cmd[r.below(5)]);
            if (r.chance(50)) hd += fmt("\\R%llu,6b;\\x200\\x200\\x20%llu", (unsigned long long)h, (unsigned long long)len); else hd += fmt("k0\\x200\\x200\\x20%llu\\x20\\R%llu,%s;", (unsigned long long)len, (unsigned long long)h, r.chance(50) ? "31" : "20");
            g.add(hd + fmt("\\x0d\\x0a\\R%llu,42;\\x0d\\x0a", (unsigned long long)len)); if (r.chance(50)) g.add(fmt("deliver %d %llu", c, (unsigned long long)h + 100)); g.add(fmt("trickle %d %llu %llu", c, (unsigned long long)std::max<u64>(1, len / segs), (unsigned long long)segs + 1)); break; }
        case 3: len = r.range(1100000, 4000000); g.add(fmt("raw %d E1 set\\x20k0\\x200\\x200\\x20%llu\\x0d\\x0a\\R%llu,42;\\x0d\\x0a", c, (unsigned long long)len, (unsigned long long)len)); g.add(fmt("trickle %d %llu %llu", c, (unsigned long long)std::max<u64>(1, len / segs), (unsigned long long)segs + 1)); break;
        case 4: for (u64 i = r.range(100, 700); i--;) g.add(fmt("req %d ", c) + g.request()); if (r.chance(50)) g.add(fmt("deliver %d 100000000", c)); else g.add(fmt("trickle %d %llu 5000", c, (unsigned long long)r.range(3, 3000))); break;
        default: { const string k = g.key(); len = r.range(100000, 1000000); g.add(fmt("req %d set %s 0 0 %llu.%llu.a - 0", c, k.c_str(), (unsigned long long)++g.vid, (unsigned long long)len)); g.add(fmt("deliver %d 100000000", c)); g.add("poll 1 0"); g.add("poll 1 0"); g.add(fmt("window %d 0", c)); g.add(fmt("req %d gets %s - - - - 0", c, k.c_str())); g.add(fmt("deliver %d 100000000", c)); g.add("poll 1 0"); g.add(fmt("drip %d %llu %llu", c, (unsigned long long)std::max<u64>(1, len / segs), (unsigned long long)segs)); if (r.chance(80)) g.add(fmt("open %d", c)); }
        }
        for (u64 i = r.below(6); i--;) g.step();
    }
}
/// much traffic, many connections, slow readers: what the server holds on to
static void mem_plan(Rng & r, Plan & p) {
    static const string name = "s_mem"; Gen g(r, p, name); Mix & w = g.w; g.page = 1u << r.range(16, 20); g.mem = g.page * 16; g.maxval = 2000; g.flush = false; g.has_unix = r.chance(30); g.has_udp = r.chance(40); g.max_conns = 4; g.nkeys = (int)r.range(2, 8);
    w.conn = 4; w.raw = 0; w.wild = 0; if (!g.has_udp) w.udp = w.ublock = 0;
    g.header(); g.run(r.range(5, 30)); int nc = 1000;
    auto U = [](u64 x) { return (unsigned long long)x; };
    auto set = [&](const string & k, u64 len) { return fmt("set %s 0 0 %llu.%llu.%s - 0", k.c_str(), U(++g.vid), U(len), r.chance(50) ? "a" : "b"); };
    for (u64 n = r.range(1, 4); n--;) {
        const int c = g.any_conn(); g.add(fmt("open %d", c)); g.add(fmt("deliver %d 100000000", c)); g.add("poll 1 0");
        const u64 what = r.below(100);
        if (what < 35) { // a connection that lives long
            const u64 len = r.range(100, r.chance(50) ? 20000 : 3000); const string k = fmt("own%d", c);
            for (u64 rounds = r.range(2, 5); rounds--;) {
                const u64 m = r.range(20, 120);
                if (r.chance(50)) g.add(fmt("reqs %llu %d ", U(m), c) + set(k, r.range(len / 2, len))); else { g.add(fmt("req %d ", c) + set(k, len)); g.add(fmt("reqs %llu %d %s %s - - - - 0", U(m), c, r.chance(50) ? "get" : "gets", k.c_str())); }
                if (r.chance(30)) g.add(fmt("deliver %d 100000000", c)), g.add("poll 1 0"); else g.add(fmt("trickle %d %llu 600", c, U(r.range(500, 70000))));
            }
        } else if (what < 60) { // a client that sends and does not read
            const string k = fmt("own%d", c); const u64 len = r.range(10, g.page / 2); g.add(fmt("req %d ", c) + set(k, len)); g.add(fmt("deliver %d 100000000", c)); for (int i = 0; i < 4; ++i) g.add("poll 1 0");
            string ks = k; u64 nk = r.chance(60) ? r.range(2, 30) : 1; for (u64 i = 1; i < nk; ++i) ks += "," + k;
            const u64 m = std::max<u64>(1, std::min<u64>(r.range(20, 200), 20000000 / (len * nk)));
            g.add(fmt("window %d %llu", c, U(r.chance(50) ? 0 : r.range(1, 3000)))); g.add(fmt("reqs %llu %d %s", U(m), c, r.chance(65) ? fmt("get %s - - - - 0", ks.c_str()).c_str() : set(k, r.range(100, 20000)).c_str()));
            if (r.chance(50)) g.add(fmt("deliver %d 100000000", c)), g.add("poll 1 0"); else g.add(fmt("trickle %d %llu 60", c, U(r.range(2000, 100000)))); g.add(fmt("drip %d %llu %llu", c, U(r.range(1, 20000)), U(r.range(5, 60)))); if (r.chance(60)) g.add(fmt("open %d", c)), g.add("poll 1 0");
        } else if (what < 95) { // clients come and go
            const bool un = g.has_unix && (!g.has_tcp || r.chance(40)); const u64 len = r.chance(50) ? r.range(10, 300) : r.range(1000, 30000);
            for (u64 m = r.range(20, 150); m--;) {
                const int k = nc++; g.add(fmt("conn %d%s", k, un ? " unix" : "")); const u64 q = r.below(10);
                if (q) { for (u64 i = r.range(1, 3); i--;) g.add(fmt("req %d ", k) + (r.chance(50) ? g.request() : set(g.key(), len))); if (r.chance(15)) g.add(fmt("window %d %llu", k, U(r.below(50)))); g.add(fmt("deliver %d %llu", k, U(r.chance(60) ? 100000000 : r.below(len + 20)))); }
                if (r.chance(80)) g.add("poll 1 0");
                if (q > 8) continue;
                g.add(r.chance(50) ? fmt("close %d", k) : r.chance(50) ? fmt("reset %d", k) : r.chance(50) ? fmt("halfclose %d", k) : fmt("req %d quit - - - - - 0", k)); if (r.chance(70)) g.add(fmt("deliver %d 100000000", k)); if (r.chance(50)) g.add("poll 1 0");
            }
        } else if (what < 98) { // more than any buffer may hold, in ordinary requests
            const u64 len = g.page - r.range(400, 2000); const u64 m = 36000000 / len; const string k = fmt("own%d", c);
            if (r.chance(50)) g.add(fmt("reqs %llu %d ", U(m), c) + set(k, len)), g.add(fmt("trickle %d %llu 3000", c, U(r.range(len / 2, len * 3)))); else { g.add(fmt("req %d ", c) + set(k, len)); g.add(fmt("reqs %llu %d get %s - - - - 0", U(m), c, k.c_str())); g.add(fmt("deliver %d 100000000", c)); g.add("poll 1 0"); }
        } else { // a line without end
            const int k = nc++; g.add(fmt("conn %d%s", k, g.has_tcp ? "" : " unix")); g.add(fmt("raw %d C %s\\R%llu,41;", k, r.chance(50) ? "get\\x20" : "", U(r.range(70, 110) * 1000000))); g.add(fmt("trickle %d 10000000 20", k));
        }
        for (u64 i = r.below(6); i--;) g.step();
    }
}
static void config_plan(Rng & r, Plan & p) {
    // command lines: valid ones must run exactly as configured, invalid ones must be refused
    bool bad = false, maybe = false; string args; u64 mem = 64ull << 20, page = 1ull << 20; bool tcp = true, udp = true, un = false, oom = false;
    auto unit = [&](u64 v) -> string { // v is a multiple of 1K
        if (v % (1ull << 30) == 0 && r.chance(60)) return fmt("%lluG", (unsigned long long)(v >> 30));
        if (v % (1ull << 20) == 0 && r.chance(60)) return r.chance(50) ? fmt("%lluM", (unsigned long long)(v >> 20)) : fmt("%llu", (unsigned long long)(v >> 20));
        return fmt("%lluK", (unsigned long long)(v >> 10));
    };
    if (r.chance(75)) {
        if (r.chance(80)) { page = 1024ull << r.below(11); mem = page << r.range(2, r.chance(30) ? 8 : 5); if (r.chance(12)) { mem = page << r.range(0, 1); } }
        else { page = 1ull << r.range(16, 24); mem = 1ull << r.range(26, 33); }
        if (mem < 4096) { page = 1024; mem = 4096; }
        args += " -P " + unit(page); args += " -m " + unit(mem);
        if (mem < page * 4) bad = true;
    }
    if (r.chance(25)) { oom = true; args += r.chance(50) ? " -M" : " --oum-error"; }
    u64 hsize = 0;
    if (r.chance(50)) {
        u64 h = 1ull << r.below(r.chance(80) ? 15 : 22); if (r.chance(20)) { static const u64 b[] = {0, 3, 6, 100, 65535, 7, 1ull << 32, 1ull << 33, (1ull << 32) + 16, 65536 + 16}; h = b[r.below(10)]; bad = true; }
        args += fmt(" -H %llu", (unsigned long long)h); hsize = h;
    }
    int tport = 11211, uport = 11211;
    if (r.chance(40)) { tcp = r.chance(60); args += fmt(" -p %d", tport = tcp ? (int)r.range(1, 65535) : 0); }
    if (r.chance(40)) { udp = r.chance(60); args += fmt(" -U %d", uport = udp ? (int)r.range(1, 65535) : 0); }
    if (r.chance(40)) { un = true; args += " -s /tmp/sim.sock"; }
    string smode;
    if (un && r.chance(50)) { unsigned m = r.chance(20) ? 0777 : (unsigned)r.below(512) | 0600; smode = fmt(r.chance(50) ? "%o" : "0%o", m); args += (r.chance(50) ? " -a " : " --socket_access ") + smode; }
    else if (r.chance(3)) { static const char * b[] = {"rwx", "0888", "9", "-1", "77x"}; args += string(" -a ") + b[r.below(5)]; bad = true; }
    if (r.chance(10)) args += " -C";
    if (r.chance(25)) {
        static const char * b[] = {" -m 0", " -m 3M", " -m 100K", " -P 0K", " -P 3K", " -m x", " -m 12Q", " -p 70000", " -p -1", " -U 99999", " -H x", " -H -1", " --nosuch", " -m", " -m -1", " -P 1000K", " -H 3", " -p abc", " -P 5M", " -m 1.5M", " -h", " -V", " -m 0G", " -P 4G -m 64G", " -m 17179869185G", " -m 17592186044417M", " -m 18014398509481988K", " -P 17592186044417M", " -m M", " -P K", " -H 18446744073709551616", " -p 65536", " -U -0x5"};
        string x = b[r.below(33)];
        if (x.find("-m") == 1 && args.find(" -m") != string::npos) { args.clear(); tcp = udp = true; un = oom = false; bad = false; tport = uport = 11211; hsize = 0; }
        if (x.find("-P") == 1 && args.find(" -P") != string::npos) { args.clear(); tcp = udp = true; un = oom = false; bad = false; tport = uport = 11211; hsize = 0; }
        if (x.find("-H") == 1 && args.find(" -H") != string::npos) { args.clear(); tcp = udp = true; un = oom = false; bad = false; tport = uport = 11211; hsize = 0; }
        if (x.find("-p") == 1 && args.find(" -p") != string::npos) { args.clear(); tcp = udp = true; un = oom = false; bad = false; tport = uport = 11211; hsize = 0; }
        if (x.find("-U") == 1 && args.find(" -U") != string::npos) { args.clear(); tcp = udp = true; un = oom = false; bad = false; tport = uport = 11211; hsize = 0; }
        args += x; bad = true;
    }
    if (r.chance(6)) { // the same option twice, with contradicting values
        static const char * b[] = {" -m 64M -m 128M", " -P 1M -P 2M", " -H 1024 -H 4096", " -p 100 -p 200", " -U 100 -U 200", " -s /tmp/sim.sock -s /tmp/sim2.sock", " -s /tmp/sim.sock -a 700 -a 777"};
        args = b[r.below(7)]; bad = true; tcp = udp = true; un = oom = false; tport = uport = 11211; hsize = 0; smode.clear();
    }
    if (!tcp && !udp && !un) { tcp = true; tport = 11211; args += " "; args = args.substr(0, args.find(" -p")) + args.substr(std::min(args.size(), args.find(" -p") + 5)); }
    (void)maybe;
    string n = "config"; Gen g(r, p, n);
    p.push_back("world S"); p.push_back("arg" + args);
    p.push_back(fmt("cfg mem %llu", (unsigned long long)mem)); p.push_back(fmt("cfg page %llu", (unsigned long long)page));
    if (bad) p.push_back("cfg refuse 1");
    p.push_back(string("cfg pressure ") + (oom ? "oom" : "evict")); p.push_back("cfg stats 1"); p.push_back("cfg clock 5000");
    p.push_back(fmt("cfg transports %d,%d,%d", tcp ? tport : 0, udp ? uport : 0, un ? 1 : 0));
    if (!smode.empty()) p.push_back("cfg sockmode " + smode);
    if (hsize >= 256) p.push_back(fmt("cfg hash %llu", (unsigned long long)hsize));
    if (oom) p.push_back("cfg noevict 1");
    g.page = page; g.mem = mem; g.pressure = oom ? "oom" : "evict"; g.maxval = std::min<size_t>(page > 700 ? page - 400 : 300, 20000); g.nkeys = (int)r.range(3, 40);
    g.has_tcp = tcp; g.has_unix = un; g.has_udp = udp; g.noreply = !oom; g.stats_verb = false; g.ttl_percent = 0; g.w.clock = 0; g.max_conns = 2; g.noreply_percent = 3; g.w.udp = udp ? 6 : 0; g.flush = false;
    const bool huge = !bad && page > 262144 && (tcp || un) && r.chance(35); if (huge) { g.maxval = page - 400; g.max_conns = 1; }
    if (!tcp && !un) { g.w.req = g.w.burst = g.w.deliver = g.w.deliver_all = g.w.conn = 0; }
    if (!bad && r.chance(20)) { // a system call fails during start-up
        static const struct { const char * call; int e; } f[] = {{"bind", EADDRINUSE}, {"bind", EACCES}, {"socket", EMFILE}, {"listen", EADDRINUSE}, {"epoll_create", EMFILE}, {"socket", EAFNOSUPPORT}, {"chmod", EPERM}, {"epoll_ctl", ENOMEM}, {"epoll_ctl", ENOSPC}};
        u64 k = r.below(9); g.add(fmt("fail %s %d %llu %llu", f[k].call, f[k].e, (unsigned long long)r.range(1, 3), (unsigned long long)r.below(3)));
    }
    g.add("start");
    for (u64 s = r.range(5, huge ? 20 : 60); s--;) g.step();
}

/// the server is started again after its predecessor ended in some way, or next to another one
static void restart_plan(Rng & r, Plan & p) {
    string n = "restart"; Gen g(r, p, n); const bool un = r.chance(75), tcp = !un || r.chance(60), udp = r.chance(40);
    p.push_back("world S"); string args = " -P 64K -m 1M"; if (!tcp) args += " -p 0"; if (!udp) args += " -U 0"; if (un) args += " -s /tmp/sim.sock";
    string smode; if (un && r.chance(30)) { smode = fmt("%o", (unsigned)r.below(512) | 0600); args += " -a " + smode; }
    p.push_back("arg" + args); bool refuse = false;
    if (un && r.chance(80)) { char l = r.chance(60) ? 's' : r.chance(50) ? 'l' : 'f'; p.push_back(string("cfg leftover ") + l); refuse = l != 's'; }
    if (tcp && r.chance(60)) { if (r.chance(75)) p.push_back("cfg timewait 1"); else { p.push_back("cfg porttaken 1"); refuse = true; } }
    if (refuse) p.push_back("cfg refuse 1");
    p.push_back("cfg mem 1048576"); p.push_back("cfg page 65536"); p.push_back("cfg stats 1"); p.push_back("cfg clock 5000"); p.push_back("cfg pressure evict");
    p.push_back(fmt("cfg transports %d,%d,%d", tcp ? 11211 : 0, udp ? 11211 : 0, un ? 1 : 0)); if (!smode.empty()) p.push_back("cfg sockmode " + smode);
    g.page = 65536; g.mem = 1 << 20; g.maxval = 5000; g.nkeys = (int)r.range(1, 6); g.has_tcp = tcp; g.has_unix = un; g.has_udp = udp; g.stats_verb = false; g.ttl_percent = 0; g.w.clock = 0; g.max_conns = 3; g.w.udp = udp ? 6 : 0; g.flush = false;
    if (r.chance(25)) { // a system call fails during start-up
        static const struct { const char * call; int e; } f[] = {{"bind", EADDRINUSE}, {"bind", EACCES}, {"socket", EMFILE}, {"listen", EADDRINUSE}, {"epoll_create", EMFILE}, {"chmod", EPERM}, {"epoll_ctl", ENOMEM}};
        u64 k = r.below(7); g.add(fmt("fail %s %d %llu %llu", f[k].call, f[k].e, (unsigned long long)(k == 6 ? 1 : r.range(1, 3)), (unsigned long long)r.below(3)));
    }
    g.add("start");
    for (u64 s = r.range(5, 50); s--;) g.step();
}

bool gen_server(const string & profile, Rng & r, Plan & p) {
    if (profile.compare(0, 2, "s_") != 0) return false;
    if (profile == "s_config") { config_plan(r, p); return true; }
    if (profile == "s_cost") { cost_plan(r, p); return true; }
    if (profile == "s_mem") { mem_plan(r, p); return true; }
    if (profile == "s_restart") { restart_plan(r, p); return true; }
    Gen g(r, p, profile); Mix & w = g.w; u64 steps = r.range(20, 140); string extra;
    g.has_unix = r.chance(30); g.nkeys = (int)r.range(1, 6);
    w.window = r.chance(40) ? 2 : 0; w.space = w.window ? 4 : 0; w.open = w.window ? 2 : 0; w.spur = r.chance(30) ? 1 : 0;
    if (profile == "s_lin") {
        g.has_udp = r.chance(30); w.udp = g.has_udp ? 8 : 0; g.max_conns = (int)r.range(2, 5); w.conn = 6; g.nkeys = (int)r.range(1, 3); g.big_keys = r.chance(15); g.small_only = r.chance(50);
        if (r.chance(25)) { g.ttl_percent = 30; w.clock = 5; w.tick = 2; }
    } else if (profile == "s_stream") {
        g.max_conns = (int)r.range(1, 3); w.burst = 12; w.window = r.chance(70) ? 4 : 0; w.space = w.window ? 10 : 0; w.open = w.window ? 2 : 0; g.maxval = r.chance(25) ? 50000 : 8000; w.deliver = 30; g.big_keys = r.chance(40); g.noreply_percent = 20; w.fail = r.chance(40) ? 3 : 0; w.quit = r.chance(30) ? 1 : 0; g.has_udp = false;
        if (r.chance(30)) w.raw = 3;
        if (r.chance(7)) { g.page = 1u << r.range(18, 23); g.mem = std::max<size_t>(64u << 20, g.page * 16); g.maxval = g.page - 48000; g.big_keys = false; steps = r.range(15, 60); }   // replies larger than what the kernel takes at once
    } else if (profile == "s_live") {
        g.max_conns = (int)r.range(2, 6); w.conn = 6; w.fail = 5; w.window = 4; w.space = 5; w.open = 2; w.halfclose = 1; w.close = 1; w.reset = 1; w.spur = 2; g.has_udp = r.chance(40); w.udp = g.has_udp ? 6 : 0; w.ublock = g.has_udp ? 3 : 0; w.usr1 = 1; w.quit = 1;
    } else if (profile == "s_hostile") {
        w.raw = 25; w.wild = r.chance(40) ? 4 : 0; g.max_conns = 4; w.conn = 6; w.deliver = 25; w.burst = 10; w.req = 25; g.page = 4096ull << r.below(4); g.mem = g.page * 64; g.maxval = g.page / 4; g.has_udp = r.chance(25); w.udp = g.has_udp ? 5 : 0;
    } else if (profile == "s_flood") { // lines and blocks beyond every buffer limit
        w.req = 20; w.conn = 4; g.small_only = true; steps = 25;
    } else if (profile == "s_death") {
        g.max_conns = 4; w.conn = 8; w.halfclose = 3; w.close = 3; w.reset = 3; g.private_percent = 60; w.burst = 14; w.window = 3; w.space = 4; w.open = 1; w.fail = r.chance(30) ? 3 : 0; w.quit = r.chance(40) ? 2 : 0; g.nkeys = 3;
    } else if (profile == "s_udp") {
        g.has_tcp = r.chance(60); g.has_unix = false; g.has_udp = true; w.udp = 60; w.ublock = r.chance(60) ? 6 : 0; w.fail = r.chance(30) ? 3 : 0; g.maxval = 3000; w.poll = 30; g.nkeys = (int)r.range(2, 5);
        if (r.chance(30)) { g.maxval = r.chance(60) ? 30000 : 60000; }
        if (r.chance(12)) { g.has_tcp = true; g.page = 131072; g.mem = 8u << 20; g.maxval = 110000; } // values which no datagram can carry
        if (!g.has_tcp) { w.req = w.burst = w.deliver = w.deliver_all = w.conn = w.window = w.space = w.open = w.spur = 0; }
        else { w.req = 8; w.burst = 3; w.deliver = 8; }
    } else if (profile == "s_alloc") {
        w.failalloc = 12; w.usr1 = r.chance(40) ? 3 : 0; g.noreply = false; g.has_udp = r.chance(30); w.udp = g.has_udp ? 6 : 0; g.max_conns = 4; w.conn = 8; g.maxval = r.chance(30) ? 50000 : 12000; w.poll = 30; w.fail = r.chance(20) ? 2 : 0;
        if (r.chance(15)) { g.header(); p.push_back("cfg allocfaults 1"); p.push_back("cfg refuse maybe"); p.push_back(fmt("failalloc %llu %llu %d", (unsigned long long)r.below(80), (unsigned long long)r.range(1, 3), r.chance(30) ? 5000 : 0)); g.run(steps / 3); return true; }
        if (r.chance(35)) { extra = fmt("arg -H %llu", (unsigned long long)(1ull << r.below(3))); g.nkeys = 40; g.maxval = 200; }
    } else if (profile == "s_stats") {
        g.pressure = r.chance(60) ? "none" : "evict"; if (g.pressure == "evict") { g.page = 1024; g.mem = 8192; g.nkeys = 30; g.maxval = 700; g.noreply_percent = 0; } else g.nkeys = (int)r.range(2, 8);
        if (r.chance(40)) { g.ttl_percent = 25; w.clock = 6; } g.stats_verb = true; w.raw = r.chance(30) ? 4 : 0; g.has_udp = r.chance(20); w.udp = g.has_udp ? 5 : 0;
    } else if (profile == "s_counter") {
        g.numeric = true; g.max_conns = (int)r.range(2, 5); w.conn = 6; g.nkeys = (int)r.range(1, 3); if (r.chance(30)) { g.ttl_percent = 30; w.clock = 5; w.tick = 3; } g.has_udp = r.chance(20); w.udp = g.has_udp ? 6 : 0;
    } else if (profile == "s_signal") {
        w.usr1 = 6; g.has_udp = r.chance(40); w.udp = g.has_udp ? 5 : 0; w.window = 3; w.space = 3; w.close = 1; w.reset = 1; w.conn = 5; w.ublock = g.has_udp ? 2 : 0; w.fail = 2;
    } else if (profile == "s_oom") {
        g.pressure = "oom"; g.page = r.chance(50) ? 1024 : 4096; g.mem = g.page * (4ull << r.below(3)); g.nkeys = (int)r.range(6, 40); g.maxval = g.page - 350; g.noreply = false; g.big_keys = r.chance(20); steps = r.range(60, 250); w.deliver = 8; w.window = 0; w.space = 0; w.open = 0; g.max_conns = 2;
        if (r.chance(30)) extra = fmt("arg -H %llu", (unsigned long long)(1ull << r.below(5)));
    } else if (profile == "s_evict") {
        g.pressure = "evict"; g.page = r.chance(50) ? 1024 : 4096; g.mem = g.page * (4ull << r.below(3)); g.nkeys = (int)r.range(6, 40); g.maxval = g.page - 350; g.noreply = false; g.big_keys = r.chance(20); steps = r.range(60, 250); w.deliver = 8; w.window = 0; w.space = 0; w.open = 0; g.max_conns = 3; g.numeric = r.chance(10);
        if (r.chance(30)) extra = fmt("arg -H %llu", (unsigned long long)(1ull << r.below(5)));
        if (r.chance(20)) { g.ttl_percent = 30; w.clock = 5; }
    } else if (profile == "s_ttl") {
        g.ttl_percent = 65; w.clock = 14; w.tick = 5; w.wall = 3; g.nkeys = (int)r.range(1, 4); g.numeric = r.chance(25); g.max_ttl = (int)r.range(1, 6); g.small_only = true; g.has_udp = r.chance(20); w.udp = g.has_udp ? 5 : 0;
    } else return false;
    if (r.chance(g.big_keys ? 40 : 4) && !g.numeric) { g.twins = twin_keys(r, std::min(g.nkeys, 8)); g.big_keys = true; }
    if (g.big_keys) g.maxval = std::min<size_t>(g.maxval, g.page > 1000 ? g.page - 700 : 300);
    g.header(extra);
    if (profile == "s_stats") p.push_back("cfg stats 1");
    if (profile == "s_alloc") p.push_back("cfg allocfaults 1");
    if (profile == "s_signal") p.push_back("cfg dump 1");
    g.run(steps);
    if (profile == "s_flood") {
        int c = g.next_conn++; g.add(fmt("conn %d tcp", c));
        if (r.chance(50)) g.add(fmt("raw %d C \\R%llu,41;", c, (unsigned long long)r.range(33400000, 34000000)));
        else { g.add(fmt("raw %d C set\\x20wk\\x200\\x200\\x20%llu\\x0d\\x0a\\R%llu,42;", c, (unsigned long long)r.range(33000000, 40000000), (unsigned long long)r.range(100, 3000000))); }
        for (int i = 0; i < 3; ++i) { g.add(fmt("deliver %d %llu", c, (unsigned long long)r.range(1000, 40000000))); g.add("poll 1 0"); g.add("poll 2 0"); }
        g.live.assign(1, 0); w.req = 20; for (int i = 0; i < 25; ++i) g.step();
    }
    if (profile == "s_signal" && r.chance(75)) {
        static const int sg[] = {SIGTERM, SIGINT, SIGQUIT};
        p.push_back(fmt("signal %d", sg[r.below(3)])); if (r.chance(50)) p.push_back("poll 1 1");
        for (u64 n = r.below(8); n--;) g.step();
    }
    return true;
}

} // namespace sim
