// Plan generators of the library world.
#include "core.h"
#include <algorithm>

namespace sim {

u32 hash_mode(char m, u64 i);

namespace {

struct LG {
    Rng & r; Plan & p; bool c_api = false; char hm = '-'; u64 nkeys = 6, vid = 0, page = 65536, mem = 4u << 20, cap = 4000; bool big_keys = true, num = false; unsigned ttl_pc = 0, max_ttl = 5; bool edge = false, keep_stats = false; char prefix = 'k';
    std::vector<u64> klen; std::vector<string> knames;
    LG(Rng & rr, Plan & pp) : r(rr), p(pp) {}
    void add(const string & s) { p.push_back(s); }
    void cfg(const char * n, u64 v) { add(fmt("cfg %s %llu", n, (unsigned long long)v)); }
    void keys() { klen.clear(); for (u64 i = 0; i < nkeys; ++i) klen.push_back(big_keys && r.chance(25) ? (r.chance(40) ? 250 : r.chance(30) ? 249 : r.range(12, 250)) : 0);
        knames.clear(); if (!big_keys || !r.chance(32)) return;
        if (r.chance(22)) { const u64 m = r.below(6); for (u64 i = 0; i < nkeys && i < 10000; ++i) knames.push_back(fmt("%c%llu~%llu", prefix, (unsigned long long)i, (unsigned long long)(m == 5 ? r.below(5) : m))); return; }
        if (r.chance(hm == '-' ? 60 : 20)) { knames = twin_keys(r, std::min<u64>(nkeys, 1 + r.below(12))); return; }
        const u64 len = r.chance(40) ? 250 : r.range(10, 250), pos = r.below(len - 8); // one place of difference
        for (u64 i = 0; i < nkeys && i < 10000; ++i) knames.push_back(fmt("%c%llu*%llu@%llu", prefix, (unsigned long long)i, (unsigned long long)len, (unsigned long long)(r.chance(80) ? pos : r.below(len - 8))));
    }
    u64 ki() { return r.chance(30) ? r.below(std::min<u64>(nkeys, 3)) : r.below(nkeys); }
    string kspec(u64 i) { if (i < knames.size()) return knames[i]; return i < klen.size() && klen[i] ? fmt("%c%llu*%llu", prefix, (unsigned long long)i, (unsigned long long)klen[i]) : fmt("%c%llu", prefix, (unsigned long long)i); }
    string hs(u64 i) { return hm == '-' ? string("-") : fmt("%u", hash_mode(hm, i)); }
    string value() {
        ++vid; static const char * modes[] = {"a", "b", "c"}; u64 len; unsigned q = (unsigned)r.below(100);
        if (q < 5) return "0";
        if (q < 55) len = r.range(1, 40); else if (q < 80) len = r.range(40, std::min<u64>(700, std::max<u64>(cap, 41))); else len = r.range(1, cap);
        if (edge && r.chance(6)) { len = page + r.range(0, 90) - 80; }
        if (edge && r.chance(1)) len = r.range(page, 2 * page);
        return fmt("%llu.%llu.%s", (unsigned long long)vid, (unsigned long long)std::max<u64>(1, len), modes[r.below(3)]);
    }
    string number() {
        static const vector<string> e = {"0", "1", "9", "10", "99", "100", "999", "18446744073709551615", "18446744073709551614", "9999999999999999999", "10000000000000000000", "4294967295", "4294967296", "18446744073709551610", "9223372036854775807", "9223372036854775808", "00", "007", "18446744073709551616", "99999999999999999999", "20000000000000000000", "19000000000000000000", "18446744073709551700", "184467440737095516150", "00000000000000000001", "09999999999999999999"};
        static const vector<string> bad = {"x", "12a", "-1", "1\\x20", "\\x201", "1,5", "0x10", "1\\x00", "a1"};
        if (r.chance(50)) return r.pick(e) + ".0.n";
        if (r.chance(30)) return fmt("%llu.0.n", (unsigned long long)(r.next() >> r.below(64)));
        if (r.chance(22)) return r.pick(bad) + ".0.t";
        if (r.chance(5)) return "0";
        return fmt("%llu.0.n", (unsigned long long)r.below(2000));
    }
    string delta() {
        static const vector<string> e = {"0", "1", "18446744073709551615", "18446744073709551614", "9", "10", "4294967296", "9223372036854775808", "99", "90", "4294967295"};
        if (r.chance(35)) return r.pick(e);
        if (r.chance(25)) return fmt("%llu", (unsigned long long)(r.next() >> r.below(64)));
        return fmt("%llu", (unsigned long long)r.below(1000));
    }
    string ttl() { if (!ttl_pc || !r.chance(ttl_pc)) return "0"; if (r.chance(3)) return "4294967295"; if (r.chance(3)) return r.chance(50) ? "2147483647" : "2147483648"; if (r.chance(6)) return fmt("%llu", (unsigned long long)r.range(6, 100000)); return fmt("%llu", (unsigned long long)r.range(1, max_ttl)); }
    string flags() { return r.chance(40) ? "0" : r.chance(20) ? "65535" : fmt("%llu", (unsigned long long)r.below(65536)); }
    void line(const string & verb, u64 k, const string & fl, const string & t, const string & v, const string & x) { add("op " + verb + " " + kspec(k) + " " + hs(k) + " " + fl + " " + t + " " + v + " " + x); }
    string token() { return r.chance(58) ? "g" : r.chance(30) ? (r.chance(60) ? fmt("g^%llu", (unsigned long long)r.below(64)) : r.chance(50) ? fmt("g+%llu", (unsigned long long)1 << r.below(64)) : fmt("g-%llu", (unsigned long long)1 << r.below(64))) : r.chance(70) ? "o" : fmt("%llu", (unsigned long long)r.below(60)); }
    void op() {
        if (!c_api && r.permille(3)) { add("move"); return; }
        unsigned q = (unsigned)r.below(100); u64 k = ki();
        if (edge && r.permille(8)) { string L = fmt("L%llu*%llu", (unsigned long long)r.below(3), (unsigned long long)(r.chance(50) ? 251 : r.range(251, 400))); add("op " + string(r.chance(60) ? "set " : r.chance(50) ? "add " : "append ") + L + " - 0 0 " + value() + " -"); return; }
        if (num) {
            if (q < 16) line("set", k, flags(), ttl(), number(), "-");
            else if (q < 20) line("add", k, flags(), ttl(), number(), "-");
            else if (q < 46) line("incr", k, "-", "-", "-", delta());
            else if (q < 68) line("decr", k, "-", "-", "-", delta());
            else if (q < 72) line(r.chance(50) ? "append" : "prepend", k, "0", "0", fmt("%llu.0.n", (unsigned long long)r.below(10)), "-");
            else if (q < 75) line("delete", k, "-", "-", "-", "-");
            else if (q < 78) line("touch", k, "-", ttl(), "-", "-");
            else if (q < 82) line("cas", k, flags(), ttl(), number(), r.chance(70) ? "g" : "o");
            else line("get", k, "-", "-", "-", "-");
            return;
        }
        if (q < 26) line("set", k, flags(), ttl(), value(), "-");
        else if (q < 32) line("add", k, flags(), ttl(), value(), "-");
        else if (q < 38) line("replace", k, flags(), ttl(), value(), "-");
        else if (q < 46) line("cas", k, flags(), ttl(), value(), token());
        else if (q < 51) line("append", k, "0", "0", value(), "-");
        else if (q < 56) line("prepend", k, "0", "0", value(), "-");
        else if (q < 64) line("delete", k, "-", "-", "-", "-");
        else if (q < 68) line("touch", k, "-", ttl(), "-", "-");
        else if (q < 71) line(r.chance(50) ? "incr" : "decr", k, "-", "-", "-", delta());
        else if (q < 73) line("set", k, flags(), ttl(), number(), "-");
        else if (q < 75) line("scratch", 1000 + r.below(3), "0", "0", value(), "-");
        else if (q < 76) add(r.chance(50) ? "flush" : "stats");
        else line("get", k, "-", "-", "-", "-");
    }
    void head(bool evict, u64 hash, bool cb = true) { add("world L"); add(string("cfg api ") + (c_api ? "c" : "cpp")); cfg("mem", mem); cfg("page", page); cfg("hash", hash); cfg("evict", evict); if (!cb) cfg("cb", 0); if (!keep_stats && r.chance(50)) cfg("stats", 0); }
    void clocks(unsigned pc) {
        if (!r.chance(pc)) return;
        unsigned q = (unsigned)r.below(10);
        if (q < 3) add(fmt("clock %llu", (unsigned long long)r.range(1, 900)));
        else if (q < 6) add(fmt("clock %llu", (unsigned long long)(r.range(1, 4) * 1000 - (r.chance(50) ? 1 : 0))));
        else if (q < 7) add(fmt("clock %llu", (unsigned long long)r.range(1, 7000)));
        else if (q < 8) add(fmt("tickat %llu %llu", (unsigned long long)r.range(1, 4), (unsigned long long)r.range(1, 3000)));
        else if (q < 9) add(fmt("wall %lld", (long long)r.below(20000000) - 10000000));
        else if (r.chance(20)) add(fmt("clock %llu", (unsigned long long)r.range(10000, 400000000)));
    }
};

} // namespace

bool gen_library(const string & name, Rng & r, Plan & p) {
    if (name.compare(0, 2, "l_") != 0) return false;
    LG g(r, p); g.c_api = r.chance(35);
    static const string hms = "zemchsrxt";
    auto any_hash = [&]() { return (u64)1 << r.below(r.chance(70) ? 7 : 15); };
    if (name == "l_map") {
        g.page = (u64)1 << r.range(13, 17); g.mem = g.page * ((u64)1 << r.range(6, 7)); g.cap = std::min<u64>(g.page / 8, r.chance(30) ? 4000 : 600); g.nkeys = r.range(1, r.chance(30) ? 40 : 8); g.edge = r.chance(50); g.keys(); if (r.chance(30)) g.hm = hms[r.below(9)];
        if (r.chance(30)) { g.ttl_pc = 10; g.max_ttl = 100000; }
        g.head(r.chance(75), any_hash()); g.add("start"); u64 n = r.range(20, r.chance(20) ? 1500 : 300); for (u64 i = 0; i < n; ++i) g.op();
        return true;
    }
    if (name == "l_cas") { // versions of items: many modifications between the read and the compare-and-swap
        g.c_api = false; g.page = (u64)1 << r.range(13, 15); g.mem = g.page * 64; g.cap = 200; g.nkeys = r.range(1, 5); g.keys(); if (r.chance(20)) { g.ttl_pc = 10; g.max_ttl = 100000; }
        g.head(r.chance(75), any_hash()); g.add("start");
        for (u64 i = r.range(5, 60); i--;) g.op();
        for (u64 rounds = r.range(1, 5); rounds--;) {
            const u64 k = g.ki(); g.line("set", k, "0", "0", "5.0.n", "-"); g.line("get", k, "-", "-", "-", "-");
            static const u64 ns[] = {1, 2, 15, 16, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536}; u64 n = r.chance(75) ? ns[r.below(r.chance(60) ? 14 : 18)] - (r.chance(15) ? 1 : 0) : r.range(1, 3000);
            const string rep = fmt("rep %llu ", (unsigned long long)n); const u64 kk = r.chance(70) ? k : g.ki(); Plan q; const size_t at = p.size();
            switch (r.below(4)) { case 0: g.line("incr", kk, "-", "-", "-", "1"); break; case 1: g.line("replace", kk, "0", "0", "7.0.n", "-"); break; default: g.line("set", kk, "0", "0", "7.0.n", "-"); }
            p[at] = rep + p[at];
            if (r.chance(30)) g.line("delete", k, "-", "-", "-", "-"), g.line("add", k, "0", "0", "5.0.n", "-");
            if (r.chance(50)) g.line("get", k, "-", "-", "-", "-");
            g.line("cas", k, "0", "0", g.value(), r.chance(60) ? "o" : "g"); g.line("get", k, "-", "-", "-", "-");
            for (u64 i = r.below(10); i--;) g.op();
        }
        return true;
    }
    if (name == "l_evict" || name == "l_stats" || name == "l_lru") {
        g.page = (u64)1 << r.range(8, r.chance(20) ? 14 : 11); g.mem = g.page * ((u64)1 << r.range(2, 4)); g.cap = r.chance(40) ? g.page - 64 : std::max<u64>(2, g.page / (u64)r.range(2, 16)); g.nkeys = r.range(4, r.chance(50) ? 30 : 200); g.edge = r.chance(60); g.big_keys = g.page > 512 ? r.chance(60) : r.chance(10); g.keys(); if (r.chance(20)) g.hm = hms[r.below(9)];
        bool ev = name == "l_stats" ? r.chance(70) : true;
        const bool grow = name != "l_lru" && r.chance(8); if (grow) { g.page = (u64)1 << r.range(9, 11); g.mem = (u64)1 << r.range(16, 18); g.cap = 100; g.big_keys = false; g.keys(); if (g.hm != '-') g.hm = r.chance(50) ? 'x' : 's'; ev = true; }
        if (name == "l_stats") { g.ttl_pc = r.chance(50) ? 30 : 0; g.num = r.chance(15); if (r.chance(30)) { g.mem *= 16; } }
        if (name == "l_evict" && r.chance(25)) g.ttl_pc = 20;
        g.keep_stats = name == "l_stats"; g.head(ev, any_hash(), name == "l_lru" || r.chance(92)); g.add("start");
        u64 n = r.range(50, r.chance(30) ? 2500 : 500);
        unsigned style = (unsigned)r.below(5);
        if (grow) { // the table grows while items are evicted: smaller and smaller items, each step with a full memory
            u64 len = r.range(60, 240), base = 0;
            while (len > 1 && base < 9000) {
                const u64 cnt = r.range(50, 1 + g.mem / 60); g.add(fmt("fill f %llu %llu %llu %c 0", (unsigned long long)base, (unsigned long long)cnt, (unsigned long long)len, g.hm)); base += cnt;
                for (u64 i = r.below(8); i--;) g.op();
                if (r.chance(30)) g.add(fmt("scan f %llu %llu %c", (unsigned long long)(base - std::min<u64>(base, 400)), 400ull, g.hm));
                len = len * r.range(50, 95) / 100;
            }
            return true;
        }
        if (name == "l_stats" && r.chance(12)) { // statistics at every step of the growth
            const u64 cap = (u64)1 << r.range(10, 12), at = cap * 93 / 100 - r.below(4); g.add(fmt("fill f 0 %llu 1 - 0", (unsigned long long)at));
            for (u64 i = 0; i < 24; ++i) { g.add(fmt("fill f %llu 1 1 - 0", (unsigned long long)(at + i))); if (r.chance(20)) g.add(fmt("purge f %llu 1 1 -", (unsigned long long)r.below(at))); g.add("stats"); }
            n = r.range(10, 60);
        }
        for (u64 i = 0; i < n; ++i) {
            if (name == "l_lru" && style < 3) { // a hot item used after every store
                if (i == 0) g.add("op set hot - 3 0 777.20.c -");
                string k = fmt("k%llu", (unsigned long long)(style == 0 ? i : style == 1 ? r.below(g.nkeys) : i % g.nkeys)); g.klen.clear();
                g.add("op set " + k + (g.hm == '-' ? string(" -") : fmt(" %u", hash_mode(g.hm, strtoull(k.c_str() + 1, 0, 10)))) + " 0 0 " + g.value() + " -");
                if (style == 2 && r.chance(30)) g.add("op touch hot - - 0 - -"); else g.add("op get hot - - - - -");
                if (r.chance(10)) g.line("delete", r.below(g.nkeys), "-", "-", "-", "-");
            } else if (name != "l_lru" && r.chance(8)) g.add(fmt("fill f %llu %llu %llu - 0", (unsigned long long)r.below(50), (unsigned long long)r.range(1, 30), (unsigned long long)r.range(1, g.cap)));
            else if (name != "l_lru" && r.chance(2)) g.add(fmt("purge f %llu %llu %llu -", (unsigned long long)r.below(30), (unsigned long long)r.range(1, 60), (unsigned long long)r.range(1, 4)));
            else { g.op(); if (name == "l_stats") { g.clocks(10); if (r.chance(10)) g.add("stats"); } else if (g.ttl_pc) g.clocks(5); }
        }
        return true;
    }
    if (name == "l_oom") {
        g.page = (u64)1 << r.range(9, 13); g.mem = g.page * ((u64)1 << r.range(2, 3)); g.cap = r.chance(40) ? g.page - 64 : std::max<u64>(2, g.page / (u64)r.range(2, 16)); g.nkeys = r.range(4, r.chance(50) ? 30 : 100); g.edge = r.chance(60); g.big_keys = g.page > 512; g.keys(); if (r.chance(20)) g.hm = hms[r.below(9)];
        if (r.chance(25)) g.ttl_pc = 20;
        g.head(false, any_hash());
        vector<u64> caps; u64 nc = r.range(1, 2); for (u64 i = 0; i < nc; ++i) { u64 l = r.chance(30) ? g.page * 9 / 10 - 100 : r.range(1, g.page * 8 / 10); caps.push_back(l); g.cfg("capref", l); }
        g.add("start");
        u64 n = r.range(50, 700);
        for (u64 i = 0; i < n; ++i) {
            if (r.chance(6)) g.add(fmt("fill f %llu %llu %llu - 0", (unsigned long long)r.below(50), (unsigned long long)r.range(1, 60), (unsigned long long)r.range(1, g.cap)));
            else if (r.chance(3)) g.add(fmt("purge f %llu %llu %llu -", (unsigned long long)r.below(30), (unsigned long long)r.range(1, 90), (unsigned long long)r.range(1, 4)));
            else if (r.permille(8)) g.add(fmt("capacity %llu", (unsigned long long)r.pick(caps)));
            else if (r.permille(5)) g.add("clear");
            else { g.op(); if (g.ttl_pc) g.clocks(6); }
        }
        g.add(fmt("capacity %llu", (unsigned long long)r.pick(caps)));
        return true;
    }
    if (name == "l_ttl") {
        g.page = (u64)1 << r.range(11, 14); g.mem = g.page * ((u64)1 << r.range(2, 6)); g.cap = 60; g.nkeys = r.range(1, 8); g.big_keys = false; g.keys(); g.ttl_pc = 75; g.max_ttl = (unsigned)r.range(1, 6); if (r.chance(20)) g.hm = hms[r.below(9)]; g.num = r.chance(20);
        const bool press = r.chance(35); if (press) { g.page = (u64)1 << r.range(8, 11); g.mem = g.page * ((u64)1 << r.range(2, 3)); g.num = r.chance(50); g.max_ttl = (unsigned)r.range(1, 20); }
        g.head(r.chance(70), any_hash()); g.cfg("clock", r.chance(50) ? r.range(1, 5000) : r.chance(80) ? r.range(1, 4000000000ull) : r.chance(50) ? 2147483648000ull - r.below(20000) : r.range(1, 4000000000000ull)); g.add("start");
        u64 n = r.range(20, 300); for (u64 i = 0; i < n; ++i) { if (!press || r.chance(20)) g.clocks(30); if (r.chance(5)) g.add("flush"); else if (press && r.chance(20)) g.add(fmt("fill f %llu %llu %llu - %llu", (unsigned long long)r.below(60), (unsigned long long)r.range(1, 12), (unsigned long long)r.range(1, std::max<u64>(2, g.page / 6)), (unsigned long long)(r.chance(50) ? 0 : r.range(1, 9)))); else g.op(); }
        return true;
    }
    if (name == "l_counter") {
        g.page = (u64)1 << r.range(9, 13); g.mem = g.page * ((u64)1 << r.range(2, 6)); g.nkeys = r.range(1, 6); g.num = true; g.keys(); if (g.page < 1024) { g.big_keys = false; g.keys(); } if (r.chance(30)) g.ttl_pc = 20; if (r.chance(20)) g.hm = hms[r.below(9)];
        g.head(r.chance(70), any_hash()); g.add("start"); u64 n = r.range(20, 400); bool press = r.chance(30); for (u64 i = 0; i < n; ++i) { if (g.ttl_pc) g.clocks(8); if (press && r.chance(15)) g.add(fmt("fill f %llu %llu %llu - 0", (unsigned long long)r.below(200), (unsigned long long)r.range(1, 20), (unsigned long long)r.range(1, g.page / 4))); else g.op(); }
        return true;
    }
    if (name == "l_hash") {
        g.page = 65536; g.mem = (u64)1 << r.range(22, 24); g.prefix = 'f'; g.big_keys = false; g.cap = 60;
        unsigned style = (unsigned)r.below(10);
        g.hm = style < 3 ? '-' : hms[r.below(9)]; bool slow = g.hm != '-' && g.hm != 'x' && g.hm != 's';
        u64 total = slow ? r.range(3, 600) : r.chance(15) ? r.range(8000, 20000) : r.range(3, 3000);
        if (g.hm == 'h') total = std::min<u64>(total, 600);
        g.nkeys = total + total / 4 + 1; g.ttl_pc = r.chance(40) ? 25 : 0; if (r.chance(10)) { g.mem = 1 << 18; g.page = 4096; }
        g.head(r.chance(70), (u64)1 << r.below(12)); g.add("start");
        u64 at = 0; bool ttl = g.ttl_pc != 0;
        while (at < total) {
            u64 n = std::min<u64>(total - at, r.range(1, std::max<u64>(2, total / 4)));
            g.add(fmt("fill f %llu %llu %llu %c %llu", (unsigned long long)at, (unsigned long long)n, (unsigned long long)r.range(1, 40), g.hm, (unsigned long long)(ttl && r.chance(40) ? r.range(1, 4) : 0)));
            at += n; u64 ops = r.below(30); for (u64 i = 0; i < ops; ++i) g.op();
            if (r.chance(40)) g.add(fmt("scan f %llu %llu %c", (unsigned long long)r.below(at), (unsigned long long)r.range(1, std::min<u64>(at, 500)), g.hm));
            if (r.chance(40)) g.add(fmt("purge f %llu %llu %llu %c", (unsigned long long)r.below(at), (unsigned long long)r.range(1, at), (unsigned long long)r.range(1, 5), g.hm));
            if (ttl) g.clocks(50); if (ttl && r.chance(30)) g.add("flush");
        }
        if (ttl && r.chance(50)) { g.add("clock 5000"); g.add("flush"); }
        return true;
    }
    if (name == "l_alloc") {
        g.page = (u64)1 << r.range(10, 14); g.mem = g.page * ((u64)1 << r.range(2, 8)); g.cap = std::min<u64>(g.page / 4, 400); g.prefix = 'f'; g.big_keys = r.chance(40); g.nkeys = r.range(2, 60); g.keys(); if (r.chance(30)) g.hm = hms[r.below(9)];
        g.head(r.chance(60), (u64)1 << r.below(5));
        if (r.chance(30)) g.add(fmt("failalloc %llu %llu 0", (unsigned long long)r.range(0, 12), (unsigned long long)r.range(1, 3)));
        g.add("start"); u64 n = r.range(20, 300), base = 1000;
        for (u64 i = 0; i < n; ++i) {
            if (r.chance(12)) g.add(fmt("failalloc %llu %llu %llu", (unsigned long long)r.below(r.chance(50) ? 2 : 8), (unsigned long long)(r.chance(20) ? r.range(5, 200) : r.range(1, 2)), (unsigned long long)(r.chance(70) ? 0 : (u64)1 << r.range(6, 12))));
            if (r.chance(12)) { u64 c = r.range(1, r.chance(30) ? 300 : 40); g.add(fmt("fill f %llu %llu %llu %c 0", (unsigned long long)base, (unsigned long long)c, (unsigned long long)r.range(1, 40), g.hm)); base += c; if (g.hm != '-' && g.hm != 'x' && g.hm != 's' && base > 1500) base = 1000; }
            else g.op();
        }
        return true;
    }
    if (name == "l_config") {
        auto size = [&](u64 lo, u64 hi) { u64 v = (u64)1 << r.range(lo, hi); unsigned q = (unsigned)r.below(14); if (q == 0) return (u64)0; if (q == 1) return v + 1; if (q == 2) return v - 1; if (q == 3) return v * 3; return v; };
        g.mem = size(8, 22); g.page = size(6, r.chance(70) ? 14 : 20); u64 hash = size(0, 12); bool ev = r.chance(60);
        if (r.permille(10)) hash = (u64)1 << r.range(32, 63); if (r.permille(10)) g.page = (u64)1 << r.range(32, 40); if (r.permille(10)) g.mem = ~0ull << r.below(64);
        g.cap = std::max<u64>(2, std::min<u64>(g.page, 8192)); g.edge = true; g.nkeys = r.range(2, 30); g.big_keys = g.page > 1024; g.keys();
        g.head(ev, hash); g.add("start"); u64 n = r.range(5, 200); for (u64 i = 0; i < n; ++i) g.op(); g.add("stats");
        return true;
    }
    if (name == "l_huge") {
        g.c_api = false; unsigned style = (unsigned)r.below(3);
        g.mem = (u64)1 << 33; g.page = style == 0 ? (u64)1 << r.range(28, 31) : style == 1 ? (u64)1 << r.range(24, 27) : (u64)1 << r.range(21, 23);
        g.head(r.chance(60), 16); g.cfg("sparse", 1); g.add("start");
        u64 pages = g.mem / g.page, n = r.range(pages / 2 + 2, std::min<u64>(pages * 3, 6000)); if (r.chance(60)) n = std::min<u64>(n, 400);
        u64 nk = r.chance(50) ? n : std::max<u64>(3, n / 2);
        for (u64 i = 0; i < n; ++i) {
            u64 len = r.chance(60) ? g.page - 100 - r.below(g.page / 8) : r.chance(50) ? r.range(1, 1000) : r.below(g.page + g.page / 16);
            g.add(fmt("sset s%llu %llu %llu", (unsigned long long)(nk == n ? i : r.below(nk)), (unsigned long long)std::max<u64>(1, len), (unsigned long long)(++g.vid)));
            if (r.chance(15)) g.add(fmt("op delete s%llu - - - - -", (unsigned long long)r.below(nk)));
            if (r.chance(20)) g.add(fmt("op get s%llu - - - - -", (unsigned long long)r.below(nk)));
        }
        g.add("stats"); return true;
    }
    return false;
}

} // namespace sim
