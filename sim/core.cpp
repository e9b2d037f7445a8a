#include "core.h"
#include <algorithm>
#include <cstdarg>
#include <unistd.h>
namespace sim {

Shared * g_sh = nullptr;
bool g_verbose = false;

void count(const char * name, u64 n) {
    for (u32 i = 0; i < g_sh->n_ctr; ++i)
        if (strcmp(g_sh->names[i], name) == 0) { g_sh->vals[i] += n; return; }
    if (g_sh->n_ctr < MAX_CTR) {
        u32 i = g_sh->n_ctr++;
        snprintf(g_sh->names[i], CTR_NAME, "%s", name); g_sh->vals[i] = n;
    }
}

void violation(const char * kind, const string & msg) {
    ev(string("VIOLATION ") + kind + " " + msg);
    if (g_sh->n_viol >= 8) return;
    u32 i = g_sh->n_viol++;
    snprintf(g_sh->viol_kind[i], sizeof g_sh->viol_kind[i], "%s", kind);
    snprintf(g_sh->viol_msg[i], sizeof g_sh->viol_msg[i], "%s", msg.c_str());
}

void ev(const string & s) {
    g_sh->n_events += 1;
    g_sh->ev_hash = hash_str(s, g_sh->ev_hash ^ 1469598103934665603ull);
    if (g_verbose) {
        string t = s.size() > 400 ? s.substr(0, 400) + "..." : s;
        fprintf(stderr, "[%llu] %s\n", (unsigned long long)g_sh->n_events, t.c_str());
    }
}

string esc(const string & s, size_t maxlen) {
    string r; char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        if (r.size() > maxlen) { r += "..."; break; }
        unsigned char c = s[i];
        if (c == '\\') r += "\\\\";
        else if (c > 32 && c < 127) r += c;
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}
string unesc(const string & s) {
    string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\\' && i + 1 < s.size()) {
            if (s[i+1] == '\\') { r += '\\'; ++i; }
            else if (s[i+1] == 'x' && i + 3 < s.size()) { r += (char)strtol(s.substr(i+2, 2).c_str(), nullptr, 16); i += 3; }
            else if (s[i+1] == 'R') { // \R<count>,<hex>; : repeated byte
                size_t e = s.find(';', i); if (e == string::npos) break;
                long n = atol(s.c_str() + i + 2); size_t c = s.find(',', i);
                r.append((size_t)n, (char)strtol(s.substr(c+1, 2).c_str(), nullptr, 16)); i = e;
            } else r += s[i];
        } else r += s[i];
    }
    return r;
}
vector<string> split(const string & s, char sep) {
    vector<string> v; size_t p = 0;
    while (p <= s.size()) {
        size_t e = s.find(sep, p); if (e == string::npos) e = s.size();
        if (e > p) v.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    return v;
}
string fmt(const char * f, ...) {
    char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

u32 fnv1a(const string & key) { // only used to choose interesting keys, never as an oracle
    u32 h = 2166136261u; for (unsigned char c : key) { h ^= c; h *= 16777619u; } return h;
}

// names of equal FNV-1a hash behind `pos` characters '=' (whatever follows them); if the hash function changes they become common keys
static const struct { unsigned pos; const char * a, * b; } twins[] = {
    {0, "jocxvqi", "35odk4p"}, {0, "35odk4p", "3ephybs"}, {0, "z2ru24a", "0fvcdgb"}, {0, "0fvcdgb", "w9l3eck"},
    {20, "8a1lq7b", "9494ncc"}, {20, "cnjughb", "we8v6bc"}, {64, "ywc7sxb", "9th0pcc"}, {64, "omq3wqb", "42xceac"},
    {100, "73oezzb", "m4usr3b"}, {100, "te97tyb", "8r2211b"}, {127, "8xbffwb", "d906n8b"}, {127, "6nferrb", "ic2l05b"},
    {150, "eska16b", "squk9ec"}, {150, "vy47x2b", "ypsoz5b"}, {200, "g4bn6ac", "tz7gdfc"}, {200, "ccytr4b", "7unzecc"},
    {243, "glhppyb", "0rpjq3b"}, {243, "qje0ltb", "xp7520b"},
};
vector<string> twin_keys(Rng & r, size_t n) { // "ppkttia" has the hash zero
    vector<string> out;
    while (out.size() < n) {
        auto & t = twins[r.below(sizeof twins / sizeof twins[0])]; size_t lo = t.pos + 7, len = r.chance(30) ? 250 : r.chance(30) ? lo : r.range(lo, 250);
        string a = fmt("%s*%zu@%u", t.a, len, t.pos), b = fmt("%s*%zu@%u", t.b, len, t.pos); if (r.chance(5)) a = b = "ppkttia";
        for (auto & k : {a, b}) if (std::find(out.begin(), out.end(), k) == out.end()) out.push_back(k);
    }
    out.resize(n); return out;
}

string make_key(const string & spec) {
    size_t bi = spec.find('~');
    if (bi != string::npos) { // <name>~<mode>: keys of any bytes, zeros included
        const string n = spec.substr(0, bi);
        switch (strtoul(spec.c_str() + bi + 1, nullptr, 10)) {
        case 0: return string("x\0", 2) + n;
        case 1: return n + string("\0\r\n", 3);
        case 2: return " " + n + "\xff\x80";
        case 3: return string(200, 0) + n;
        default: return string("\xff\r\n ") + n + string(3, 0);
        }
    }
    size_t st = spec.find('*');
    if (st == string::npos) return spec;
    string base = spec.substr(0, st); size_t len = strtoul(spec.c_str() + st + 1, nullptr, 10);
    size_t at = spec.find('@', st);
    if (at != string::npos) { // the same text around the name: keys of one length differ at one place only
        size_t pos = strtoul(spec.c_str() + at + 1, nullptr, 10); string r(std::max(len, pos + base.size()), '=');
        memcpy(&r[pos], base.data(), base.size()); return r;
    }
    string r = base;
    while (r.size() < len) r += (char)('A' + (r.size() * 7 + base.size()) % 26);
    r.resize(len ? len : 1);
    return r;
}

string make_value(const string & spec) {
    vector<string> p = split(spec, '.');
    if (p.size() < 3) return spec;
    if (p[2] == "n") return p[0];      // number: <digits>.0.n
    if (p[2] == "t") return unesc(p[0]); // literal text
    u64 id = strtoull(p[0].c_str(), nullptr, 10); size_t len = strtoull(p[1].c_str(), nullptr, 10);
    string r = "v" + p[0] + ":";
    if (p[2] == "c") {
        static const char * t[] = { "\r\nset k1 0 0 3\r\nbad\r\n", "END\r\n", "VALUE k1 0 1\r\n", "delete k2\r\n", "\r\n", "\n\r", "STORED\r\n", "quit\r\n", "\r", "get k0 k1\r\n", "flush_all\r\n" };
        u64 h = mix64(id);
        while (r.size() < len) { r += t[h % 11]; h = mix64(h); }
    } else if (p[2] == "b") {
        u64 h = mix64(id ^ 77);
        while (r.size() < len) { r += (char)(h & 0xff); h = mix64(h); }
    } else {
        u64 h = mix64(id ^ 99);
        while (r.size() < len) { r += (char)('a' + h % 26); h = h / 26; if (h < 26) h = mix64(h ^ r.size() ^ id); }
    }
    r.resize(len);
    return r;
}

bool parse_u64(const string & s, u64 & out) { // the decimal numbers counters hold
    if (s.empty() || s.size() > 20) return false;
    unsigned __int128 v = 0;
    for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); }
    if (v > (unsigned __int128)~0ull) return false;
    out = (u64)v; return true;
}

bool generate(const string & profile, u64 seed, Plan & out) {
    Rng r(seed);
    if (gen_server(profile, r, out)) return true;
    if (gen_library(profile, r, out)) return true;
    if (gen_allocator(profile, r, out)) return true;
    if (gen_dict(profile, r, out)) return true;
    if (gen_cost(profile, r, out)) return true;
    return false;
}

void execute(const Plan & plan) {
    string w;
    for (auto & l : plan) if (l.compare(0, 6, "world ") == 0) { w = l.substr(6); break; }
    if (w == "S") run_server(plan);
    else if (w == "L") run_library(plan);
    else if (w == "M") run_allocator(plan);
    else if (w == "D") run_dict(plan);
    else if (w == "K") run_cost(plan);
    else { fprintf(stderr, "plan without world\n"); _exit(3); }
}

} // namespace sim
