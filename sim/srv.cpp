#include <sstream>
#include "srv.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>

extern "C" int cachelotd_main(int argc, char ** argv);
extern "C" ssize_t __real_read(int, void *, size_t);

namespace sim {

static bool is_err(const string & l) { return l == "ERROR" || l.compare(0, 12, "CLIENT_ERROR") == 0 || l.compare(0, 12, "SERVER_ERROR") == 0; }
static bool is_num(const string & s) { if (s.empty() || s.size() > 20) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }

static Verb verb_of(const string & v) {
    static const std::map<string, Verb> m = {{"get", V_GET}, {"gets", V_GETS}, {"set", V_SET}, {"add", V_ADD}, {"replace", V_REPLACE}, {"cas", V_CAS}, {"append", V_APPEND}, {"prepend", V_PREPEND}, {"delete", V_DELETE}, {"touch", V_TOUCH}, {"incr", V_INCR}, {"decr", V_DECR}};
    auto i = m.find(v); return i == m.end() ? V_OTHER : i->second;
}

/// 1: complete reply parsed, 0: need more bytes, -1: not a legal reply to this request (why)
static int parse_reply(const Req & r, const string & b, size_t pos, size_t & end, Reply & rep, string & why) {
    size_t p = pos;
    auto line = [&](string & l) -> bool { size_t e = b.find("\r\n", p); if (e == string::npos) return false; l = b.substr(p, e - p); p = e + 2; return true; };
    string l;
    if (r.expect == X_ERRLINE) {
        if (!line(l)) { if (b.size() - pos > 600) { why = "expected an error line, got '" + esc(b.substr(pos, 80)) + "'"; return -1; } return 0; }
        if (!is_err(l)) { why = "expected an error line, got '" + esc(l, 80) + "'"; return -1; }
        rep.line = l; rep.error = true; rep.have = true; end = p; return 1;
    }
    if (r.verb == "get" || r.verb == "gets") {
        size_t ki = 0;
        for (;;) {
            if (!line(l)) { if (b.size() - p > 600) { why = "expected VALUE or END, got '" + esc(b.substr(p, 80)) + "'"; return -1; } return 0; }
            if (l == "END") break;
            if (is_err(l)) {
                if (!rep.vals.empty()) { why = "error line in the middle of a get reply: '" + esc(l, 80) + "'"; return -1; }
                rep.line = l; rep.error = true; rep.have = true; end = p; return 1;
            }
            vector<string> t = split(l);
            if (t.size() < 4 || t[0] != "VALUE" || !is_num(t[2]) || !is_num(t[3]) || t.size() != (r.verb == "gets" ? 5u : 4u) || (t.size() == 5 && !is_num(t[4]))) { why = "malformed line in a get reply: '" + esc(l, 80) + "'"; return -1; }
            RVal v; v.key = t[1]; v.flags = strtoul(t[2].c_str(), nullptr, 10);
            u64 n = strtoull(t[3].c_str(), nullptr, 10);
            if (t.size() == 5) { v.tok = strtoull(t[4].c_str(), nullptr, 10); v.has_tok = true; }
            while (ki < r.keys.size() && r.keys[ki] != v.key) ++ki;
            if (ki == r.keys.size()) { why = "value for key '" + esc(v.key, 60) + "' which was not asked for (or out of order)"; return -1; }
            ++ki;
            if (b.size() - p < n + 2) return 0;
            v.data = b.substr(p, n); p += n;
            if (b[p] != '\r' || b[p+1] != '\n') { why = "value of key '" + esc(v.key, 60) + "' is not followed by \\r\\n"; return -1; }
            p += 2; rep.vals.push_back(v);
        }
        rep.line = "END"; rep.have = true; end = p; return 1;
    }
    if (r.verb == "stats") {
        for (;;) {
            if (!line(l)) return b.size() - p > 600 ? (why = "malformed stats reply", -1) : 0;
            if (l == "END") break;
            if (is_err(l)) { rep.error = true; rep.line = l; rep.have = true; end = p; return 1; }
            vector<string> t = split(l);
            if (t.size() != 3 || t[0] != "STAT") { why = "malformed line in a stats reply: '" + esc(l, 80) + "'"; return -1; }
            rep.stats.push_back(std::make_pair(t[1], t[2]));
        }
        rep.line = "END"; rep.have = true; end = p; return 1;
    }
    if (!line(l)) { if (b.size() - pos > 600) { why = "expected a reply line, got '" + esc(b.substr(pos, 80)) + "'"; return -1; } return 0; }
    rep.line = l; end = p; rep.have = true;
    if (is_err(l)) { rep.error = true; return 1; }
    bool ok = false; const string & v = r.verb;
    if (v == "set") ok = l == "STORED";
    else if (v == "add" || v == "replace" || v == "append" || v == "prepend") ok = l == "STORED" || l == "NOT_STORED";
    else if (v == "cas") ok = l == "STORED" || l == "EXISTS" || l == "NOT_FOUND";
    else if (v == "delete") ok = l == "DELETED" || l == "NOT_FOUND";
    else if (v == "touch") ok = l == "TOUCHED" || l == "NOT_FOUND";
    else if (v == "incr" || v == "decr") ok = is_num(l) || l == "NOT_FOUND";
    else if (v == "version") ok = l.compare(0, 8, "VERSION ") == 0;
    else if (v == "flush_all") ok = l == "OK";
    if (!ok) { why = "'" + esc(l, 80) + "' is not a reply to " + v; return -1; }
    return 1;
}

class ServerWorld : public World {
public:
    explicit ServerWorld(const Plan & p) : plan(p) {}
    const Plan & plan; size_t pos = 0;
    vector<string> args; string pressure = "none"; bool alloc_faults = false, check_stats = false, check_dump = false, dump_sent = false, expect_refuse = false, may_refuse = false;
    size_t mem = 64u << 20, page = 1u << 20; u64 hash_size = 0; bool noevict = false; string transports, listen_ip, sock_mode; char left = 0;
    std::map<int, Conn> conns; vector<int> listens; int udp_fd = -1;
    u64 seq = 0; vector<LClock> clocks; bool in_midop = false;
    struct Inj { int times, err, skip; }; u64 n_injected = 0;
    std::map<string, vector<Inj>> injects; // by call
    std::map<string, vector<u64>> tokens;
    std::map<u64, Datagram> dgrams; std::map<u64, Req> dg_req; std::map<u64, string> dg_mode;
    vector<UReq> ureqs;
    std::set<string> all_keys;
    bool draining = false, terminating = false, term_sent = false, probing = false; int term_waits = 0; u64 usr1 = 0;
    u64 spin = 0; size_t probe_i = 0; vector<Req> probe_reqs; bool probe_udp = false; int probe_conn = -1; bool probe_made = false;
    u64 last_fault_alloc = 0; bool started = false; int out_fd = -1;
    u64 idle_points = 0;
    u64 retries = 0, conns_closed = 0, failed_at_wait = 0;
    bool metered = false, meter_on = false; u64 work0 = 0, calls0 = 0, bytes_in = 0, bytes_out = 0; i64 again = -1;

    /// generous: far above what the handling of the bytes takes, far below anything quadratic
    enum : u64 { WORK_CALL = 3000, WORK_BYTE = 40, WORK_ANY = 1000000 };
    void check_work() {
        const u64 work = g_blocks + g_moved / 4;
        if (!meter_on) { meter_on = true; work0 = work; calls0 = g_sh->n_syscalls; bytes_in = bytes_out = 0; return; }
        const u64 spent = work - work0, calls = g_sh->n_syscalls - calls0, allowed = WORK_ANY + WORK_CALL * calls + WORK_BYTE * (bytes_in + bytes_out);
        count("work_checks");
        if (spent > allowed) violation("cost", fmt("the server did %llu units of work for %llu bytes received, %llu bytes sent and %llu system calls", (unsigned long long)spent, (unsigned long long)bytes_in, (unsigned long long)bytes_out, (unsigned long long)calls));
    }

    /// memory of the server besides the items: what the open connections need at the moment and a constant
    i64 mem0 = -1; size_t udp_max = 0, max_value = 0, appended = 0; u64 peak_conns = 0;
    enum : i64 { MEM_ANY = 64 << 10, MEM_CONN = 16 << 10, MEM_CLOSED = 512, MEM_BYTE = 6, MEM_CAP = (64 << 20) + (1 << 20) };
    size_t reply_size(const Req & r) const { return r.verb == "get" || r.verb == "gets" ? 16 + r.keys.size() * (std::min<size_t>(page, max_value + appended) + 320) : 4096; }
    void note_value(const Req & r) { if (r.value.empty()) return; if (r.verb == "append" || r.verb == "prepend") appended += r.value.size(); else max_value = std::max(max_value, r.value.size()); }
    void check_memory() {
        if (mem0 < 0) { mem0 = g_live_bytes; return; }
        i64 allowed = MEM_ANY + 256 * (i64)all_keys.size() + std::min<i64>(MEM_CAP, MEM_BYTE * (i64)udp_max);
        for (auto & p : conns) {
            Conn & c = p.second; if (!c.accepted) continue;
            if (c.srv_closed) { allowed += MEM_CLOSED; continue; }
            allowed += MEM_CONN + (c.odd ? (i64)MEM_CAP : std::min<i64>(MEM_CAP, MEM_BYTE * (i64)(c.max_req + c.max_reply)));
        }
        count("memory_checks");
        if (getenv("SIM_MEM")) { static i64 worst = 0; i64 q = (g_live_bytes - mem0) * 100 / allowed; if (q > worst) { worst = q; fprintf(stderr, "memory %lld of %lld allowed: %lld%%\n", (long long)(g_live_bytes - mem0), (long long)allowed, (long long)q); } }
        if (g_live_bytes - mem0 > allowed) violation("memory", fmt("the server took %lld bytes beyond its items although its connections need %lld at most", (long long)(g_live_bytes - mem0), (long long)allowed));
    }

    // ---- plan ----
    void header() {
        for (auto & l : plan) {
            vector<string> t = split(l);
            if (t.empty()) continue;
            if (t[0] == "arg") for (size_t i = 1; i < t.size(); ++i) args.push_back(unesc(t[i]));
            if (t[0] == "cfg" && t.size() >= 3) {
                if (t[1] == "pressure") pressure = t[2];
                if (t[1] == "stats") check_stats = t[2] == "1";
                if (t[1] == "dump") check_dump = t[2] == "1";
                if (t[1] == "meter") metered = t[2] == "1";
                if (t[1] == "refuse") { expect_refuse = t[2] == "1"; may_refuse = t[2] == "maybe"; }
                if (t[1] == "mem") mem = strtoull(t[2].c_str(), nullptr, 10);
                if (t[1] == "page") page = strtoull(t[2].c_str(), nullptr, 10);
                if (t[1] == "hash") hash_size = strtoull(t[2].c_str(), nullptr, 10);
                if (t[1] == "noevict") noevict = t[2] == "1";
                if (t[1] == "transports") transports = t[2];
                if (t[1] == "listen") listen_ip = t[2];
                if (t[1] == "sockmode") sock_mode = t[2];
                if (t[1] == "leftover") { left = t[2][0]; g_left["/tmp/sim.sock"] = left; g_modes["/tmp/sim.sock"] = 0640; count(left == 's' ? "fault.stale_socket_left" : left == 'l' ? "fault.socket_in_use" : "fault.file_in_the_way"); }
                if (t[1] == "timewait") { g_timewait = true; count("fault.lingering_connections"); }
                if (t[1] == "porttaken") { g_port_taken = true; count("fault.port_in_use"); }
                if (t[1] == "allocfaults") alloc_faults = t[2] == "1";
                if (t[1] == "clock") { g_steady_ns = strtoll(t[2].c_str(), nullptr, 10) * 1000000; }
            }
        }
        g_wall_ns = 1700000000ll * 1000000000ll;
        clocks.push_back({0, g_steady_ns, g_steady_ns});
    }

    void advance(i64 ns) {
        if (ns <= 0) return;
        g_steady_ns += ns; g_wall_ns += ns; g_sh->sim_ns += ns;
        clocks.push_back({++seq, g_steady_ns, g_steady_ns});
    }
    void midop_tick() { clocks.push_back({++seq, g_midop_from, g_midop_to}); in_midop = true; }

    static string render(Req & r) {
        string s = r.verb; char b[64];
        Verb v = verb_of(r.verb);
        if (v == V_GET || v == V_GETS) { for (auto & k : r.keys) s += " " + k; s += "\r\n"; return s; }
        if (!r.keys.empty()) s += " " + r.keys[0];
        switch (v) {
        case V_SET: case V_ADD: case V_REPLACE: case V_APPEND: case V_PREPEND: case V_CAS:
            snprintf(b, sizeof b, " %u %llu %zu", r.flags, (unsigned long long)r.ttl, r.value.size()); s += b;
            if (v == V_CAS) { snprintf(b, sizeof b, " %llu", (unsigned long long)r.tok); s += b; }
            if (r.noreply) s += " noreply";
            return s + "\r\n" + r.value + "\r\n";
        case V_TOUCH: snprintf(b, sizeof b, " %llu", (unsigned long long)r.ttl); s += b; break;
        case V_INCR: case V_DECR: snprintf(b, sizeof b, " %llu", (unsigned long long)r.delta); s += b; break;
        default: break;
        }
        if (r.noreply) s += " noreply";
        return s + "\r\n";
    }

    /// <verb> <keys> <flags> <ttl> <value> <x> <nr>
    bool parse_req(const vector<string> & t, size_t i, Req & r) {
        if (t.size() < i + 7) return false;
        r.verb = t[i];
        if (t[i+1] != "-") for (auto & k : split(t[i+1], ',')) r.keys.push_back(make_key(k));
        r.flags = t[i+2] == "-" ? 0 : strtoul(t[i+2].c_str(), nullptr, 10);
        r.ttl = t[i+3] == "-" ? 0 : strtoull(t[i+3].c_str(), nullptr, 10);
        if (t[i+4] != "-") r.value = t[i+4] == "0" ? string() : make_value(t[i+4]);
        const string & x = t[i+5];
        if (x != "-") {
            if (verb_of(r.verb) == V_CAS) {
                auto it = r.keys.empty() ? tokens.end() : tokens.find(r.keys[0]);
                if (x[0] == 'g') r.tok = it == tokens.end() || it->second.empty() ? 1 : it->second.back();
                else if (x == "o") r.tok = it == tokens.end() || it->second.empty() ? 2 : it->second[it->second.size() / 2];
                else r.tok = strtoull(x.c_str(), nullptr, 10);
                if (x[0] == 'g' && x.size() > 2) { const u64 d = strtoull(x.c_str() + 2, nullptr, 10); r.tok = x[1] == '^' ? r.tok ^ (1ull << (d & 63)) : x[1] == '+' ? r.tok + d : r.tok - d; }
            } else r.delta = strtoull(x.c_str(), nullptr, 10);
        }
        r.noreply = t[i+6] == "1";
        if (r.verb == "quit") r.expect = X_QUIT;
        for (auto & k : r.keys) all_keys.insert(k);
        r.text = render(r);
        return true;
    }

    void add_req(Conn & c, Req r) {
        r.conn = c.id; r.order = c.reqs.size(); r.start = c.out.size(); c.out += r.text; r.end = c.out.size(); note_value(r); c.odd = c.odd || r.verb == "raw";
        c.reqs.push_back(r);
        count("requests");
    }

    Conn * connect(int id, bool unix_sock) {
        if (conns.count(id)) return nullptr;
        Conn & c = conns[id]; c.id = id; c.unix_sock = unix_sock;
        for (int l : listens) { KFd * k = kfd(l); if (k && k->type == FD_LISTEN && k->unix_listen == unix_sock) { k->backlog.push_back(id); raise_edge(l); ev(fmt("client %d connects", id)); count("connections"); return &c; } }
        c.refused = true; return &c;
    }

    void deliver(Conn & c, size_t n) {
        if (c.refused || c.rst || c.srv_closed) return;
        n = std::min(n, c.out.size() - c.delivered);
        if (n) { c.delivered += n; ev(fmt("deliver %d %zu", c.id, n)); count("segments"); if (c.fd >= 0) raise_edge(c.fd); }
        if (c.fin_wait && c.delivered == c.out.size() && !c.fin) { c.fin = true; if (c.fd >= 0) raise_edge(c.fd); }
    }

    /// executes one line; returns true if it is a poll
    bool exec(const string & l, u64 & perm, int & maxev) {
        vector<string> t = split(l); if (t.empty()) return false;
        const string & a = t[0];
        auto num = [&](size_t i) -> long long { return i < t.size() ? atoll(t[i].c_str()) : 0; };
        auto conn = [&](size_t i) -> Conn * { auto it = conns.find((int)num(i)); return it == conns.end() || it->second.refused ? nullptr : &it->second; };
        // many small segments (or small windows): one per wait
        if (a == "trickle" || a == "drip") {
            Conn * c = conn(1); if (again < 0) again = num(3);
            if (c && a == "trickle") deliver(*c, (size_t)num(2));
            if (c && a == "drip" && c->space >= 0) { c->space += num(2); c->blocked = false; if (c->fd >= 0) raise_edge(c->fd); }
            if (--again > 0 && c && !c->srv_closed && (a == "drip" || c->delivered < c->out.size())) --pos; else again = -1;
            maxev = 128; return true;
        }
        if (a == "poll") { perm = num(1); maxev = num(2) > 0 ? (int)num(2) : 128; return true; }
        if (a == "conn") { connect((int)num(1), t.size() > 2 && t[2] == "unix"); }
        else if (a == "req") { Conn * c = conn(1); if (c && !c->fin_wait && !c->gone && !c->rst) { Req r; if (parse_req(t, 2, r)) add_req(*c, r); } }
        else if (a == "reqs") { for (long long n = num(1); n-- > 0;) { Conn * c = conn(2); if (c && !c->fin_wait && !c->gone && !c->rst) { Req r; if (parse_req(t, 3, r)) add_req(*c, r); } } }
        else if (a == "raw") { // raw <c> <E1|EW|C> <bytes>: one error line, one error line and then anything, anything
            Conn * c = conn(1); if (c && t.size() >= 4 && !c->fin_wait && !c->gone && !c->rst) { Req r; r.verb = "raw"; r.text = unesc(t[3]); r.expect = t[2] == "E1" || t[2] == "EW" ? X_ERRLINE : X_WILD; r.wild_after = t[2] == "EW"; if (r.expect == X_WILD) all_keys.insert("wk"); add_req(*c, r); count("fault.hostile_input"); }
        }
        else if (a == "deliver") { if (Conn * c = conn(1)) deliver(*c, (size_t)num(2)); }
        else if (a == "window") { if (Conn * c = conn(1)) { c->space = std::max(0ll, num(2)); count("fault.send_window_closed"); if (c->space > 0) { c->blocked = false; if (c->fd >= 0) raise_edge(c->fd); } } }
        else if (a == "space") { if (Conn * c = conn(1)) if (c->space >= 0) { c->space += num(2); if (c->space > 0) c->blocked = false; if (c->fd >= 0) raise_edge(c->fd); } }
        else if (a == "open") { if (Conn * c = conn(1)) { c->space = -1; c->blocked = false; if (c->fd >= 0) raise_edge(c->fd); } }
        else if (a == "halfclose") { if (Conn * c = conn(1)) if (!c->fin_wait && !c->rst) { c->fin_wait = true; count("fault.half_close"); deliver(*c, 0); } }
        else if (a == "close") { if (Conn * c = conn(1)) if (!c->gone && !c->rst) { c->fin_wait = true; c->gone = true; c->discard = true; c->out.resize(c->delivered); c->fin = true; count("fault.client_close"); ev(fmt("client %d closes", c->id)); if (c->fd >= 0) raise_edge(c->fd); } }
        else if (a == "reset") { if (Conn * c = conn(1)) if (!c->rst) { c->rst = true; c->gone = true; c->discard = true; count("fault.connection_reset"); ev(fmt("client %d resets", c->id)); if (c->fd >= 0) raise_edge(c->fd); } }
        else if (a == "clock") { advance(num(1) * 1000000); count("clock_advances"); }
        else if (a == "wall") { g_wall_ns += num(1) * 1000000ll; count("fault.wall_clock_jump"); }
        else if (a == "tickat") { g_ticks.push_back({(long)std::max(1ll, num(1)), (i64)num(2) * 1000000}); }
        else if (a == "fail" && t.size() >= 4) { injects[t[1]].push_back(Inj{(int)num(3), (int)num(2), t.size() > 4 ? (int)num(4) : 0}); }
        else if (a == "failalloc") { g_alloc_countdown = num(1); g_alloc_burst = std::max(1ll, num(2)); g_alloc_min_size = num(3); }
        else if (a == "spur") { if (Conn * c = conn(1)) if (c->fd >= 0) if (KFd * k = kfd(c->fd)) { k->spurious = EPOLLIN | EPOLLOUT; k->edge = true; count("fault.spurious_readiness"); } }
        else if (a == "signal") {
            int s = (int)num(1); ev(fmt("signal %d", s)); count("fault.signal");
            if (s == SIGUSR1) ++usr1; else terminating = true;
            if (!deliver_signal(s)) violation("signal", fmt("signal %d has no handler: the process would be killed", s));
        }
        else if (a == "udp" && t.size() >= 12) { // udp <dgid> <port> <reqid> <mode> <req...>
            u64 id = num(1); Req r; if (!dgrams.count(id) && parse_req(t, 5, r)) {
                Datagram d; d.id = id; d.port = (unsigned short)num(2); d.addr = 0x0a000000 + (u32)(num(2) & 0xff);
                unsigned short h[4] = { htons((unsigned short)num(3)), 0, htons(1), 0 };
                const string & m = t[4];
                const unsigned v = (unsigned)mix64(id * 65537 + (u64)num(3)); // which value is wrong
                if (m == "seq") h[1] = htons((unsigned short)(1u << v % 16)); if (m == "seqm") { h[1] = htons((unsigned short)(1u << v % 16)); h[2] = htons((unsigned short)(2u << (v >> 8) % 15)); } if (m == "multi") h[2] = htons((unsigned short)(2u << v % 15)); if (m == "resv") h[3] = htons((unsigned short)(1u << v % 16)); if (m == "zero") h[2] = 0;
                d.data = string((char *)h, 8) + r.text;
                if (m == "short") d.data.resize(1 + v % 7); if (m == "line") { static const char * l[] = {"\r\n", "bogus\r\n", "get k\r\n", "x\r\n", "stats\r\n", "quit\r\n", "get a\r\n", "\n"}; d.data = l[v % 8]; } if (m == "empty") d.data.resize(0); if (m == "hdronly") d.data.resize(8);
                if (m == "cut") d.data.resize(d.data.size() - std::min<size_t>(1 + v % (v & 256 ? 3 : 40), r.text.size() - 1));
                if (m == "bad") d.data = string((char *)h, 8) + "bogus command\r\n";
                dgrams[id] = d; dg_req[id] = r; dg_mode[id] = m;
            }
        }
        else if (a == "ud") { u64 id = num(1); KFd * k = kfd(udp_fd); if (dgrams.count(id) && k) { k->rxq.push_back(dgrams[id]); ev(fmt("datagram %llu arrives", (unsigned long long)id)); count("datagrams"); raise_edge(udp_fd); } }
        else if (a == "udrop") { if (dgrams.count(num(1))) count("fault.datagram_lost"); }
        else if (a == "ublock") { if (KFd * k = kfd(udp_fd)) { k->tx_blocked = true; count("fault.udp_send_blocked"); } }
        else if (a == "uopen") { if (KFd * k = kfd(udp_fd)) { k->tx_blocked = false; raise_edge(udp_fd); } }
        return false;
    }

    // ---- World ----
    void on_syscall() override {
        if (++spin > 300000) { violation("hang", "the server makes system calls endlessly without waiting for events"); g_sh->note[0] = 0; _exit(0); }
    }
    int inject(const char * call) override {
        if (draining) return 0;
        auto it = injects.find(call); if (it == injects.end() || it->second.empty()) return 0;
        auto & f = it->second.front();
        if (f.skip > 0) { --f.skip; return 0; }
        int e = f.err; ++n_injected; if (--f.times <= 0) it->second.erase(it->second.begin());
        count((string("fault.") + call + "_" + (e == EMFILE ? "EMFILE" : e == ENFILE ? "ENFILE" : e == ECONNABORTED ? "ECONNABORTED" : e == EINTR ? "EINTR" : e == ENOMEM ? "ENOMEM" : e == ENOBUFS ? "ENOBUFS" : e == EAGAIN ? "EAGAIN" : e == EADDRINUSE ? "EADDRINUSE" : e == EACCES ? "EACCES" : e == ECONNREFUSED ? "ECONNREFUSED" : e == ECONNRESET ? "ECONNRESET" : e == EPERM ? "EPERM" : e == ENETDOWN ? "ENETDOWN" : "error")).c_str());
        ev(fmt("%s fails with %d", call, e));
        if (!strcmp(call, "recv") || !strcmp(call, "send")) for (auto & c : conns) c.second.injected = c.second.injected || (e != EINTR && e != EAGAIN);
        return e;
    }
    void on_listen(int fd) override { if (kfd(fd)->type == FD_UDP) udp_fd = fd; else listens.push_back(fd); }
    void on_accepted(int c, int fd) override { conns[c].accepted = true; conns[c].fd = fd; }
    u32 conn_ready(int id) override {
        Conn & c = conns[id]; u32 m = 0;
        if (c.rst) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
        if (c.read < c.delivered || c.fin) m |= EPOLLIN;
        if (c.fin) m |= EPOLLRDHUP;
        if (c.space != 0) m |= EPOLLOUT;
        return m;
    }
    ssize_t conn_recv(int id, char * b, size_t n, bool peek) override {
        Conn & c = conns[id];
        if (c.rst) { c.eof_seen = true; return -ECONNRESET; }
        size_t av = c.delivered - c.read;
        if (peek && n == 0) return av;
        if (av == 0) { if (c.fin) { c.eof_seen = true; return 0; } return -EAGAIN; }
        n = std::min(n, av); memcpy(b, c.out.data() + c.read, n);
        if (!peek) {
            bytes_in += n; c.read += n; ++seq; ev(fmt("server reads %d %zu", id, n)); count("server_reads");
            for (auto & r : c.reqs) if (!r.inv && r.end <= c.read) {
                r.inv = seq; r.alloc_failed_at = g_alloc_failed; c.max_req = std::max(c.max_req, r.end - r.start); c.max_reply = std::max(c.max_reply, reply_size(r));
                if (r.expect == X_WILD) c.wild = true;
                if (r.expect == X_QUIT) c.quit_seen = true;
            } else if (!r.inv && r.start < c.read) { c.max_req = std::max(c.max_req, r.end - r.start); if (r.expect == X_WILD) c.wild = true; }
        }
        return n;
    }
    ssize_t conn_send(int id, const char * b, size_t n, bool nosignal) override {
        Conn & c = conns[id];
        if (c.rst || (c.gone && c.sends_after_gone > 0)) {
            if (!nosignal) { violation("crash", "send on a dead connection without MSG_NOSIGNAL: SIGPIPE would kill the server"); _exit(0); }
            return c.rst && c.sends_after_gone++ == 0 ? -ECONNRESET : -EPIPE;
        }
        if (c.gone) { c.sends_after_gone++; return n; }
        if (n == 0) return 0;
        size_t k = n;
        if (c.space >= 0) { k = std::min<size_t>(n, (size_t)c.space); c.space -= k; if (k < n) { c.blocked = true; if (k) count("fault.short_write"); else count("fault.send_would_block"); } }
        if (k == 0) return -EAGAIN;
        bytes_out += k; ++seq; c.in.append(b, k); c.marks.push_back(std::make_pair(c.in.size(), seq));
        ev(fmt("server sends %d ", id) + esc(string(b, k), 3000)); count("server_sends");
        parse_in(c);
        return k;
    }
    u64 mark_seq(Conn & c, size_t off) { auto it = std::lower_bound(c.marks.begin(), c.marks.end(), std::make_pair(off, (u64)0)); return it == c.marks.end() ? seq : it->second; }

    void stream_violation(Conn & c, const string & m) { if (!c.broken && !c.wild && !terminating) violation("stream", fmt("connection %d: ", c.id) + m); c.broken = true; }

    void parse_in(Conn & c) {
        if (c.wild || c.broken) return;
        while (c.parsed < c.in.size()) {
            while (c.next < c.reqs.size() && c.reqs[c.next].noreply && c.reqs[c.next].expect == X_NORMAL) ++c.next;
            if (c.next >= c.reqs.size() || !c.reqs[c.next].inv || c.reqs[c.next].expect == X_QUIT) {
                // after an allocation failure even a noreply request may be answered with an error
                size_t e = c.in.find("\r\n", c.parsed);
                bool failed = c.next > 0 && c.reqs[c.next - 1].noreply && g_alloc_failed > c.reqs[c.next - 1].alloc_failed_at;
                if (failed && e != string::npos && is_err(c.in.substr(c.parsed, e - c.parsed))) { c.parsed = e + 2; continue; }
                if (failed && e == string::npos && c.in.size() - c.parsed < 100) return;
                stream_violation(c, "server sent bytes nobody asked for: '" + esc(c.in.substr(c.parsed, 80)) + "'"); return;
            }
            Req & r = c.reqs[c.next]; Reply rep; size_t e; string why;
            int k = parse_reply(r, c.in, c.parsed, e, rep, why);
            if (k == 0) return;
            if (k < 0) { stream_violation(c, "reply to request #" + std::to_string(r.order) + " (" + esc(r.text, 60) + "): " + why); return; }
            c.parsed = e; r.reply = rep; r.resp = mark_seq(c, e); r.alloc_failed_resp = g_alloc_failed; ++c.next; count("replies");
            if (r.wild_after) { c.wild = true; return; }
            for (auto & v : rep.vals) if (v.has_tok) tokens[v.key].push_back(v.tok);
        }
    }
    void conn_shutdown_by_server(int id, int) override { conns[id].srv_shut = true; }
    void conn_closed_by_server(int id) override {
        Conn & c = conns[id]; c.srv_closed = true; c.fd = -1; ++conns_closed;
        bool ok = c.fin || c.rst || c.gone || c.wild || c.quit_seen || terminating || g_alloc_failed > failed_at_wait || c.injected || c.broken;
        if (!ok) violation("stream", fmt("server closed connection %d for no reason", id));
    }
    void udp_received(int, const Datagram & d, size_t copied) override {
        ++seq; UReq u; u.dgid = d.id; u.port = d.port; u.addr = d.addr; u.recv_seq = seq; u.r = dg_req[d.id];
        u.reqid = d.data.size() >= 2 ? ntohs(*(const unsigned short *)d.data.data()) : 0;
        const string & m = dg_mode[d.id];
        u.valid = m == "ok" || m == "zero"; u.truncated = copied < d.data.size() && d.data.size() > 65507;
        u.expects = (u.valid && !u.r.noreply && u.r.expect == X_NORMAL) || m == "bad";
        if (m == "bad") u.r.expect = X_ERRLINE;
        if (!u.valid) count("fault.malformed_datagram");
        u.r.inv = seq; u.r.alloc_failed_at = g_alloc_failed; note_value(u.r); udp_max = std::max(udp_max, reply_size(u.r) + d.data.size());
        ev(fmt("server receives datagram %llu", (unsigned long long)d.id));
        ureqs.push_back(u);
    }
    ssize_t udp_send(int, const string & data, u32 addr, unsigned short port) override {
        ++seq; ev(fmt("server sends datagram to %u ", port) + esc(data, 3000)); count("udp_replies");
        if (terminating) return data.size();
        if (data.size() < 8) { violation("udp", "reply datagram without a frame header: '" + esc(data, 60) + "'"); return data.size(); }
        unsigned short h[4]; memcpy(h, data.data(), 8);
        unsigned short id = ntohs(h[0]);
        vector<UReq *> cand;
        for (auto & u : ureqs) if (u.expects && !u.replied && u.port == port && u.addr == addr && u.reqid == id) cand.push_back(&u);
        if (cand.empty()) {
            // after an allocation failure even a noreply request may be answered with an error
            size_t e = data.find("\r\n", 8);
            if (e != string::npos && e + 2 == data.size() && is_err(data.substr(8, e - 8))) for (auto & u : ureqs) if (u.valid && u.r.noreply && !u.replied && u.port == port && u.addr == addr && u.reqid == id && g_alloc_failed > u.r.alloc_failed_at) { u.replied = true; return data.size(); }
            violation("udp", fmt("datagram sent to port %u with request id %u does not answer any pending request of that sender: '", port, id) + esc(data.substr(8), 80) + "'"); return data.size(); }
        // a request whose reply may have been lost to an allocation failure is the last choice
        std::reverse(cand.begin(), cand.end());
        auto certain = std::stable_partition(cand.begin(), cand.end(), [](UReq * u) { return !(g_alloc_failed > u->r.alloc_failed_at); });
        std::reverse(cand.begin(), certain);
        if (ntohs(h[1]) != 0) violation("udp", fmt("reply datagram has sequence number %u", ntohs(h[1])));
        string body = data.substr(8), first_why; UReq * best = nullptr;
        for (UReq * u : cand) { // the sender may have used a request id twice
            Reply rep; size_t e = 0; string why; int k = parse_reply(u->r, body, 0, e, rep, why);
            if (k == 1 && e == body.size()) { best = u; u->r.reply = rep; break; }
            if (first_why.empty()) first_why = k == 0 ? "incomplete reply: '" + esc(body, 60) + "'" : k < 0 ? why : "the reply datagram carries extra bytes: '" + esc(body.substr(e), 80) + "'";
        }
        if (!best) { best = cand[0]; violation("udp", fmt("request id %u (", id) + esc(best->r.text, 60) + "): " + first_why); best->replied = true; return data.size(); }
        if (data.size() > 65507) { count("fault.udp_message_too_long"); best->r.reply = Reply(); best->replied = best->lost = true; return -EMSGSIZE; }
        if (int e = inject("sendto")) { best->r.reply = Reply(); best->replied = e != EINTR && e != EAGAIN; best->lost = best->replied; return -e; }
        best->r.resp = seq; best->r.alloc_failed_resp = g_alloc_failed; for (auto & v : best->r.reply.vals) if (v.has_tok) tokens[v.key].push_back(v.tok);
        best->replied = true;
        return data.size();
    }

    // ---- progress ----
    /// the server is about to block and no event is ready
    void check_idle(bool retrying) {
        ++idle_points; count("idle_points_checked");
        if (terminating) return;
        for (int l : listens) { KFd * k = kfd(l); if (k && k->type == FD_LISTEN && !k->backlog.empty() && !retrying) { violation("stall", fmt("server is idle while connection %d waits to be accepted", k->backlog.front())); return; } }
        for (auto & p : conns) {
            Conn & c = p.second;
            if (!c.accepted || c.srv_closed || c.wild || c.broken || c.injected) continue;
            if (c.rst || c.gone) continue;
            if (c.blocked || c.space == 0) continue;  // the client does not take data: waiting is right
            if (c.read < c.delivered && !c.quit_seen) { violation("stall", fmt("server is idle although %zu bytes of connection %d have arrived and were not read", c.delivered - c.read, c.id)); return; }
            size_t n = c.next; while (n < c.reqs.size() && c.reqs[n].noreply && c.reqs[n].expect == X_NORMAL) ++n;
            if (n < c.reqs.size() && c.reqs[n].inv && c.reqs[n].expect != X_QUIT && c.reqs[n].expect != X_WILD) {
                bool after_quit = false; for (size_t i = 0; i < n; ++i) if (c.reqs[i].expect == X_QUIT) after_quit = true;
                if (!after_quit) { violation("stall", fmt("server is idle although request #%zu of connection %d (", n, c.id) + esc(c.reqs[n].text, 60) + ") was received completely and not answered"); return; }
            }
            if (c.quit_seen && !c.srv_closed) { violation("stall", fmt("connection %d sent quit and is still open", c.id)); return; }
        }
        if (KFd * k = kfd(udp_fd)) if (!k->tx_blocked) {
            if (!k->rxq.empty() && !retrying) { violation("stall", "server is idle although a datagram waits"); return; }
            for (auto & u : ureqs) if (u.expects && !u.replied) {
                if (g_alloc_failed > u.r.alloc_failed_at) { u.replied = u.lost = true; continue; }
                violation("udp", fmt("server is idle although datagram %llu (", (unsigned long long)u.dgid) + esc(u.r.text, 60) + ") was received and not answered"); u.replied = true; return; }
        }
    }

    void enter_drain() {
        draining = true; g_sh->in_drain = 1; ev("drain");
        injects.clear(); g_ticks.clear(); g_alloc_countdown = -1; g_alloc_burst = 0;
        for (auto & p : conns) { Conn & c = p.second; if (c.refused) continue; c.space = -1; c.blocked = false; deliver(c, (size_t)-1); if (c.fd >= 0) raise_edge(c.fd); }
        if (KFd * k = kfd(udp_fd)) { k->tx_blocked = false; raise_edge(udp_fd); }
    }
    void make_probes() {
        probe_made = true;
        auto add = [&](const string & v, const vector<string> & k, const string & val = "") { Req r; r.verb = v; r.keys = k; r.value = val; r.probe = true; r.text = render(r); probe_reqs.push_back(r); };
        vector<string> batch;
        for (auto & k : all_keys) { if (k.empty() || k.size() > 250) continue; batch.push_back(k); if (batch.size() == 20 || (batch.size() + 1) * (std::min<size_t>(page, max_value + appended) + 320) > (16u << 20)) { add("gets", batch); batch.clear(); } }
        if (!batch.empty()) add("gets", batch);
        if (check_stats || check_dump) add("stats", {});
        add("set", {"__probe__"}, "probe value"); all_keys.insert("__probe__");
        add("get", {"__probe__"});
        probe_conn = 900;
        bool has_unix = false, has_tcp = false;
        for (int l : listens) if (KFd * k = kfd(l)) (k->unix_listen ? has_unix : has_tcp) = true;
        if (has_tcp) connect(probe_conn, false); else if (has_unix) connect(probe_conn, true); else probe_udp = true;
    }
    /// next step of the final phase; true: something was set in motion
    bool final_step() {
        if (!probe_made) { make_probes(); probing = true; if (!probe_udp) return true; }
        if (has_violation()) { probe_i = probe_reqs.size(); }
        if (probe_i < probe_reqs.size() && check_dump && !dump_sent && !probe_udp && probe_reqs[probe_i].verb == "stats") {
            dump_sent = true; ++usr1; ev("signal 10 before the last statistics");
            if (!deliver_signal(SIGUSR1)) violation("signal", "SIGUSR1 has no handler");
            return true;
        }
        if (probe_i < probe_reqs.size()) {
            if (!probe_udp) {
                Conn & c = conns[probe_conn];
                if (c.srv_closed || c.refused) { violation("stall", "the server does not serve a new connection after the faults stopped"); probe_i = probe_reqs.size(); return true; }
                add_req(c, probe_reqs[probe_i++]); deliver(c, (size_t)-1);
            } else {
                KFd * k = kfd(udp_fd); if (!k) { probe_i = probe_reqs.size(); return true; }
                u64 id = 1000000 + probe_i; Datagram d; d.id = id; d.port = 999; d.addr = 0x0a000099;
                unsigned short h[4] = { htons((unsigned short)(probe_i + 1)), 0, htons(1), 0 };
                d.data = string((char *)h, 8) + probe_reqs[probe_i].text; dgrams[id] = d; dg_req[id] = probe_reqs[probe_i]; dg_mode[id] = "ok";
                ++probe_i; k->rxq.push_back(d); raise_edge(udp_fd);
            }
            return true;
        }
        if (!term_sent) {
            term_sent = true; check_released(); terminating = true;
            if (!deliver_signal(SIGTERM)) violation("signal", "SIGTERM has no handler");
            return true;
        }
        return false;
    }
    void check_released() {
        for (auto & p : conns) { Conn & c = p.second; if ((c.fin || c.rst || c.gone) && c.accepted && !c.srv_closed && !has_violation()) { violation("leak", fmt("connection %d was closed by its client and never by the server", c.id)); return; } }
    }

    /// the enabled transports are exactly the configured ones
    void check_transports() {
        int t = 0, u = 0, x = 0; sscanf(transports.c_str(), "%d,%d,%d", &t, &u, &x);
        int nt = 0, nu = 0, nx = 0; bool ok = true;
        auto port = [](const string & b) { size_t c = b.rfind(':'); return c == string::npos ? -1 : atoi(b.c_str() + c + 1); };
        for (int l : listens) if (KFd * k = kfd(l)) { if (k->unix_listen) { ++nx; ok = ok && k->bound == "unix:/tmp/sim.sock"; } else { ++nt; ok = ok && port(k->bound) == t; } }
        if (KFd * k = kfd(udp_fd)) { ++nu; ok = ok && port(k->bound) == u; }
        ok = ok && (nt > 0) == (t != 0) && (nu > 0) == (u != 0) && (nx > 0) == (x != 0);
        count("transports_checked");
        auto host = [](const string & b) { size_t c = b.rfind(':'); return b.compare(0, 5, "inet:") ? string("0.0.0.0") : b.substr(5, c - 5); };
        string want_ip = listen_ip.empty() ? "0.0.0.0" : listen_ip; vector<int> fds = listens; fds.push_back(udp_fd);
        for (int f : fds) if (KFd * k = kfd(f)) if (k->bound.compare(0, 5, "unix:") && host(k->bound) != want_ip) { violation("config", "option --listen: the server listens on " + k->bound + " although it was told to listen on " + want_ip); return; }
        if (x) { unsigned m = sock_mode.empty() ? 0700 : (unsigned)strtoul(sock_mode.c_str(), nullptr, 8), is = g_modes.count("/tmp/sim.sock") ? g_modes["/tmp/sim.sock"] : 0; if (is != m) { violation("config", fmt("option --socket_access: the mode of the unix socket is %o instead of %o", is, m)); return; } }
        if (!ok) violation("config", "the server does not listen on exactly the configured transports (tcp port, udp port, unix): " + transports);
    }

    int on_wait(int, struct epoll_event * out, int maxev, int timeout) override {
        if (!started && !transports.empty() && !expect_refuse) check_transports();
        spin = 0; started = true; failed_at_wait = g_alloc_failed;
        const bool retrying = timeout > 0;   // the server waits for memory
        if (in_midop) { clocks.push_back({++seq, g_steady_ns, g_steady_ns}); in_midop = false; }
        bool was_ready = any_ready();
        if (timeout != 0 && !was_ready) check_idle(retrying);
        if (metered && !terminating) check_work();
        if (!terminating) check_memory();
        if (terminating && ++term_waits > 2000) { violation("signal", "the server does not exit after a termination signal"); finish_now(); }
        while (pos < plan.size() && !(terminating && term_waits > 3)) {
            u64 perm = 0; int m = maxev;
            g_sh->line = pos;
            bool poll = exec(plan[pos++], perm, m);
            if (poll && retrying && !any_ready()) { advance((i64)timeout * 1000000); return 0; }
            if (poll && (timeout == 0 || any_ready())) return collect_ready(out, std::min(m, maxev), perm);
        }
        if (has_violation() && !terminating) { finish_now(); }
        if (!draining) { enter_drain(); }
        for (;;) {
            if (any_ready()) return collect_ready(out, maxev, 0);
            if (timeout == 0) return 0;
            if (terminating && !any_ready()) { violation("signal", "the server goes idle instead of exiting after a termination signal"); finish_now(); }
            if (retrying) { if (++retries > 100) { violation("stall", "the server does not recover from failed allocations"); finish_now(); } advance((i64)timeout * 1000000); return 0; }
            check_idle(false);
            if (has_violation()) finish_now();
            if (!final_step()) { violation("signal", "the server does not exit after SIGTERM"); finish_now(); }
        }
    }
    void finish_now() { evaluate(-1); g_sh->finished = 1; _exit(0); }

    // ---- evaluation ----
    Outcome outcome(const Req & r, Verb v, size_t ki, LOp & o) {
        if (r.reply.error) return R_ERROR;
        const string & l = r.reply.line;
        if (v == V_GET || v == V_GETS) {
            // match values to keys in order
            size_t vi = 0; for (size_t k = 0; k < r.keys.size(); ++k) { bool hit = vi < r.reply.vals.size() && r.reply.vals[vi].key == r.keys[k];
                if (k == ki) { if (!hit) return R_MISS; const RVal & x = r.reply.vals[vi]; o.rvalue = x.data; o.rflags = x.flags; o.rtok = x.tok; o.has_rtok = x.has_tok; return R_HIT; }
                if (hit) ++vi; }
            return R_MISS;
        }
        if (l == "STORED") return R_STORED; if (l == "NOT_STORED") return R_NOT_STORED; if (l == "EXISTS") return R_EXISTS;
        if (l == "NOT_FOUND") return R_NOT_FOUND; if (l == "DELETED") return R_DELETED; if (l == "TOUCHED") return R_TOUCHED;
        u64 n = 0; parse_u64(l, n); o.rnum = n; return R_NUMBER;
    }
    void add_op(std::map<string, vector<LOp>> & h, const Req & r, int sess, u64 resp_bound, bool must) {
        Verb v = verb_of(r.verb); if (v == V_OTHER || r.expect != X_NORMAL || !r.inv) return;
        for (size_t ki = 0; ki < r.keys.size(); ++ki) {
            LOp o; o.sess = sess; o.order = r.order * 1000000 + ki; o.inv = r.inv; o.verb = v; o.value = r.value; o.flags = r.flags; o.ttl = r.ttl; o.delta = r.delta; o.tok = r.tok;
            if (r.reply.have) { o.out = outcome(r, v, ki, o); o.resp = r.resp; o.must = true; }
            else { o.resp = resp_bound; o.must = must; }
            const size_t sz = r.keys[ki].size() + r.value.size();
            bool stores = v == V_SET || v == V_ADD || v == V_REPLACE || v == V_CAS || v == V_APPEND || v == V_PREPEND;
            if (pressure == "oom" && (stores || v == V_INCR || v == V_DECR)) o.err_ok = true;
            if (pressure == "evict" && (v == V_APPEND || v == V_PREPEND)) o.err_ok = true;
            if (stores && sz + 64 > page) o.err_ok = true;
            if (stores && sz > page) o.must_fail = true;
            if (reply_size(r) > (30u << 20)) o.err_ok = true; // more than the send buffer may hold
            if (r.reply.have && r.alloc_failed_resp > r.alloc_failed_at) { o.err_ok = true; o.err_may_apply = true; }
            o.desc = fmt("conn %d #%llu ", r.conn, (unsigned long long)r.order) + esc(r.text.substr(0, 60), 90) + " -> " + (r.reply.have ? (o.out == R_HIT ? "'" + esc(o.rvalue, 60) + "' flags " + std::to_string(o.rflags) + (o.has_rtok ? fmt(" token %llu", (unsigned long long)o.rtok) : string()) : o.out == R_MISS ? string("miss") : esc(r.reply.line, 60)) : r.noreply ? "(noreply)" : "(no reply)");
            h[r.keys[ki]].push_back(o);
        }
    }
    void evaluate(int rc) {
        if (rc >= 0 && started) {
            if (rc != 0) violation("signal", fmt("the server exited with status %d", rc));
        }
        if (has_violation()) { /* still look at the data: more evidence, but not after a broken stream */ }
        // requests of a connection are applied in order: what a dead connection left behind is a prefix of what it sent
        std::set<string> present; bool probed = false;
        if (conns.count(probe_conn)) { for (auto & r : conns[probe_conn].reqs) if (r.verb == "gets" && r.reply.have && !r.reply.error) for (auto & v : r.reply.vals) present.insert(v.key); probed = probe_i == probe_reqs.size() && !has_violation(); }
        if (probed && pressure == "none") for (auto & p : conns) {
            const Req * missing = nullptr;
            for (auto & r : p.second.reqs) {
                if (r.verb != "set" || r.expect != X_NORMAL || r.keys[0].compare(0, 1, "q") != 0 || r.reply.error || g_alloc_failed) continue;
                count("private_writes_checked");
                if (!present.count(r.keys[0])) missing = missing ? missing : &r;
                else if (missing) { violation("data", fmt("connection %d: request #%llu was applied although the earlier request #%llu (", p.first, (unsigned long long)r.order, (unsigned long long)missing->order) + esc(missing->text, 40) + ") was not"); break; }
            }
        }
        std::map<string, vector<LOp>> h;
        for (auto & p : conns) {
            Conn & c = p.second;
            bool dead = c.rst || c.gone || (c.srv_closed && !c.fin) || c.wild || c.broken || c.injected || terminating_early();
            // resp bound of unanswered requests: the next answered one
            u64 bound = SEQ_INF; vector<u64> b(c.reqs.size(), SEQ_INF);
            for (size_t i = c.reqs.size(); i-- > 0;) { b[i] = bound; if (c.reqs[i].reply.have) bound = c.reqs[i].resp; }
            bool quit = false;
            for (size_t i = 0; i < c.reqs.size(); ++i) {
                if (c.reqs[i].expect == X_QUIT) { quit = true; break; }
                if (quit) break;
                bool must = (!dead || b[i] != SEQ_INF);
                if (!c.reqs[i].reply.have && g_alloc_failed > c.reqs[i].alloc_failed_at) must = false;
                if (c.broken && !c.reqs[i].reply.have) { if (!c.reqs[i].inv) break; must = false; }
                add_op(h, c.reqs[i], c.id, b[i], must);
            }
        }
        int us = 100000;
        for (auto & u : ureqs) {
            if (!u.valid || u.r.expect != X_NORMAL) continue;
            bool must = !u.truncated && !terminating_early() && !(g_alloc_failed > u.r.alloc_failed_at && !u.r.reply.have);
            add_op(h, u.r, us++, SEQ_INF, must);
        }
        LinEnv env; env.may_evict = pressure == "evict"; env.page_size = page;
        u64 nops = 0, steps = 0;
        if (!any_udp_violation()) for (auto & k : h) {
            nops += k.second.size(); env.key_len = k.first.size();
            LinChecker lc(k.second, clocks, env); string why;
            int r = lc.check(why); steps += lc.steps;
            if (r < 0) count("linearizability_undecided");
            if (r == 0) { violation("data", "key '" + esc(k.first, 40) + "': " + why); break; }
        }
        count("history_operations", nops); count("model_steps", steps);
        if (!has_violation() && !terminating_early() && rc == 0) { if (check_stats) eval_stats(); eval_stdout(); }
    }
    bool terminating_early() const { return terminating && !term_sent; }
    bool any_udp_violation() const { for (u32 i = 0; i < g_sh->n_viol; ++i) if (!strcmp(g_sh->viol_kind[i], "udp")) return true; return false; }

    void eval_stdout() {
        if (out_fd < 0 || !usr1) return;
        string s; char b[4096]; lseek(out_fd, 0, SEEK_SET); ssize_t n;
        while ((n = __real_read(out_fd, b, sizeof b)) > 0) s.append(b, n);
        u64 c = 0; size_t p = 0; while ((p = s.find("cmd_get", p)) != string::npos) { ++c; ++p; }
        if (c > usr1 || c + g_alloc_failed < usr1) violation("signal", fmt("%llu SIGUSR1 signals but statistics were printed %llu times", (unsigned long long)usr1, (unsigned long long)c));
        count("sigusr1_dumps_checked", c);
        if (!dump_sent || has_violation()) return;
        // the last print-out against the reply to the 'stats' that follows it
        const Req * st = nullptr; for (auto & r : conns[probe_conn].reqs) if (r.verb == "stats" && r.reply.have) { st = &r; break; }
        if (!st) return;
        std::map<string, string> shown; std::istringstream in(s); string l;
        while (std::getline(in, l)) { size_t a = l.find(':'), b = l.find('.', a), e = l.find_first_not_of('.', b); if (a == string::npos || b == string::npos || e == string::npos) continue; std::istringstream v(l.substr(e)); string x; v >> x; shown[l.substr(a + 1, b - a - 1)] = x; }
        for (auto & x : st->reply.stats) { if (!shown.count(x.first)) continue; count("dump_values_compared"); if (shown[x.first] != x.second) { violation("signal", "SIGUSR1 printed " + x.first + " as " + shown[x.first] + ", the statistics have " + x.second); return; } }
    }

    void eval_stats() {
        const Req * st = nullptr; for (auto & r : conns[probe_conn].reqs) if (r.verb == "stats" && r.reply.have) { st = &r; break; }
        if (!st) return;
        std::map<string, u64> got; for (auto & s : st->reply.stats) got[s.first] = strtoull(s.second.c_str(), nullptr, 10);
        std::map<string, std::pair<u64, u64>> want;  // allowed range
        auto exact = [&](const string & n, u64 d) { want[n].first += d; want[n].second += d; };
        auto maybe = [&](const string & n, u64 d) { want[n].second += d; };
        static const char * names[] = { "cmd_get", "get_hits", "get_misses", "cmd_set", "cmd_add", "add_stored", "add_not_stored", "cmd_replace", "replace_stored", "replace_not_stored", "cmd_cas", "cas_misses", "cas_stored", "cas_badval", "cmd_delete", "delete_hits", "delete_misses", "cmd_touch", "touch_hits", "touch_misses", "cmd_incr", "incr_hits", "incr_misses", "cmd_decr", "decr_hits", "decr_misses", "cmd_append", "append_stored", "append_misses", "cmd_prepend", "prepend_stored", "prepend_misses", "cmd_flush" };
        for (auto n : names) want[n];
        u64 present = 0;
        vector<std::pair<const Req *, bool>> all;
        for (auto & p : conns) for (auto & r : p.second.reqs) { if (&r == st) break; if (r.expect == X_QUIT) break; if (r.inv) all.push_back(std::make_pair(&r, true)); }
        for (auto & u : ureqs) if (u.valid) all.push_back(std::make_pair(&u.r, true));
        u64 set_ops = 0;
        for (auto & x : all) {
            const Req & r = *x.first; Verb v = verb_of(r.verb); bool have = r.reply.have, err = have && r.reply.error; const string & l = r.reply.line;
            if (r.expect != X_NORMAL) { if (r.text.compare(0, 3, "get") == 0) { u64 n = split(r.text).size(); maybe("cmd_get", n); maybe("get_hits", n); maybe("get_misses", n); } continue; }
            if (r.verb == "flush_all") { exact("cmd_flush", 1); continue; }
            if (v == V_OTHER) continue;
            if (v == V_GET || v == V_GETS) {
                if (err) continue;
                exact("cmd_get", r.keys.size()); if (!have) { maybe("get_hits", r.keys.size()); maybe("get_misses", r.keys.size()); continue; }
                exact("get_hits", r.reply.vals.size()); exact("get_misses", r.keys.size() - r.reply.vals.size());
                if (r.probe) present += r.reply.vals.size();
                continue;
            }
            string base = v == V_SET ? "set" : v == V_ADD ? "add" : v == V_REPLACE ? "replace" : v == V_CAS ? "cas" : v == V_DELETE ? "delete" : v == V_TOUCH ? "touch" : v == V_INCR ? "incr" : v == V_DECR ? "decr" : v == V_APPEND ? "append" : "prepend";
            if (err) { maybe("cmd_" + base, 1); maybe("incr_misses", 0); continue; }
            exact("cmd_" + base, 1);
            if (v == V_SET) { ++set_ops; continue; }
            vector<string> outs; string o;
            switch (v) {
            case V_ADD: outs = {"add_stored", "add_not_stored"}; o = l == "STORED" ? "add_stored" : "add_not_stored"; break;
            case V_REPLACE: outs = {"replace_stored", "replace_not_stored"}; o = l == "STORED" ? outs[0] : outs[1]; break;
            case V_CAS: outs = {"cas_stored", "cas_badval", "cas_misses"}; o = l == "STORED" ? outs[0] : l == "EXISTS" ? outs[1] : outs[2]; break;
            case V_DELETE: outs = {"delete_hits", "delete_misses"}; o = l == "DELETED" ? outs[0] : outs[1]; break;
            case V_TOUCH: outs = {"touch_hits", "touch_misses"}; o = l == "TOUCHED" ? outs[0] : outs[1]; break;
            case V_INCR: outs = {"incr_hits", "incr_misses"}; o = l == "NOT_FOUND" ? outs[1] : outs[0]; break;
            case V_DECR: outs = {"decr_hits", "decr_misses"}; o = l == "NOT_FOUND" ? outs[1] : outs[0]; break;
            case V_APPEND: outs = {"append_stored", "append_misses"}; o = l == "STORED" ? outs[0] : outs[1]; break;
            case V_PREPEND: outs = {"prepend_stored", "prepend_misses"}; o = l == "STORED" ? outs[0] : outs[1]; break;
            default: break;
            }
            if (have) exact(o, 1); else for (auto & s : outs) maybe(s, 1);
        }
        count("stats_compared", want.size());
        for (auto & w : want) {
            if (!got.count(w.first)) { violation("stats", "statistic " + w.first + " is missing"); return; }
            u64 g = got[w.first];
            if (g < w.second.first || g > w.second.second) { violation("stats", fmt("%s is %llu, expected %llu..%llu", w.first.c_str(), (unsigned long long)g, (unsigned long long)w.second.first, (unsigned long long)w.second.second)); return; }
        }
        auto sum = [&](const string & a, const string & b, const string & c, const string & t) { if (got[a] + got[b] + (c.empty() ? 0 : got[c]) != got[t]) violation("stats", a + " + " + b + (c.empty() ? "" : " + " + c) + " != " + t); };
        sum("get_hits", "get_misses", "", "cmd_get"); sum("set_new", "set_existing", "", "cmd_set"); sum("add_stored", "add_not_stored", "", "cmd_add");
        sum("replace_stored", "replace_not_stored", "", "cmd_replace"); sum("cas_stored", "cas_badval", "cas_misses", "cmd_cas"); sum("delete_hits", "delete_misses", "", "cmd_delete"); sum("touch_hits", "touch_misses", "", "cmd_touch");
        auto eq = [&](const string & n, u64 v) { if (!got.count(n)) violation("stats", "statistic " + n + " is missing"); else if (got[n] != v) violation("stats", fmt("%s is %llu, expected %llu", n.c_str(), (unsigned long long)got[n], (unsigned long long)v)); };
        eq("curr_items", present); eq("limit_maxbytes", mem); eq("page_size", page);
        if (pressure == "none" || noevict) eq("evictions", 0);
        if (hash_size && present * 2 < hash_size) eq("hash_capacity", hash_size);
        if ((got["used_memory"] == 0) != (present == 0)) violation("stats", fmt("used_memory is %llu with %llu items", (unsigned long long)got["used_memory"], (unsigned long long)present));
        if (got["used_memory"] > mem) violation("stats", fmt("used_memory %llu exceeds the limit", (unsigned long long)got["used_memory"]));
        if (got["hash_capacity"] < present) violation("stats", "hash_capacity is smaller than the number of items");
    }
};

static ServerWorld * g_sw;
static void on_midop() { g_sw->midop_tick(); }

void run_server(const Plan & plan) {
    ServerWorld w(plan); g_sw = &w;
    int mfd = memfd_create("out", 0); if (mfd >= 0) { fflush(stdout); dup2(mfd, 1); w.out_fd = mfd; }
    int efd = -1; if (!g_verbose) { /* stderr is captured by the driver */ }
    (void)efd;
    w.header();
    g_world = &w; g_on_midop_tick = on_midop;
    vector<string> a = w.args; a.insert(a.begin(), "cachelotd");
    vector<char *> av; for (auto & s : a) av.push_back(&s[0]); av.push_back(nullptr);
    // faults that hit the start-up: lines before the first 'start' marker
    size_t i = 0; u64 perm; int me;
    for (; i < plan.size(); ++i) { if (plan[i] == "start") break; }
    if (i < plan.size()) { for (size_t k = 0; k < i; ++k) { vector<string> t = split(plan[k]); if (!t.empty() && (t[0] == "fail" || t[0] == "failalloc")) w.exec(plan[k], perm, me); } w.pos = i + 1; }
    int rc;
    { Sut s; rc = cachelotd_main((int)av.size() - 1, av.data()); }
    fflush(stdout);
    ev(fmt("main returned %d", rc));
    if ((w.left == 'l' || w.left == 'f') && (!g_left.count("/tmp/sim.sock") || g_modes["/tmp/sim.sock"] != 0640)) violation("config", w.left == 'l' ? "the server took the unix socket away from another server" : "the server removed or changed a file at the path of its unix socket");
    if (!w.started) {
        bool faulted = g_alloc_failed > 0 || w.n_injected > 0;
        count(rc ? "startup_refused" : "startup_exit0");
        if (rc == 0) violation("config", "the server exited with status 0 without serving");
        else if (lseek(2, 0, SEEK_END) == 0 && lseek(w.out_fd, 0, SEEK_END) <= 0) violation("config", "the server exited with an error status and no message");
        else if (!w.expect_refuse && !w.may_refuse && !faulted) violation("config", "the server refused a valid configuration");
        g_sh->finished = 1; _exit(0);
    }
    if (w.expect_refuse) violation("config", "the server accepted an invalid configuration");
    if (count_open(FD_CONN) && !has_violation()) violation("leak", fmt("%d connections still open when the server exited", count_open(FD_CONN)));
    w.evaluate(rc);
    g_sh->finished = 1;
    _exit(0);
}

} // namespace sim
