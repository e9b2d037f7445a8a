// Server world: the real cachelotd main() against simulated clients.
#pragma once
#include "core.h"
#include "kernel.h"
#include "lin.h"

namespace sim {

struct RVal { string key, data; u32 flags = 0; u64 tok = 0; bool has_tok = false; };
struct Reply { bool have = false; string line; vector<RVal> vals; vector<std::pair<string, string>> stats; bool error = false; };

enum Expect { X_NORMAL, X_ERRLINE, X_WILD, X_QUIT };

struct Req {
    int conn = 0; u64 order = 0; string verb; vector<string> keys; string value; u32 flags = 0; u64 ttl = 0, delta = 0, tok = 0; bool noreply = false;
    Expect expect = X_NORMAL;
    size_t start = 0, end = 0; u64 inv = 0, resp = 0; Reply reply;
    bool probe = false, wild_after = false; u64 alloc_failed_at = 0, alloc_failed_resp = 0;   // failed allocations before the request was read / when it was answered
    string text;       // bytes on the wire
};

struct Conn {
    int id = -1; bool unix_sock = false, refused = false, accepted = false; int fd = -1;
    string out; size_t delivered = 0, read = 0;       // bytes written by the client / arrived / read by the server
    i64 space = -1;                                   // bytes the server may still send (-1: unlimited)
    bool blocked = false;                             // server hit the end of the window
    bool fin = false, fin_wait = false, gone = false, rst = false;   // client half-closed (arrived) / half-close after all data / fully closed / reset
    bool eof_seen = false, srv_closed = false, srv_shut = false; int sends_after_gone = 0;
    string in; size_t parsed = 0; vector<std::pair<size_t, u64>> marks;  // bytes sent by the server, (offset, seq)
    vector<Req> reqs; size_t next = 0;                // next request to be matched with a reply
    bool wild = false, injected = false, quit_seen = false, broken = false;
    bool discard = false;                             // replies are thrown away by the kernel (client gone)
    u64 inj_errors = 0; size_t max_req = 0, max_reply = 0; bool odd = false;   // largest request and reply so far, hostile input was sent
};

struct UReq { Req r; u64 dgid; unsigned short port; u32 addr; unsigned short reqid; bool valid; bool expects; u64 recv_seq; bool replied = false, lost = false; bool truncated = false; };

} // namespace sim
