// Simulated kernel: sockets, epoll (edge and level triggered), eventfd, pipes, signals.
#pragma once
#include "core.h"
#include <deque>
#include <sys/socket.h>
#include <sys/epoll.h>

namespace sim {

enum FdType { FD_FREE, FD_EPOLL, FD_EVENTFD, FD_TIMERFD, FD_PIPE_R, FD_PIPE_W, FD_SOCK, FD_LISTEN, FD_CONN, FD_UDP };
enum { FD_BASE = 1000 };

struct Conn;                       // client side of a stream connection (defined by the world)
struct Datagram { string data; u32 addr; unsigned short port; u64 id; };

struct KFd {
    FdType type = FD_FREE;
    int domain = 0, stype = 0;
    bool nonblock = false;
    // epoll registration (one epoll instance)
    bool reg = false; u32 interest = 0; epoll_data_t udata; bool edge = false; u32 spurious = 0;
    u64 counter = 0;               // eventfd
    string pipebuf; int peer = -1;
    bool reuse = false;            // SO_REUSEADDR
    unsigned fmode = 0;            // fchmod before bind
    string bound;                  // bound address, for LISTEN / UDP
    bool unix_listen = false;
    std::deque<int> backlog;       // LISTEN: client connection numbers
    int conn = -1;                 // CONN: client connection number
    std::deque<Datagram> rxq;      // UDP
    bool tx_blocked = false;       // UDP send would block
};

/// what the world must provide to the kernel
struct World {
    virtual ~World() {}
    /// the server waits for events (timeout_ms == 0: only polls); returns false to make epoll_wait return with `ready` as is
    virtual int on_wait(int epfd, struct epoll_event * out, int maxev, int timeout_ms) = 0;
    virtual void on_accepted(int conn, int fd) = 0;
    virtual ssize_t conn_recv(int conn, char * buf, size_t n, bool peek) = 0;        // -errno on error
    virtual ssize_t conn_send(int conn, const char * buf, size_t n, bool nosignal) = 0;
    virtual u32 conn_ready(int conn) = 0;                              // EPOLL* mask
    virtual void conn_closed_by_server(int conn) = 0;
    virtual void conn_shutdown_by_server(int conn, int how) = 0;
    virtual void udp_received(int fd, const Datagram & d, size_t copied) = 0;
    virtual ssize_t udp_send(int fd, const string & data, u32 addr, unsigned short port) = 0;
    virtual int inject(const char * call) = 0;                         // errno to fail with, or 0
    virtual void on_listen(int fd) = 0;
    virtual void on_syscall() = 0;
};
extern World * g_world;
extern vector<KFd> g_fds;                     // index = fd - FD_BASE
KFd * kfd(int fd);
void raise_edge(int fd);
u32 ready_mask(int fd);
int collect_ready(struct epoll_event * out, int maxev, u64 perm);
bool any_ready();
bool deliver_signal(int signo);               // calls the installed handler; false: default action
int count_open(FdType t);
extern std::map<string, char> g_left;         // what a previous server (or someone else) left at a path: s stale socket, l socket of a living server, f file
extern bool g_timewait, g_port_taken;         // connections of a previous server linger on the port; another server has the port
extern std::map<string, unsigned> g_modes;   // path -> access mode of the unix sockets

} // namespace sim
