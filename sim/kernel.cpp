#include "kernel.h"
#include <algorithm>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/timerfd.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
World * g_world = nullptr;
vector<KFd> g_fds;
static std::map<int, void (*)(int)> g_handlers;
static std::map<int, void (*)(int, siginfo_t *, void *)> g_handlers3;

KFd * kfd(int fd) {
    if (fd < FD_BASE || fd - FD_BASE >= (int)g_fds.size()) return nullptr;
    KFd * k = &g_fds[fd - FD_BASE];
    return k->type == FD_FREE ? nullptr : k;
}
static int new_fd(FdType t) {
    for (size_t i = 0; i < g_fds.size(); ++i)
        if (g_fds[i].type == FD_FREE) { g_fds[i] = KFd(); g_fds[i].type = t; return FD_BASE + (int)i; }
    g_fds.emplace_back(); g_fds.back().type = t;
    return FD_BASE + (int)g_fds.size() - 1;
}
int count_open(FdType t) { int n = 0; for (auto & f : g_fds) if (f.type == t) ++n; return n; }

u32 ready_mask(int fd) {
    KFd * k = kfd(fd); if (!k) return 0;
    switch (k->type) {
    case FD_EVENTFD: return (k->counter ? EPOLLIN : 0) | EPOLLOUT;
    case FD_PIPE_R: return k->pipebuf.empty() ? 0 : EPOLLIN;
    case FD_PIPE_W: return EPOLLOUT;
    case FD_LISTEN: return k->backlog.empty() ? 0 : EPOLLIN;
    case FD_CONN: return g_world->conn_ready(k->conn);
    case FD_UDP: return (k->rxq.empty() ? 0 : EPOLLIN) | (k->tx_blocked ? 0 : EPOLLOUT);
    case FD_SOCK: return EPOLLOUT | EPOLLHUP;
    default: return 0;
    }
}
void raise_edge(int fd) { KFd * k = kfd(fd); if (k && k->reg) k->edge = true; }

static bool reportable(size_t i, u32 & m) {
    KFd & k = g_fds[i];
    if (k.type == FD_FREE || !k.reg) return false;
    m = (ready_mask(FD_BASE + (int)i) | k.spurious) & (k.interest | EPOLLERR | EPOLLHUP);
    if (!m) return false;
    if ((k.interest & EPOLLET) && !k.edge) return false;
    return true;
}
bool any_ready() { u32 m; for (size_t i = 0; i < g_fds.size(); ++i) if (reportable(i, m)) return true; return false; }

int collect_ready(struct epoll_event * out, int maxev, u64 perm) {
    vector<std::pair<u64, size_t>> order; u32 m;
    for (size_t i = 0; i < g_fds.size(); ++i)
        if (reportable(i, m)) order.push_back(std::make_pair(perm ? mix64(perm * 1000003 + i) : i, i));
    std::sort(order.begin(), order.end());
    int n = 0;
    for (auto & o : order) {
        if (n >= maxev) break;
        KFd & k = g_fds[o.second];
        if (!reportable(o.second, m)) continue;
        out[n].events = m; out[n].data = k.udata; ++n;
        k.edge = false; k.spurious = 0;
    }
    return n;
}

bool deliver_signal(int signo) {
    auto a = g_handlers.find(signo); auto b = g_handlers3.find(signo);
    if (a == g_handlers.end() && b == g_handlers3.end()) return false;
    Sut s;
    if (a != g_handlers.end()) a->second(signo);
    else { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = signo; b->second(signo, &si, nullptr); }
    return true;
}

std::map<string, unsigned> g_modes; std::map<string, char> g_left; bool g_timewait = false, g_port_taken = false; static mode_t g_umask = 022;
static int fail(int e) { errno = e; return -1; }
static string addr_str(const struct sockaddr * a, socklen_t len) {
    if (a->sa_family == AF_UNIX) return string("unix:") + ((const sockaddr_un *)a)->sun_path;
    if (a->sa_family == AF_INET) { u32 ip = ntohl(((const sockaddr_in *)a)->sin_addr.s_addr); return fmt("inet:%u.%u.%u.%u:%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255, ntohs(((const sockaddr_in *)a)->sin_port)); }
    if (a->sa_family == AF_INET6) return fmt("inet6:%u", ntohs(((const sockaddr_in6 *)a)->sin6_port));
    (void)len; return "?";
}
} // namespace sim
using namespace sim;

#define REAL(ret, name, args) ret __real_##name args
extern "C" {
REAL(int, socket, (int, int, int)); REAL(int, bind, (int, const struct sockaddr *, socklen_t)); REAL(int, listen, (int, int));
REAL(int, accept, (int, struct sockaddr *, socklen_t *)); REAL(int, accept4, (int, struct sockaddr *, socklen_t *, int));
REAL(int, close, (int)); REAL(int, epoll_create, (int)); REAL(int, epoll_create1, (int));
REAL(int, epoll_ctl, (int, int, int, struct epoll_event *)); REAL(int, epoll_wait, (int, struct epoll_event *, int, int));
REAL(int, epoll_pwait, (int, struct epoll_event *, int, int, const sigset_t *));
REAL(int, eventfd, (unsigned, int)); REAL(int, fcntl, (int, int, ...)); REAL(int, ioctl, (int, unsigned long, ...));
REAL(int, pipe, (int *)); REAL(int, pipe2, (int *, int)); REAL(ssize_t, read, (int, void *, size_t)); REAL(ssize_t, write, (int, const void *, size_t));
REAL(ssize_t, recv, (int, void *, size_t, int)); REAL(ssize_t, recvfrom, (int, void *, size_t, int, struct sockaddr *, socklen_t *));
REAL(ssize_t, recvmsg, (int, struct msghdr *, int)); REAL(ssize_t, send, (int, const void *, size_t, int));
REAL(ssize_t, sendto, (int, const void *, size_t, int, const struct sockaddr *, socklen_t)); REAL(ssize_t, sendmsg, (int, const struct msghdr *, int));
REAL(ssize_t, readv, (int, const struct iovec *, int)); REAL(ssize_t, writev, (int, const struct iovec *, int));
REAL(int, setsockopt, (int, int, int, const void *, socklen_t)); REAL(int, getsockopt, (int, int, int, void *, socklen_t *));
REAL(int, getsockname, (int, struct sockaddr *, socklen_t *)); REAL(int, getpeername, (int, struct sockaddr *, socklen_t *));
REAL(int, shutdown, (int, int)); REAL(int, sigaction, (int, const struct sigaction *, struct sigaction *));
REAL(int, timerfd_create, (int, int)); REAL(int, timerfd_settime, (int, int, const struct itimerspec *, struct itimerspec *));
REAL(int, poll, (struct pollfd *, nfds_t, int)); REAL(int, connect, (int, const struct sockaddr *, socklen_t)); REAL(int, unlink, (const char *)); REAL(int, remove, (const char *)); REAL(int, stat, (const char *, struct stat *)); REAL(int, lstat, (const char *, struct stat *)); REAL(int, access, (const char *, int));
REAL(int, chmod, (const char *, mode_t)); REAL(int, fchmod, (int, mode_t)); REAL(int, fchmodat, (int, const char *, mode_t, int)); REAL(mode_t, umask, (mode_t)); REAL(int, daemon, (int, int)); REAL(int, pause, ());

#define SIMCALL Harness h__; if (g_world) { g_world->on_syscall(); g_sh->n_syscalls++; }
#define INJECT(name) do { if (int e__ = g_world->inject(name)) return fail(e__); } while (0)

int __wrap_socket(int d, int t, int p) {
    if (!g_world) return __real_socket(d, t, p);
    SIMCALL; INJECT("socket");
    if (d != AF_INET && d != AF_UNIX && d != AF_INET6) return fail(EAFNOSUPPORT);
    int fd = new_fd(FD_SOCK); KFd * k = kfd(fd); k->domain = d; k->stype = t & 0xff; k->nonblock = t & SOCK_NONBLOCK; (void)p;
    return fd;
}
int __wrap_bind(int fd, const struct sockaddr * a, socklen_t l) {
    KFd * k = kfd(fd); if (!k) return __real_bind(fd, a, l);
    SIMCALL; INJECT("bind");
    k->bound = addr_str(a, l);
    if (a->sa_family != AF_UNIX && k->stype == SOCK_STREAM && (g_port_taken || (g_timewait && !k->reuse))) { ev("bind " + k->bound + ": in use"); return fail(EADDRINUSE); }
    if (a->sa_family == AF_UNIX) { string path = ((const sockaddr_un *)a)->sun_path; if (!g_modes.emplace(path, (k->fmode ? k->fmode : 0777) & ~g_umask).second) return fail(EADDRINUSE); } // fchmod before bind decides the mode (Linux)
    ev("bind " + k->bound + (k->stype == SOCK_DGRAM ? " dgram" : " stream"));
    if (k->stype == SOCK_DGRAM) { k->type = FD_UDP; g_world->on_listen(fd); }
    return 0;
}
int __wrap_listen(int fd, int n) {
    KFd * k = kfd(fd); if (!k) return __real_listen(fd, n);
    SIMCALL; INJECT("listen"); (void)n;
    k->type = FD_LISTEN; k->unix_listen = k->domain == AF_UNIX; g_world->on_listen(fd);
    return 0;
}
static int do_accept(int fd, struct sockaddr * a, socklen_t * l, int flags) {
    KFd * k = kfd(fd); if (k->type != FD_LISTEN) return fail(EINVAL);
    if (k->backlog.empty()) { if (!k->nonblock) { violation("hang", "blocking accept with nothing to accept"); _exit(0); } return fail(EAGAIN); }
    INJECT("accept");
    int c = k->backlog.front(); k->backlog.pop_front();
    bool unixs = k->unix_listen;
    int nfd = new_fd(FD_CONN); KFd * n = kfd(nfd); n->conn = c; n->nonblock = flags & SOCK_NONBLOCK; n->domain = unixs ? AF_UNIX : AF_INET; n->stype = SOCK_STREAM;
    if (a && l) {
        if (unixs) { sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; memcpy(a, &u, std::min<size_t>(*l, 2)); *l = 2; }
        else { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(20000 + c); s.sin_addr.s_addr = htonl(0x0a000001); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
    }
    ev(fmt("accepted connection %d", c));
    g_world->on_accepted(c, nfd);
    return nfd;
}
int __wrap_accept(int fd, struct sockaddr * a, socklen_t * l) { if (!kfd(fd)) return __real_accept(fd, a, l); SIMCALL; return do_accept(fd, a, l, 0); }
int __wrap_accept4(int fd, struct sockaddr * a, socklen_t * l, int f) { if (!kfd(fd)) return __real_accept4(fd, a, l, f); SIMCALL; return do_accept(fd, a, l, f); }
int __wrap_close(int fd) {
    KFd * k = kfd(fd);
    if (!k) { if (fd >= FD_BASE && g_world) { SIMCALL; violation("crash", fmt("close of descriptor %d which is not open", fd)); return fail(EBADF); } return __real_close(fd); }
    SIMCALL;
    if (k->type == FD_CONN) { ev(fmt("server closes connection %d", k->conn)); g_world->conn_closed_by_server(k->conn); }
    *k = KFd();
    return 0;
}
int __wrap_epoll_create(int n) { if (!g_world) return __real_epoll_create(n); SIMCALL; INJECT("epoll_create"); return new_fd(FD_EPOLL); }
int __wrap_epoll_create1(int n) { if (!g_world) return __real_epoll_create1(n); SIMCALL; INJECT("epoll_create"); return new_fd(FD_EPOLL); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event * e) {
    if (!kfd(ep)) return __real_epoll_ctl(ep, op, fd, e);
    SIMCALL; KFd * k = kfd(fd); if (!k) return fail(EBADF);
    if (op == EPOLL_CTL_DEL) { if (!k->reg) return fail(ENOENT); k->reg = false; k->edge = false; return 0; }
    if (op == EPOLL_CTL_ADD && k->reg) return fail(EEXIST);
    if (op == EPOLL_CTL_MOD && !k->reg) return fail(ENOENT);
    if (op == EPOLL_CTL_ADD) INJECT("epoll_ctl");
    k->reg = true; k->interest = e->events; k->udata = e->data; k->edge = true; // readiness is re-examined
    return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event * out, int maxev, int timeout) {
    if (!kfd(ep)) return __real_epoll_wait(ep, out, maxev, timeout);
    SIMCALL; INJECT("epoll_wait");
    return g_world->on_wait(ep, out, maxev, timeout);
}
int __wrap_epoll_pwait(int ep, struct epoll_event * out, int maxev, int timeout, const sigset_t * ss) {
    if (!kfd(ep)) return __real_epoll_pwait(ep, out, maxev, timeout, ss);
    SIMCALL; INJECT("epoll_wait");
    return g_world->on_wait(ep, out, maxev, timeout);
}
int __wrap_eventfd(unsigned v, int f) { if (!g_world) return __real_eventfd(v, f); SIMCALL; int fd = new_fd(FD_EVENTFD); kfd(fd)->counter = v; kfd(fd)->nonblock = f & EFD_NONBLOCK; return fd; }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); void * arg = va_arg(ap, void *); va_end(ap);
    KFd * k = kfd(fd); if (!k) return __real_fcntl(fd, cmd, arg);
    SIMCALL;
    if (cmd == F_SETFL) k->nonblock = (long)arg & O_NONBLOCK;
    if (cmd == F_GETFL) return k->nonblock ? O_NONBLOCK : 0;
    return 0;
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void * arg = va_arg(ap, void *); va_end(ap);
    KFd * k = kfd(fd); if (!k) return __real_ioctl(fd, req, arg);
    SIMCALL;
    if (req == FIONBIO) k->nonblock = *(int *)arg != 0;
    else if (req == FIONREAD) { char tmp[1]; *(int *)arg = 0; if (k->type == FD_CONN) { ssize_t n = g_world->conn_recv(k->conn, tmp, 0, true); *(int *)arg = n > 0 ? (int)n : 0; } }
    return 0;
}
int __wrap_pipe(int * p) { if (!g_world) return __real_pipe(p); SIMCALL; int r = new_fd(FD_PIPE_R), w = new_fd(FD_PIPE_W); kfd(r)->peer = w; kfd(w)->peer = r; p[0] = r; p[1] = w; return 0; }
int __wrap_pipe2(int * p, int f) { if (!g_world) return __real_pipe2(p, f); int r = __wrap_pipe(p); (void)f; return r; }

static ssize_t sim_recv(int fd, KFd * k, char * b, size_t n, int flags) {
    switch (k->type) {
    case FD_EVENTFD: if (!k->counter) return fail(EAGAIN); if (n < 8) return fail(EINVAL); memcpy(b, &k->counter, 8); k->counter = 0; return 8;
    case FD_PIPE_R: if (k->pipebuf.empty()) return fail(EAGAIN); n = std::min(n, k->pipebuf.size()); memcpy(b, k->pipebuf.data(), n); k->pipebuf.erase(0, n); return n;
    case FD_TIMERFD: return fail(EAGAIN);
    case FD_CONN: {
        INJECT("recv");
        ssize_t r = g_world->conn_recv(k->conn, b, n, flags & MSG_PEEK);
        if (r < 0) return fail((int)-r);
        return r; }
    default: (void)fd; return fail(ENOTCONN);
    }
}
static ssize_t sim_send(int fd, KFd * k, const char * b, size_t n, int flags) {
    switch (k->type) {
    case FD_EVENTFD: { u64 v; if (n < 8) return fail(EINVAL); memcpy(&v, b, 8); k->counter += v; raise_edge(fd); return 8; }
    case FD_PIPE_W: { KFd * r = kfd(k->peer); if (!r) return fail(EPIPE); r->pipebuf.append(b, n); raise_edge(k->peer); return n; }
    case FD_CONN: {
        INJECT("send");
        ssize_t r = g_world->conn_send(k->conn, b, n, flags & MSG_NOSIGNAL);
        if (r < 0) return fail((int)-r);
        return r; }
    default: return fail(ENOTCONN);
    }
}
ssize_t __wrap_read(int fd, void * b, size_t n) { KFd * k = kfd(fd); if (!k) return __real_read(fd, b, n); SIMCALL; return sim_recv(fd, k, (char *)b, n, 0); }
ssize_t __wrap_recv(int fd, void * b, size_t n, int f) { KFd * k = kfd(fd); if (!k) return __real_recv(fd, b, n, f); SIMCALL; return sim_recv(fd, k, (char *)b, n, f); }
ssize_t __wrap_write(int fd, const void * b, size_t n) { KFd * k = kfd(fd); if (!k) return __real_write(fd, b, n); SIMCALL; return sim_send(fd, k, (const char *)b, n, 0); }
ssize_t __wrap_send(int fd, const void * b, size_t n, int f) { KFd * k = kfd(fd); if (!k) return __real_send(fd, b, n, f); SIMCALL; return sim_send(fd, k, (const char *)b, n, f); }

static ssize_t udp_recv(int fd, KFd * k, char * b, size_t n, int flags, struct sockaddr * a, socklen_t * l, bool * trunc) {
    if (k->rxq.empty()) return fail(EAGAIN);
    INJECT("recvfrom");
    Datagram d = k->rxq.front(); if (!(flags & MSG_PEEK)) k->rxq.pop_front();
    size_t c = std::min(n, d.data.size()); memcpy(b, d.data.data(), c);
    if (trunc) *trunc = c < d.data.size();
    if (a && l) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(d.port); s.sin_addr.s_addr = htonl(d.addr); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
    g_world->udp_received(fd, d, c);
    return (flags & MSG_TRUNC) ? (ssize_t)d.data.size() : (ssize_t)c;
}
static ssize_t udp_send(int fd, KFd * k, const string & data, const struct sockaddr * a) {
    if (!a || a->sa_family != AF_INET) return fail(EDESTADDRREQ);
    if (k->tx_blocked && data.size() <= 65507) return fail(EAGAIN);
    const sockaddr_in * s = (const sockaddr_in *)a;
    ssize_t r = g_world->udp_send(fd, data, ntohl(s->sin_addr.s_addr), ntohs(s->sin_port));
    return r < 0 ? fail((int)-r) : r;
}
ssize_t __wrap_recvfrom(int fd, void * b, size_t n, int f, struct sockaddr * a, socklen_t * l) {
    KFd * k = kfd(fd); if (!k) return __real_recvfrom(fd, b, n, f, a, l);
    SIMCALL; if (k->type == FD_UDP) return udp_recv(fd, k, (char *)b, n, f, a, l, nullptr);
    return sim_recv(fd, k, (char *)b, n, f);
}
ssize_t __wrap_recvmsg(int fd, struct msghdr * m, int f) {
    KFd * k = kfd(fd); if (!k) return __real_recvmsg(fd, m, f);
    SIMCALL; size_t tot = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) tot += m->msg_iov[i].iov_len;
    string b(tot, '\0'); ssize_t r; bool tr = false; socklen_t l = m->msg_namelen;
    if (k->type == FD_UDP) { r = udp_recv(fd, k, &b[0], tot, f, (struct sockaddr *)m->msg_name, m->msg_name ? &l : nullptr, &tr); m->msg_namelen = l; }
    else r = sim_recv(fd, k, &b[0], tot, f);
    m->msg_flags = tr ? MSG_TRUNC : 0;
    if (r > 0) { size_t off = 0; for (size_t i = 0; i < m->msg_iovlen && off < (size_t)r; ++i) { size_t c = std::min<size_t>(m->msg_iov[i].iov_len, r - off); memcpy(m->msg_iov[i].iov_base, b.data() + off, c); off += c; } }
    return r;
}
ssize_t __wrap_sendto(int fd, const void * b, size_t n, int f, const struct sockaddr * a, socklen_t l) {
    KFd * k = kfd(fd); if (!k) return __real_sendto(fd, b, n, f, a, l);
    SIMCALL; if (k->type == FD_UDP) return udp_send(fd, k, string((const char *)b, n), a);
    return sim_send(fd, k, (const char *)b, n, f);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr * m, int f) {
    KFd * k = kfd(fd); if (!k) return __real_sendmsg(fd, m, f);
    SIMCALL; string b; for (size_t i = 0; i < m->msg_iovlen; ++i) b.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    if (k->type == FD_UDP) return udp_send(fd, k, b, (const struct sockaddr *)m->msg_name);
    return sim_send(fd, k, b.data(), b.size(), f);
}
ssize_t __wrap_readv(int fd, const struct iovec * v, int n) {
    if (!kfd(fd)) return __real_readv(fd, v, n);
    struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = const_cast<struct iovec *>(v); m.msg_iovlen = n; return __wrap_recvmsg(fd, &m, 0);
}
ssize_t __wrap_writev(int fd, const struct iovec * v, int n) {
    if (!kfd(fd)) return __real_writev(fd, v, n);
    struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = const_cast<struct iovec *>(v); m.msg_iovlen = n; return __wrap_sendmsg(fd, &m, 0);
}
int __wrap_setsockopt(int fd, int lv, int o, const void * v, socklen_t l) { KFd * k = kfd(fd); if (!k) return __real_setsockopt(fd, lv, o, v, l); SIMCALL; if (lv == SOL_SOCKET && o == SO_REUSEADDR && v && l >= sizeof(int)) k->reuse = *(const int *)v != 0; return 0; }
int __wrap_getsockopt(int fd, int lv, int o, void * v, socklen_t * l) { if (!kfd(fd)) return __real_getsockopt(fd, lv, o, v, l); SIMCALL; if (v && l) memset(v, 0, *l); return 0; }
int __wrap_getsockname(int fd, struct sockaddr * a, socklen_t * l) { KFd * k = kfd(fd); if (!k) return __real_getsockname(fd, a, l); SIMCALL; sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = k->domain; s.sin_port = htons(11211); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0; }
int __wrap_getpeername(int fd, struct sockaddr * a, socklen_t * l) { KFd * k = kfd(fd); if (!k) return __real_getpeername(fd, a, l); SIMCALL; sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = k->domain; s.sin_port = htons(20000 + k->conn); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0; }
int __wrap_shutdown(int fd, int how) { KFd * k = kfd(fd); if (!k) return __real_shutdown(fd, how); SIMCALL; if (k->type != FD_CONN) return fail(ENOTCONN); g_world->conn_shutdown_by_server(k->conn, how); return 0; }
int __wrap_sigaction(int s, const struct sigaction * a, struct sigaction * o) {
    if (!g_world) return __real_sigaction(s, a, o);
    SIMCALL;
    if (o) memset(o, 0, sizeof *o);
    if (a) {
        g_handlers.erase(s); g_handlers3.erase(s);
        if (a->sa_flags & SA_SIGINFO) g_handlers3[s] = a->sa_sigaction;
        else if (a->sa_handler != SIG_DFL) g_handlers[s] = a->sa_handler == SIG_IGN ? (void (*)(int))[](int) {} : a->sa_handler;
    }
    return 0;
}
int __wrap_timerfd_create(int c, int f) { if (!g_world) return __real_timerfd_create(c, f); SIMCALL; return new_fd(FD_TIMERFD); }
int __wrap_timerfd_settime(int fd, int f, const struct itimerspec * n, struct itimerspec * o) { if (!kfd(fd)) return __real_timerfd_settime(fd, f, n, o); SIMCALL; if (o) memset(o, 0, sizeof *o); return 0; }
int __wrap_poll(struct pollfd * p, nfds_t n, int t) {
    if (!g_world || n == 0 || !kfd(p[0].fd)) return __real_poll(p, n, t);
    SIMCALL; int r = 0;
    for (nfds_t i = 0; i < n; ++i) { u32 m = ready_mask(p[i].fd); p[i].revents = ((m & EPOLLIN) ? POLLIN : 0) | ((m & EPOLLOUT) ? POLLOUT : 0); p[i].revents &= p[i].events; if (p[i].revents) ++r; }
    if (!r && t != 0) { // a blocking wait on one descriptor would stop the whole server
        violation("stall", "the server blocks in poll() on one descriptor"); _exit(0);
    }
    return r;
}
int __wrap_connect(int fd, const struct sockaddr * a, socklen_t l) {
    if (!kfd(fd)) return __real_connect(fd, a, l);
    SIMCALL; if (a->sa_family != AF_UNIX) return fail(ECONNREFUSED);
    string p = ((const sockaddr_un *)a)->sun_path; if (!g_modes.count(p)) return fail(ENOENT);
    auto i = g_left.find(p); return i != g_left.end() && i->second != 'l' ? fail(ECONNREFUSED) : 0;
}
static bool mine(const char * p) { return g_world && p && !strncmp(p, "/tmp/sim", 8); }
static int sim_unlink(const char * p) { ev(string("unlink ") + p); g_left.erase(p); return g_modes.erase(p) ? 0 : fail(ENOENT); }
static int sim_stat(const char * p, struct stat * st) {
    auto i = g_modes.find(p); if (i == g_modes.end()) return fail(ENOENT);
    memset(st, 0, sizeof *st); auto f = g_left.find(p); st->st_mode = i->second | (f != g_left.end() && f->second == 'f' ? S_IFREG : S_IFSOCK); st->st_nlink = 1; return 0;
}
int __wrap_unlink(const char * p) { if (!g_world) return __real_unlink(p); SIMCALL; return sim_unlink(p); }
int __wrap_remove(const char * p) { if (!mine(p)) return __real_remove(p); SIMCALL; return sim_unlink(p); }
int __wrap_stat(const char * p, struct stat * st) { if (!mine(p)) return __real_stat(p, st); SIMCALL; return sim_stat(p, st); }
int __wrap_lstat(const char * p, struct stat * st) { if (!mine(p)) return __real_lstat(p, st); SIMCALL; return sim_stat(p, st); }
int __wrap_access(const char * p, int m) { if (!mine(p)) return __real_access(p, m); SIMCALL; return g_modes.count(p) ? 0 : fail(ENOENT); }
int __wrap_chmod(const char * p, mode_t m) { if (!g_world) return __real_chmod(p, m); SIMCALL; INJECT("chmod"); ev(fmt("chmod %o ", m) + p); if (!g_modes.count(p)) return fail(ENOENT); g_modes[p] = m; return 0; }
int __wrap_fchmodat(int d, const char * p, mode_t m, int f) { if (!g_world) return __real_fchmodat(d, p, m, f); SIMCALL; INJECT("chmod"); ev(fmt("chmod %o ", m) + p); if (!g_modes.count(p)) return fail(ENOENT); g_modes[p] = m; return 0; }
int __wrap_fchmod(int fd, mode_t m) { KFd * k = kfd(fd); if (!k) return __real_fchmod(fd, m); SIMCALL; ev(fmt("fchmod %o", m)); k->fmode = m; return 0; }
mode_t __wrap_umask(mode_t m) { if (!g_world) return __real_umask(m); SIMCALL; mode_t o = g_umask; g_umask = m & 0777; return o; }
int __wrap_daemon(int a, int b) { if (!g_world) return __real_daemon(a, b); SIMCALL; return 0; }
int __wrap_pause() { if (!g_world) return __real_pause(); SIMCALL; violation("hang", "the server sleeps in pause()"); _exit(0); }
}
