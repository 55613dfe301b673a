// The network boundary of the monitors: socket calls made by the code under test pass through
// these wrappers, which can interrupt, shorten or break them, and which keep the ledger of
// descriptors the library holds (a close of anything else, or a second close, is a violation).
// Link with NET_WRAP (specs.py). A thread's calls count as the library's while Lib is alive in it.
#ifndef VERIF_NET_H
#define VERIF_NET_H
#include "common.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <errno.h>
#include <dirent.h>
#include <poll.h>
#include <network/socket.h>
extern "C" {
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
int __real_close(int); int __real_socket(int, int, int); int __real_accept(int, struct sockaddr *, socklen_t *);
}
namespace N {
struct Fault { V::Rng g; int cap, eintr; long recv_left, send_left; int recv_how, send_how, accept_eintr; // cap: longest transfer (0: any); eintr: one call in n (0: none); *_left: bytes until the fault (-1: never)
  Fault(uint64_t seed) : g(seed), cap(0), eintr(0), recv_left(-1), send_left(-1), recv_how(0), send_how(0), accept_eintr(0) {} };
static thread_local Fault *fault = 0;
static thread_local bool one_connection = false; // the armed fault ends with the connection: the next accept clears it
static void (*on_accept)() = 0; // called in the library's thread after it accepted a connection
static thread_local int socket_errno = 0; // socket() fails with this
static thread_local int harness = 0; // >0: the harness's own calls
static std::atomic<uint64_t> n_recv, n_send, n_eintr, n_short, n_broken, n_fds;
static std::mutex ledger_m; static std::set<int> *ledger = new std::set<int>;
struct Own { Own() { harness++; } ~Own() { harness--; } };
inline size_t held() { std::lock_guard<std::mutex> l(ledger_m); return ledger->size(); }
}
extern "C" {
ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { N::Fault *q = N::fault; if (N::harness || !q) return __real_recv(fd, p, n, f); N::n_recv++; if (q->eintr && q->g.below(q->eintr) == 0) { N::n_eintr++; errno = EINTR; return -1; } if (q->recv_left == 0) { N::n_broken++; if (q->recv_how == 0) return 0; errno = q->recv_how; return -1; } size_t m = n; if (q->cap && m > 1) { m = 1 + q->g.below(std::min<size_t>(m, q->cap)); if (m < n) N::n_short++; } if (q->recv_left > 0 && m > (size_t)q->recv_left) m = q->recv_left; ssize_t r = __real_recv(fd, p, m, f); if (r > 0 && q->recv_left > 0) q->recv_left -= r; return r; }
ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { N::Fault *q = N::fault; if (N::harness || !q) return __real_send(fd, p, n, f); N::n_send++; if (q->eintr && q->g.below(q->eintr) == 0) { N::n_eintr++; errno = EINTR; return -1; } if (q->send_left == 0) { N::n_broken++; errno = q->send_how ? q->send_how : EPIPE; return -1; } size_t m = n; if (q->cap && m > 1) { m = 1 + q->g.below(std::min<size_t>(m, q->cap)); if (m < n) N::n_short++; } if (q->send_left > 0 && m > (size_t)q->send_left) m = q->send_left; ssize_t r = __real_send(fd, p, m, f); if (r > 0 && q->send_left > 0) q->send_left -= r; return r; }
int __wrap_socket(int a, int b, int c) { if (N::socket_errno && !N::harness) { errno = N::socket_errno; return -1; } int r = __real_socket(a, b, c); if (r >= 0 && !N::harness) { std::lock_guard<std::mutex> l(N::ledger_m); N::ledger->insert(r); N::n_fds++; } return r; }
int __wrap_accept(int s, struct sockaddr *a, socklen_t *l) { if (N::fault && !N::harness && N::fault->accept_eintr > 0) { N::fault->accept_eintr--; N::n_eintr++; errno = EINTR; return -1; } int r = __real_accept(s, a, l); if (N::one_connection && r >= 0) { N::fault = 0; N::one_connection = false; } if (r >= 0 && !N::harness && N::on_accept) N::on_accept(); if (r >= 0 && !N::harness) { std::lock_guard<std::mutex> k(N::ledger_m); N::ledger->insert(r); N::n_fds++; } return r; }
int __wrap_close(int fd) { if (N::harness) return __real_close(fd); bool mine; { std::lock_guard<std::mutex> l(N::ledger_m); mine = N::ledger->erase(fd) > 0; } if (!mine) V::fail("the library closed descriptor " + std::to_string(fd) + ", which it does not hold (closed twice, or somebody else's)"); return __real_close(fd); }
}
namespace N {
typedef pfi::network::stream_socket S; typedef pfi::network::server_socket SS;
struct Pair { S *a, *b; };
inline SS &listener() { static SS *s = 0; if (!s) { s = new SS; if (!s->create(0)) { fprintf(stderr, "cannot listen on the loopback\n"); _exit(78); } } return *s; }
inline Pair connected() { Pair p; p.a = new S; if (!p.a->connect("127.0.0.1", listener().port())) { fprintf(stderr, "cannot connect on the loopback: %s\n", strerror(errno)); _exit(78); } p.b = listener().accept(); VCHECK(p.b, "accept returned nothing for a waiting connection"); return p; }
// a plain peer of the harness's own, for a library socket
struct Raw { int fd; Raw() : fd(-1) {} ~Raw() { shut(); } Raw(const Raw &) = delete; void operator=(const Raw &) = delete;
  void shut() { if (fd >= 0) { Own o; ::close(fd); fd = -1; } }
  void reset() { if (fd >= 0) { linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); shut(); } }
  bool to(uint16_t port) { Own o; fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int r; do r = ::connect(fd, (sockaddr *)&a, sizeof a); while (r < 0 && errno == EINTR); return r == 0; }
  bool put(const std::string &s, V::Rng *g = 0) { Own o; size_t at = 0; while (at < s.size()) { size_t n = s.size() - at; if (g) n = std::min<size_t>(n, 1 + g->below(g->chance(1, 3) ? 3 : 5000)); ssize_t r = ::send(fd, s.data() + at, n, MSG_NOSIGNAL); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; at += r; } return true; }
  std::string all(size_t lim = ~(size_t)0) { Own o; std::string s; char b[65536]; while (s.size() < lim) { ssize_t r = ::recv(fd, b, std::min(sizeof b, lim - s.size()), 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; s.append(b, r); V::tick(); } return s; } 
  std::string until(double sec, const std::function<bool(const std::string &)> &enough) { Own o; std::string s; char b[65536]; uint64_t t = V::now_us() + (uint64_t)(sec * 1e6); while (!enough(s) && V::now_us() < t) { pollfd p = {fd, POLLIN, 0}; if (poll(&p, 1, 50) <= 0) continue; ssize_t r = ::recv(fd, b, sizeof b, 0); if (r <= 0) break; s.append(b, r); } return s; } };
inline void init(int argc, char **argv) { Own o; V::init(argc, argv); }
inline int rawport(int fd) { sockaddr_in a; socklen_t l = sizeof a; getsockname(fd, (sockaddr *)&a, &l); return ntohs(a.sin_port); }
inline void counts() { V::count("recv calls monitored", n_recv); V::count("send calls monitored", n_send); V::count("interrupted calls", n_eintr); V::count("shortened transfers", n_short); V::count("broken connections injected", n_broken); V::count("library descriptors tracked", n_fds); }
struct Arm { Fault f; Arm(V::Rng &g, int level) : f(g.u64()) { if (level) { f.cap = g.chance(1, 3) ? 0 : 1 << g.below(15); f.eintr = g.chance(1, 2) ? 0 : 2 + g.below(6); } fault = &f; } ~Arm() { fault = 0; } };
}
#endif
