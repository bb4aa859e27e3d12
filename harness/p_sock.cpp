// C26 sockets over the loopback interface.
#include "vp.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
extern "C" {
#include "vita/network/sockets.h"
}
using namespace vp;
typedef std::string S;
namespace vp { int worker_index(); extern volatile unsigned g_sock_fail, g_sock_hit; extern volatile bool g_sock_virtual; extern volatile double g_sock_skipped; }

static double ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec * 1e-6; }
static std::set<int> open_fds() { std::set<int> r; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) r.insert(i); return r; }
static uint16_t port_of(int fd) { sockaddr_in a; socklen_t n = sizeof a; memset(&a, 0, sizeof a); if (getsockname(fd, (sockaddr *)&a, &n)) return 0; return ntohs(a.sin_port); }
static void drop(int fd) { linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }         // no TIME_WAIT
static bool is_fd(vt_socket_t f) { return f >= 0 && fcntl((int)f, F_GETFD) >= 0; }
static bool can_bind(int type, int port) { int f = socket(AF_INET, type, 0); int one = 1; setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); bool ok = bind(f, (sockaddr *)&a, sizeof a) == 0; if (ok && type == SOCK_STREAM) ok = listen(f, 1) == 0; close(f); return ok; }
// a port nobody uses: below the range the system picks from, a stretch of its own per worker (workers must not meet)
static int free_port(int type) { static int turn = (int)(getpid() % 300); for (int i = 0; i < 300; i++) { int p = 12000 + worker_index() % 64 * 300 + turn++ % 300; if (can_bind(type, p)) return p; } return 0; }
static const char *loop_name(Src &s) { static const char *n[] = {"127.0.0.1", "127.0.0.1", "127.0.0.2", "127.200.3.4"}; return n[s.n(3)]; }

// exactly sized receive buffer: a write beyond it is seen by the sanitizer
struct Buf { char *p; size_t n; Buf(size_t k) : p((char *)malloc(k ? k : 1)), n(k) { static unsigned turn; static const unsigned char fills[] = {0x5A, 0, 0x5A, 0xFF}; fill = (char)fills[turn++ % 4]; memset(p, fill, k ? k : 1); } char fill; ~Buf() { free(p); } void tail(size_t from) { for (size_t i = from; i < n; i++) CHECK(p[i] == fill, "the byte at %zu of the buffer changed, only %zu were received", i, from); } };

static void fail_start(Src &s) {                                          // every step of starting up fails once
    auto before = open_fds(); int type = s.coin() ? SOCK_DGRAM : SOCK_STREAM; unsigned bit = 1u << s.n(5); vt_socket_t r; g_sock_hit = 0; const char *what = "";
    int port = free_port(type);
    switch (bit) {
        case 16: what = "connect"; g_sock_fail = bit; r = vt_socket_startup_client((enum VitaSocketType)type, vt_socket_make_address((int16_t)port, "127.0.0.1")); break;
        case 32: { what = "accept"; vt_socket_t l = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 4); if (l < 0) return; int cl = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port_of((int)l)); a.sin_addr.s_addr = htonl(0x7f000001); if (connect(cl, (sockaddr *)&a, sizeof a)) { close(cl); close((int)l); return; } drop(cl);     // (somebody waits: a call that does not fail does not block)
            g_sock_fail = bit; r = vt_socket_accept_client(l); g_sock_fail = 0; close(cl); CHECK(vt_socket_close(l), "closing a server reports failure"); break; }
        default:
            what = bit == 1 ? "socket" : bit == 2 ? "setsockopt" : bit == 4 ? "bind" : "listen"; if (bit == 8) type = SOCK_STREAM;
            g_sock_fail = bit; r = bit == 1 && s.coin() ? vt_socket_startup_client((enum VitaSocketType)type, vt_socket_make_address((int16_t)port, "127.0.0.1")) : vt_socket_startup_server((enum VitaSocketType)type, s.coin() ? 0 : port, 4);
    }
    g_sock_fail = 0; VPLOG("%s fails while starting: result %lld", what, (long long)r);
    if (!g_sock_hit) { if (is_fd(r)) close((int)r); return; }             // the call was not made: nothing failed
    CHECK(r < 0, "%s failed but the handle %lld looks valid", what, (long long)r);
    CHECK(open_fds() == before, "a descriptor stays open after %s failed", what);
    label(what); nontrivial();
}
static void fail_natural(Src &s) {
    auto before = open_fds(); size_t k = s.n(8);
    if (k == 0) {                                                         // nobody listens
        int port = free_port(SOCK_STREAM); vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address((int16_t)port, "127.0.0.1"));
        if (c >= 0) { drop((int)c); close((int)c); return; }              // somebody took the port meanwhile
        CHECK(open_fds() == before, "a descriptor stays open after a refused connection"); label("refused");
    } else if (k == 1) {                                                  // port taken
        vt_socket_t a = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 4); CHECK(is_fd(a), "starting a server on a free port fails: %lld", (long long)a);
        auto mid = open_fds(); vt_socket_t b = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port_of((int)a), 4);
        CHECK(b < 0, "a second server on port %u got handle %lld", port_of((int)a), (long long)b); CHECK(open_fds() == mid, "a descriptor stays open after a failed bind");
        CHECK(vt_socket_close(a), "close reports failure"); label("port taken");
    } else if (k == 2) {                                                  // dead descriptors
        int dead = dup(2); close(dead); Buf b(1 + s.n(20)); VitaSocketAddress ad = {0, 0}; uint32_t t = (uint32_t)s.n(4); double t0 = ms();
        CHECK(vt_socket_receive(dead, b.p, b.n) < 0, "receiving on a closed descriptor reports success"); CHECK(vt_socket_send(dead, b.p, b.n) < 0, "sending on a closed descriptor reports success");
        CHECK(vt_socket_receive_from(dead, &ad, b.p, b.n) < 0, "receive_from on a closed descriptor reports success"); CHECK(vt_socket_send_to(dead, vt_socket_make_address(9, "127.0.0.1"), b.p, b.n) < 0, "send_to on a closed descriptor reports success");
        CHECK(!vt_socket_close(dead), "closing a closed descriptor reports success"); CHECK(vt_socket_accept_client(dead) < 0, "accept on a closed descriptor reports success");
        t0 = ms(); int32_t r = vt_socket_receive_timed(dead, b.p, b.n, t + 20); CHECK(r < 0 || (r == 0 && ms() - t0 >= t + 19), "a timed receive on a closed descriptor gives %d at once", r);
        t0 = ms(); r = vt_socket_receive_timed_from(dead, &ad, b.p, b.n, t + 20); CHECK(r < 0 || (r == 0 && ms() - t0 >= t + 19), "a timed receive_from on a closed descriptor gives %d at once", r);
        b.tail(0); label("dead descriptor");
    } else if (k == 3) {                                                  // poll fails
        Buf b(4); int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return; if (write(sv[0], "x", 1) != 1) {}
        VitaSocketAddress ad = {0, 0}; pollfd pf = {sv[1], POLLIN, 0}; g_sock_fail = 64; bool ha, hc, hd;
        g_sock_hit = 0; int32_t a = vt_socket_poll(&pf, 1, 5); ha = g_sock_hit; g_sock_hit = 0; int32_t c = vt_socket_receive_timed(sv[1], b.p, 1, 5); hc = g_sock_hit; if (!hc && write(sv[0], "x", 1) != 1) {} g_sock_hit = 0; int32_t d = vt_socket_receive_timed_from(sv[1], &ad, b.p, 1, 5); hd = g_sock_hit; g_sock_fail = 0;
        if (!hc || !hd) b.p[0] = b.fill;                                    // (the call was not made: data was received)
        CHECK((a < 0 || !ha) && (c < 0 || !hc) && (d < 0 || !hd), "poll failed, the results are %d %d %d", a, c, d); b.tail(0); close(sv[0]); close(sv[1]); label("poll fails");
    } else if (k == 4) {                                                  // a UDP peer that is not there
        int port = free_port(SOCK_DGRAM); vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, vt_socket_make_address((int16_t)port, "127.0.0.1")); CHECK(is_fd(c), "starting a UDP client fails");
        vt_socket_send(c, "hi", 2); Buf b(8); uint32_t t = 20 + (uint32_t)s.n(20); double t0 = ms(); int32_t r = vt_socket_receive_timed(c, b.p, b.n, t);
        CHECK(r < 0 || (r == 0 && ms() - t0 >= t - 1), "a timed receive of %u ms gives %d after %.1f ms although the peer refused", t, r, ms() - t0);
        b.tail(0); close((int)c); label("UDP refused");
    } else if (k == 5) {                                                  // the peer resets the connection
        vt_socket_t l = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 4); CHECK(is_fd(l), "starting a server fails"); vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address((int16_t)port_of((int)l), "127.0.0.1")); CHECK(is_fd(c), "connecting fails"); vt_socket_t a = vt_socket_accept_client(l); CHECK(is_fd(a), "accepting fails");
        drop((int)a); close((int)a); pollfd pf = {(int)c, POLLIN, 0}; poll(&pf, 1, 1000); Buf b(8); int32_t r;
        if (s.coin()) { r = vt_socket_receive_timed(c, b.p, b.n, 500); } else r = vt_socket_receive(c, b.p, b.n);
        CHECK(r < 0, "receiving on a reset connection gives %d", r); b.tail(0); close((int)c); close((int)l); label("reset");
    } else if (k == 6) {                                                  // sending after the peer is gone must not end the program
        vt_socket_t l = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 4); CHECK(is_fd(l), "starting a server fails"); vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address((int16_t)port_of((int)l), "127.0.0.1")); CHECK(is_fd(c), "connecting fails"); vt_socket_t a = vt_socket_accept_client(l); CHECK(is_fd(a), "accepting fails");
        drop((int)a); close((int)a); int32_t last = 0; bool to = s.coin(); VitaSocketAddress peer = vt_socket_make_address((int16_t)port_of((int)l), "127.0.0.1");
        for (int i = 0; i < 50 && last >= 0; i++) { last = to ? vt_socket_send_to(c, peer, "abc", 3) : vt_socket_send(c, "abc", 3); if (last >= 0) usleep(1000); }
        if (last >= 0) { sleep(1); last = vt_socket_send(c, "abc", 3); }
        int32_t again = to ? vt_socket_send_to(c, peer, "abc", 3) : vt_socket_send(c, "abc", 3);
        CHECK(last < 0 && again < 0, "sending to a peer that closed reports success (%d, %d)", last, again); close((int)c); close((int)l); label("peer gone");
    } else if (k == 8) {                                                  // a server starts again on its port right after closing its connections
        vt_socket_t again = -1;
        for (int i = 0; i < 6 && again < 0; i++) {                        // (somebody else may take one port meanwhile, not six)
            vt_socket_t l = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, 0, 4); CHECK(is_fd(l), "starting a server fails"); int port = port_of((int)l); vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address((int16_t)port, "127.0.0.1")); CHECK(is_fd(c), "connecting fails"); vt_socket_t a = vt_socket_accept_client(l); CHECK(is_fd(a), "accepting fails");
            CHECK(vt_socket_close(a), "close reports failure"); Buf b(4); CHECK(vt_socket_receive(c, b.p, b.n) == 0, "receiving after the server closed does not give 0"); CHECK(vt_socket_close(c) && vt_socket_close(l), "close reports failure"); usleep(200u << i);
            again = vt_socket_startup_server(VT_SOCKET_TYPE_TCP, port, 4); }
        CHECK(is_fd(again), "a server cannot be started again on the port it just left: %lld", (long long)again); CHECK(vt_socket_close(again), "close reports failure"); label("restart");
    } else {                                                              // accept on a socket that does not listen
        vt_socket_t u = vt_socket_startup_server(VT_SOCKET_TYPE_UDP, 0, 4); CHECK(is_fd(u), "starting a UDP server fails"); CHECK(vt_socket_accept_client(u) < 0, "accept on a UDP socket reports success"); CHECK(vt_socket_close(u), "close reports failure"); label("accept on UDP");
    }
    CHECK(open_fds() == before, "a descriptor stays open after failures"); nontrivial();
}
static vt_socket_t start_server(Src &s, enum VitaSocketType t, int &port, int *queue = nullptr) {
    vt_socket_t l; int want = s.coin() ? free_port(t) : 0, backlog = 1 + (int)s.n(8);
    l = vt_socket_startup_server(t, want, backlog); if (queue) *queue = l < 0 ? 4 : backlog;
    if (l < 0 && want) { for (int i = 0; i < 8 && l < 0; i++) { want = free_port(t); bool free_now = can_bind(t, want); l = vt_socket_startup_server(t, want, 4); if (!free_now) continue; } }
    CHECK(is_fd(l), "starting a server on %s port fails: %lld", want ? "a given" : "any", (long long)l);
    port = port_of((int)l); if (want) CHECK(port == want, "the server for port %d listens on %d", want, port);
    int ty = 0; socklen_t n = sizeof ty; getsockopt((int)l, SOL_SOCKET, SO_TYPE, &ty, &n); CHECK(ty == (int)t, "the server has type %d, asked for %d", ty, (int)t);
    return l;
}
static bool g_zero_later;                                                 // descriptor 0 becomes free only just before a connection is accepted
// the same socket under a number beyond what the old descriptor sets could hold
static void lift(Src &s, vt_socket_t &f) {
    if (!s.chance(1, 12)) return;
    rlimit l; if (getrlimit(RLIMIT_NOFILE, &l)) return; if (l.rlim_cur < 4096) { l.rlim_cur = std::min<rlim_t>(l.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &l); }
    int h = fcntl((int)f, F_DUPFD, 1000 + (int)s.n(900)); if (h < 0) return; close((int)f); f = h; VPLOG("descriptor %d", h); label("high descriptor");
}
static void expect_quiet(Src &s, vt_socket_t fd, bool from) {            // nothing to receive: zero after the given time
    Buf b(1 + (s.chance(1, 6) ? s.n(5000) : s.n(30))); static const uint32_t T[] = {0, 0, 1, 3, 12}; uint32_t t = T[s.n(4)]; if (s.chance(1, 30)) { t = (uint32_t)s.n(3000); g_sock_virtual = true; g_sock_skipped = 0; } VitaSocketAddress ad = {0, 0}; double t0 = ms();
    int32_t r = from ? vt_socket_receive_timed_from(fd, &ad, b.p, b.n, t) : vt_socket_receive_timed(fd, b.p, b.n, t); double el = ms() - t0; if (g_sock_virtual) { el += g_sock_skipped; g_sock_virtual = false; }
    VPLOG("timed receive of %u ms with nothing there: %d", t, r);
    CHECK(r == 0, "a timed receive with nothing there gives %d", r); CHECK(el + 1 >= t, "a timed receive of %u ms gave up after %.2f ms", t, el); CHECK(el < t + 4000, "a timed receive of %u ms took %.0f ms", t, el); b.tail(0); label("timeout");
}
static void check_poll(Src &s, const std::vector<std::pair<int, bool>> &v) {   // descriptors and whether there is something to read
    std::vector<pollfd> p; int expect = 0; std::vector<short> want;
    for (auto &f : v) { if (s.chance(1, 5)) continue; short ev = (short)((s.chance(4, 5) ? POLLIN : 0) | (s.chance(1, 3) ? POLLOUT : 0)); int lis = 0; socklen_t ln = sizeof lis; getsockopt(f.first, SOL_SOCKET, SO_ACCEPTCONN, &lis, &ln); if (lis) ev &= ~POLLOUT; p.push_back({f.first, ev, 0}); short w = (short)(((ev & POLLIN) && f.second ? POLLIN : 0) | (ev & POLLOUT)); want.push_back(w); expect += w != 0; }
    if (s.chance(1, 6) && !p.empty()) for (size_t k = s.n(60); k > 0; k--) { size_t j = s.n(p.size() - 1); pollfd e = p[j]; short w = want[j]; if (s.chance(1, 6)) { e.fd = -1; w = 0; } size_t at = s.n(p.size()); p.insert(p.begin() + at, e); want.insert(want.begin() + at, w); expect += w != 0; label("poll with many entries"); }   // one descriptor several times, some to be left out
    uint32_t t = (uint32_t)s.n(3); double t0 = ms(); int32_t r = 0; std::vector<pollfd> q;
    for (int i = 0; i < 400; i++) { q = p; r = vt_socket_poll(q.data(), q.size(), t); bool all = r == expect; for (size_t j = 0; j < q.size(); j++) all = all && q[j].revents == want[j]; if (all) break; usleep(5000); }     // data on the way may need a moment
    VPLOG("poll %zu descriptors: %d ready", p.size(), r);
    CHECK(r == expect, "poll over %zu descriptors reports %d ready, expected %d", p.size(), r, expect);
    for (size_t i = 0; i < q.size(); i++) CHECK(q[i].revents == want[i], "poll entry %zu reports events %d, expected %d", i, q[i].revents, want[i]);
    if (expect == 0 && r == 0) CHECK(ms() - t0 + 1 >= t, "poll gave up early"); label("poll");
}
static void tcp(Src &s) {
    auto before = open_fds(); int port, room; vt_socket_t l = start_server(s, VT_SOCKET_TYPE_TCP, port, &room);
    struct Conn { vt_socket_t f[2]; S q[2]; bool shut[2]; }; std::vector<Conn> cs; size_t total = 0, recvs = 0;
    size_t nc = 1 + s.n(2); bool waiting = s.chance(1, 6); if (waiting) { nc = 1 + s.n((size_t)room - 1); label("connections that wait"); }   // all of them before the first is accepted
    for (size_t i = 0; i < nc; i++) {
        const char *ad = loop_name(s); VitaSocketAddress a = vt_socket_make_address((int16_t)port, ad); Conn c; c.shut[0] = c.shut[1] = false;
        c.f[0] = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, a); CHECK(is_fd(c.f[0]), "connecting to %s:%d fails: %lld", ad, port, (long long)c.f[0]); drop((int)c.f[0]); cs.push_back(c);
        if (waiting && i + 1 < nc) continue;
        for (size_t j = waiting ? 0 : i; j <= i; j++) { Conn &c = cs[j];
        if (g_zero_later && before.count(0)) { close(0); before.erase(0); }
        c.f[1] = vt_socket_accept_client(l); CHECK(is_fd(c.f[1]), "accepting fails"); drop((int)c.f[1]);
        sockaddr_in x; socklen_t n = sizeof x; CHECK(getpeername((int)c.f[1], (sockaddr *)&x, &n) == 0 && ntohs(x.sin_port) == port_of((int)c.f[0]), "the accepted socket is not the client's"); lift(s, c.f[0]); lift(s, c.f[1]); }
    }
    size_t ops = 1 + s.size(20);
    for (size_t o = 0; o < ops; o++) {
        Conn &c = cs[s.n(cs.size() - 1)]; int d = (int)s.n(1); int k = (int)s.n(9); vt_socket_t me = c.f[d]; S &in = c.q[1 - d], &out = c.q[d];
        if (k <= 3 && !c.shut[d] && out.size() < 20000) {
            S z = s.chance(1, 4) ? s.big(s.big_size(20000)) : s.bytes(40); if (s.chance(1, 8)) z += S("\0\n\xff\0", 4);
            std::vector<char> copy(z.begin(), z.end()); int32_t r = s.chance(1, 6) ? vt_socket_send_to(me, vt_socket_make_address((int16_t)port, "127.0.0.1"), copy.data(), copy.size()) : vt_socket_send(me, copy.data(), copy.size());
            VPLOG("connection %ld side %d sends %zu bytes: %d", (long)(&c - cs.data()), d, z.size(), r);
            CHECK(r == (int32_t)z.size(), "sending %zu bytes gives %d", z.size(), r); out += z; total += z.size(); label("send");
        } else if (k <= 7) {
            if (in.empty() && !c.shut[1 - d]) { expect_quiet(s, me, s.coin()); continue; }
            Buf b(1 + (s.chance(1, 20) ? s.n(300000) : s.chance(1, 3) ? s.n(30000) : s.n(60))); double t0 = ms(); int32_t r; int how = (int)s.n(4); VitaSocketAddress ad = {1, 2};
            if (how == 1) r = vt_socket_receive_timed(me, b.p, b.n, 5000); else if (how == 2) r = vt_socket_receive_from(me, &ad, b.p, b.n); else if (how == 3) r = vt_socket_receive_timed_from(me, &ad, b.p, b.n, 5000); else if (how == 4) r = vt_socket_receive_timed(me, b.p, b.n, (uint32_t)-1); else r = vt_socket_receive(me, b.p, b.n);
            VPLOG("connection %ld side %d receives into %zu bytes (way %d): %d", (long)(&c - cs.data()), d, b.n, how, r);
            CHECK(ms() - t0 < 4000, "receiving what is there took %.0f ms", ms() - t0);
            if (in.empty()) { CHECK(r == 0, "receiving after the peer finished gives %d", r); b.tail(0); label("end of stream"); continue; }
            CHECK(r > 0 && (size_t)r <= b.n && (size_t)r <= in.size(), "receiving into %zu bytes with %zu there gives %d", b.n, in.size(), r);
            CHECK(!memcmp(b.p, in.data(), (size_t)r), "the %d bytes received are not the ones sent", r); b.tail((size_t)r); in.erase(0, (size_t)r); recvs++; label("receive");
        } else if (k == 8) { std::vector<std::pair<int, bool>> v; for (auto &x : cs) for (int e = 0; e < 2; e++) if (!x.shut[0] && !x.shut[1]) v.push_back({(int)x.f[e], !x.q[1 - e].empty()}); v.push_back({(int)l, false}); check_poll(s, v); }
        else if (!c.shut[d]) { shutdown((int)me, SHUT_WR); c.shut[d] = true; VPLOG("connection %ld side %d finishes", (long)(&c - cs.data()), d); }
    }
    for (auto &c : cs) for (int d = 0; d < 2; d++) while (!c.q[1 - d].empty()) { Buf b(1 + s.n(9000)); int32_t r = vt_socket_receive(c.f[d], b.p, b.n); CHECK(r > 0 && (size_t)r <= c.q[1 - d].size() && !memcmp(b.p, c.q[1 - d].data(), (size_t)r), "the rest of the stream is not what was sent (%d)", r); b.tail((size_t)r); c.q[1 - d].erase(0, (size_t)r); recvs++; }
    for (auto &c : cs) for (int d = 0; d < 2; d++) CHECK(vt_socket_close(c.f[d]), "closing a connection reports failure");
    CHECK(vt_socket_close(l), "closing the server reports failure"); CHECK(open_fds() == before, "descriptors stay open after everything was closed");
    if (total && recvs >= 2) nontrivial();
}
static void udp(Src &s) {
    auto before = open_fds(); int port; vt_socket_t sv = start_server(s, VT_SOCKET_TYPE_UDP, port);
    struct Peer { vt_socket_t f; std::deque<S> in; VitaSocketAddress addr; bool own; }; std::vector<Peer> ps; std::deque<std::pair<S, size_t>> in; size_t inb = 0, got = 0;
    size_t nc = 1 + s.n(2);
    for (size_t i = 0; i < nc; i++) {
        Peer p; p.own = s.chance(1, 4);
        if (p.own) {                                                      // a peer of ours at another address of this machine
            static const unsigned char at[] = {2, 3, 77}; sockaddr_in o; memset(&o, 0, sizeof o); o.sin_family = AF_INET; o.sin_addr.s_addr = htonl(0x7f000000u + at[s.n(2)]); int f = socket(AF_INET, SOCK_DGRAM, 0); if (f < 0 || bind(f, (sockaddr *)&o, sizeof o)) { if (f >= 0) close(f); p.own = false; } else { p.f = f; label("peer at another address"); } }
        if (!p.own) p.f = vt_socket_startup_client(VT_SOCKET_TYPE_UDP, vt_socket_make_address((int16_t)port, "127.0.0.1")); CHECK(is_fd(p.f), "starting a UDP client fails: %lld", (long long)p.f);
        sockaddr_in a; socklen_t n = sizeof a; getsockname((int)p.f, (sockaddr *)&a, &n); p.addr.port = a.sin_port; p.addr.addr = a.sin_addr.s_addr; lift(s, p.f); ps.push_back(p);
    }
    size_t ops = 1 + s.size(20);
    for (size_t o = 0; o < ops; o++) {
        size_t pi = s.n(ps.size() - 1); Peer &p = ps[pi]; int k = (int)s.n(8); size_t inc = 0; for (auto &z : p.in) inc += z.size() + 800;
        S z = s.chance(1, 6) ? s.big(s.big_size(30000)) : s.bytes(60); if (s.chance(1, 8)) z += S("\0\n\xff\0", 4);
        std::vector<char> copy(z.begin(), z.end()); copy.push_back(0);
        if (k <= 2 && inb < 40000) {
            int32_t r = s.coin() && !p.own ? vt_socket_send(p.f, copy.data(), z.size()) : vt_socket_send_to(p.f, vt_socket_make_address((int16_t)port, "127.0.0.1"), copy.data(), z.size());
            VPLOG("client %zu sends %zu bytes: %d", pi, z.size(), r); CHECK(r == (int32_t)z.size(), "sending a datagram of %zu bytes gives %d", z.size(), r); in.push_back({z, pi}); inb += z.size() + 800; label("client sends");
        } else if (k <= 3 && inc < 40000) {
            int32_t r = vt_socket_send_to(sv, p.addr, copy.data(), z.size()); VPLOG("server sends %zu bytes to client %zu: %d", z.size(), pi, r); CHECK(r == (int32_t)z.size(), "sending a datagram of %zu bytes gives %d", z.size(), r); p.in.push_back(z); label("server sends");
        } else if (k <= 6) {
            if (in.empty()) { expect_quiet(s, sv, s.coin()); continue; }
            S e = in.front().first; size_t who = in.front().second; in.pop_front(); inb -= e.size() + 800;
            size_t n = s.coin() ? e.size() + s.n(20) : 1 + s.n(e.size() + 10); Buf b(n); VitaSocketAddress ad = {1, 2}; int how = (int)s.n(3); double t0 = ms();
            int32_t r = how == 0 ? vt_socket_receive_from(sv, &ad, b.p, n) : how == 1 ? vt_socket_receive_timed_from(sv, &ad, b.p, n, 5000) : how == 2 ? vt_socket_receive(sv, b.p, n) : vt_socket_receive_timed(sv, b.p, n, 5000);
            VPLOG("server receives into %zu bytes (way %d): %d", n, how, r); CHECK(ms() - t0 < 4000, "receiving what is there took %.0f ms", ms() - t0);
            size_t m = std::min(n, e.size()); CHECK(r == (int32_t)m, "receiving a datagram of %zu bytes into %zu gives %d", e.size(), n, r); CHECK(!memcmp(b.p, e.data(), m), "the datagram received is not the one sent"); b.tail(m);
            if (how <= 1) CHECK(ad.port == ps[who].addr.port && ad.addr == ps[who].addr.addr, "a datagram of client %zu is reported to come from %08x:%u", who, ad.addr, ntohs(ad.port));
            got++; label("server receives");
        } else if (k == 7) {
            if (p.in.empty()) { expect_quiet(s, p.f, s.coin()); continue; }
            S e = p.in.front(); p.in.pop_front(); size_t n = s.coin() ? e.size() + s.n(20) : 1 + s.n(e.size() + 10); Buf b(n); int32_t r = s.coin() ? vt_socket_receive(p.f, b.p, n) : vt_socket_receive_timed(p.f, b.p, n, 5000); size_t m = std::min(n, e.size());
            VPLOG("client %zu receives into %zu bytes: %d", pi, n, r);
            CHECK(r == (int32_t)m && !memcmp(b.p, e.data(), m), "the datagram received (%d) is not the one sent (%zu into %zu)", r, e.size(), n); b.tail(m); got++; label("client receives");
        } else { std::vector<std::pair<int, bool>> v; v.push_back({(int)sv, !in.empty()}); for (auto &x : ps) v.push_back({(int)x.f, !x.in.empty()}); check_poll(s, v); }
    }
    for (auto &p : ps) CHECK(vt_socket_close(p.f), "close reports failure");
    CHECK(vt_socket_close(sv), "close reports failure"); CHECK(open_fds() == before, "descriptors stay open after everything was closed");
    if (got >= 2) nontrivial();
}
struct Sender { vt_socket_t f; const S *data; size_t chunk; bool ok; };
static void *sender(void *v) { Sender *x = (Sender *)v; size_t o = 0; x->ok = true; while (o < x->data->size()) { size_t n = std::min(x->chunk, x->data->size() - o); int32_t r = vt_socket_send(x->f, x->data->data() + o, n); if (r <= 0 || (size_t)r > n) { x->ok = false; break; } o += (size_t)r; } shutdown((int)x->f, SHUT_WR); return nullptr; }
static void stream(Src &s) {                                              // more than the buffers of the system hold, both ends at work
    int port; vt_socket_t l = start_server(s, VT_SOCKET_TYPE_TCP, port); vt_socket_t c = vt_socket_startup_client(VT_SOCKET_TYPE_TCP, vt_socket_make_address((int16_t)port, "127.0.0.1")); CHECK(is_fd(c), "connecting fails"); vt_socket_t a = vt_socket_accept_client(l); CHECK(is_fd(a), "accepting fails"); drop((int)c); drop((int)a);
    bool slow = s.chance(1, 6); S data = s.big((slow ? 14000000 : 100000) + s.n(3000000)); Sender x = {c, &data, 1 + s.n(s.coin() ? 5000 : 4000000), false}; if (x.chunk < 500) x.chunk = 500; pthread_t t; S got;
    size_t n = 1000 + s.n(200000); int how = (int)s.n(2); VPLOG("stream of %zu bytes in pieces of %zu, received in pieces of %zu (way %d)", data.size(), x.chunk, n, how); pthread_create(&t, nullptr, sender, &x); VitaSocketAddress ad; if (slow) { usleep(30000); label("the sender waits for room"); }     // by now the buffers of the system are full
    std::vector<char> b(n); int32_t r;
    while ((r = how == 0 ? vt_socket_receive(a, b.data(), n) : how == 1 ? vt_socket_receive_timed(a, b.data(), n, 20000) : vt_socket_receive_from(a, &ad, b.data(), n)) > 0) { CHECK((size_t)r <= n, "received %d bytes into %zu", r, n); got.append(b.data(), (size_t)r); }
    if (r < 0) shutdown((int)a, SHUT_RD); pthread_join(t, nullptr);
    CHECK(r == 0, "receiving a stream ends with %d", r); CHECK(x.ok, "sending a stream fails"); CHECK(got == data, "%zu bytes were sent, %zu received%s", data.size(), got.size(), got.size() == data.size() ? " with different content" : "");
    close((int)c); close((int)a); close((int)l); nontrivial(); label("stream");
}
struct Late { vt_socket_t f; S z; unsigned us; };
static void *late(void *v) { Late *x = (Late *)v; usleep(x->us); vt_socket_send(x->f, x->z.data(), x->z.size()); return nullptr; }
static void arriving(Src &s) {                                            // the data arrives while the receiver waits
    enum VitaSocketType ty = s.coin() ? VT_SOCKET_TYPE_UDP : VT_SOCKET_TYPE_TCP; int port; vt_socket_t l = start_server(s, ty, port); vt_socket_t c = vt_socket_startup_client(ty, vt_socket_make_address((int16_t)port, "127.0.0.1")); CHECK(is_fd(c), "connecting fails");
    vt_socket_t a = ty == VT_SOCKET_TYPE_TCP ? vt_socket_accept_client(l) : l; CHECK(is_fd(a), "accepting fails"); if (a != l) { drop((int)a); drop((int)c); }
    Late x = {c, s.bytes(30) + "x", (unsigned)s.n(15000)}; pthread_t t; Buf b(100); VitaSocketAddress ad = {0, 0}; int how = (int)s.n(2); pthread_create(&t, nullptr, late, &x); double t0 = ms();
    int32_t r = 0; pollfd pf = {(int)a, POLLIN, 0};
    if (how == 0) r = vt_socket_receive_timed(a, b.p, b.n, 8000); else if (how == 1) r = vt_socket_receive_timed_from(a, &ad, b.p, b.n, 8000); else { int32_t k = vt_socket_poll(&pf, 1, 8000); CHECK(k == 1 && (pf.revents & POLLIN), "poll did not see the data arrive (%d)", k); r = vt_socket_receive(a, b.p, b.n); }
    double el = ms() - t0; pthread_join(t, nullptr);
    VPLOG("data arrives after %u us, way %d: %d", x.us, how, r);
    CHECK(r == (int32_t)x.z.size() && !memcmp(b.p, x.z.data(), x.z.size()), "the receiver got %d bytes, sent were %zu", r, x.z.size()); CHECK(el < 6000, "the receiver slept on (%.0f ms)", el); b.tail((size_t)r);
    close((int)c); if (a != l) close((int)a); close((int)l); nontrivial(); label("arriving");
}
static void address(Src &s) {
    int p = (int)s.n(65535); unsigned q[4]; for (auto &x : q) x = (unsigned)s.n(255); if (q[0] == 255) q[0] = 10; char z[32]; snprintf(z, sizeof z, "%u.%u.%u.%u", q[0], q[1], q[2], q[3]);
    VitaSocketAddress a = vt_socket_make_address((int16_t)p, z); VPLOG("address %s:%d", z, p);
    CHECK(ntohs(a.port) == p && ntohl(a.addr) == (q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]), "the address %s:%d becomes %08x:%u", z, p, ntohl(a.addr), ntohs(a.port)); label("address");
}
static void c26(Src &s) {
    g_sock_fail = 0; g_sock_virtual = false; signal(SIGPIPE, SIG_DFL); CHECK(vt_socket_init(), "init fails");
    bool no_stdin = s.chance(1, 8); g_zero_later = no_stdin && s.coin(); if (no_stdin) { if (!g_zero_later) close(0); label("descriptor 0 is free"); VPLOG("descriptor 0 is free%s", g_zero_later ? " before the first connection is accepted" : ""); }
    switch (s.n(19)) { case 0: fail_start(s); break; case 1: case 2: fail_natural(s); break; case 3: address(s); break; case 4: if (s.chance(1, 4)) stream(s); else tcp(s); break; case 5: arriving(s); break; case 6: case 7: case 8: case 9: case 10: udp(s); break; default: tcp(s); }
    CHECK(vt_socket_quit(), "quit fails");
    if (no_stdin && fcntl(0, F_GETFD) < 0) { int f = open("/dev/null", O_RDONLY); if (f > 0) { dup2(f, 0); close(f); } }
}
PROP("C26", c26, 20000, 150000, F_WALL | F_NOFUZZ, "Random conversations over TCP (up to three connections, both directions) and UDP (up to three clients) on the loopback interface: sends of 0-30000 bytes, receives by all four functions into exactly sized buffers, timed receives with and without data, data arriving during the wait, polling, ends of stream, streams of up to 17 MB between two threads (some with a late receiver); plus every start-up step failing, refused, reset and closed peers, dead descriptors. Oracle: a model of the bytes in flight, the clock, and the set of open descriptors. Non-trivial: at least two receives with data, or a failure path.");
