// Simulated sockets (Linux semantics, validated against the real kernel by
// conform.cc) plus scripted remote peers.
#include "sim.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace mc {

enum { ST_FRESH, ST_BOUND, ST_LISTEN, ST_CONNECTING, ST_CONN };

struct Sock {
	int type = 0; // 1 tcp 2 udp
	bool sut = false;
	int fd = -1;
	int st = ST_FRESH;
	u32 laddr = 0, raddr = 0; // network order
	u16 lport = 0, rport = 0;
	bool v6 = false;
	u8 r6[16];
	bool reuse = false, bound = false;
	Obj o, rx;
	std::deque<Sock *> acceptq;
	bool lshut = false;
	Sock *peer = nullptr;
	Fiber *accepted_by = nullptr;
	u32 accepted_ops = 0;
	Bytes rbuf;
	size_t rpos = 0;
	bool fin = false;
	int err = 0;
	bool dead = false; // reset / aborted: nothing more can be exchanged
	bool shut_rd = false, shut_wr = false, fin_sent = false, closed = false;
	bool rst_seen = false;
	u64 rcvtimeo = 0, sndtimeo = 0;
	bool nonblock = false;
	bool six = false; // an IPv6 socket
	bool ka = false;  // keepalive, with Linux's defaults
	int ka_idle = 7200, ka_intvl = 75, ka_cnt = 9;
	bool active_close = false;
	u64 lingers = 0; // TIME_WAIT
	bool vanished = false, retransmits = false;
	std::deque<Dgram> dq;
	size_t avail() const { return rbuf.size() - rpos; }
	bool over() const { return dead || (fin && fin_sent); } // both directions ended
};

NetCfg NC;
std::function<void(u32, u16, int, int)> *mon_udp_bind;
std::function<void(int, const char *)> *mon_fd_created;

struct Net {
	std::map<int, Sock *> fds;
	std::set<int> closed_fds;
	int next_fd = 3;
	std::set<int> nulls; // descriptors of the null device
	std::vector<Sock *> all;
	std::map<std::pair<u32, u16>, int> modes; // connect modes
	std::vector<Dgram> sent;
	std::vector<ConnectRec> connects;
	u16 eph = 40000;
	std::map<u16, Obj> ports;
	int nsock = 0;
	size_t tidy = 600;
};
static Net *N;

void sim_net_init()
{
	N = new Net();
	NC = NetCfg();
	mon_udp_bind = nullptr;
	mon_fd_created = nullptr;
}

u32 ip(const char *d)
{
	u32 a = 0;
	inet_pton(AF_INET, d, &a);
	return a;
}
std::string ipstr(u32 a)
{
	char b[32];
	inet_ntop(AF_INET, &a, b, sizeof b);
	return b;
}

static Sock *new_sock(int type, bool sut)
{
	Sock *s = new Sock();
	s->type = type;
	s->sut = sut;
	u64 id = mix(self() ? self()->h : 0, 0x50c4 + (self() ? self()->nobj++ : 0));
	s->o.h = id;
	s->rx.h = id + 1;
	if (N->all.size() >= N->tidy) { // those which cannot have an effect any more
		auto over = [](Sock *q) {
			if (q->type == 1 && !q->sut)
				return q->st == ST_CONN;
			return q->closed && (q->type == 2 || !q->peer || q->dead || q->lport >= 40000 || (q->fin && q->fin_sent && q->lingers <= vnow()));
		};
		N->all.erase(std::remove_if(N->all.begin(), N->all.end(), over), N->all.end());
		N->tidy = std::max<size_t>(600, 2 * N->all.size());
	}
	N->all.push_back(s);
	return s;
}

int live_socks() { return (int)N->fds.size(); }
std::string describe_live_socks()
{
	std::string r;
	for (auto &p : N->fds) {
		char b[96];
		snprintf(b, sizeof b, "%sfd %d (%s%s local %s:%u)", r.empty() ? "" : ", ", p.first,
			 p.second->type == 1 ? "tcp" : "udp", p.second->st == ST_LISTEN ? " listening" : "",
			 ipstr(p.second->laddr).c_str(), p.second->lport);
		r += b;
	}
	return r;
}

OpenInfo sut_open()
{
	OpenInfo i = { 0, 0, 0, 0, 0 };
	for (auto &p : N->fds) {
		Sock *s = p.second;
		if (s->type == 2)
			i.udp++;
		else if (s->st == ST_LISTEN)
			i.tcp_listen++;
		else if (s->st == ST_CONN)
			i.tcp_conn++;
		else if (s->st == ST_CONNECTING)
			i.tcp_connecting++;
		else
			i.other++;
	}
	return i;
}

int udp_bound_count(u32 a, u16 port)
{
	int n = 0;
	for (auto &p : N->fds)
		if (p.second->type == 2 && p.second->bound && p.second->laddr == a && p.second->lport == port)
			n++;
	return n;
}
std::vector<std::pair<u32, u16>> udp_bound()
{
	std::vector<std::pair<u32, u16>> v;
	for (auto &p : N->fds)
		if (p.second->type == 2 && p.second->bound)
			v.push_back({ p.second->laddr, p.second->lport });
	return v;
}
int tcp_listener_count(u16 port)
{
	int n = 0;
	for (auto &p : N->fds)
		if (p.second->st == ST_LISTEN && p.second->lport == port && !p.second->lshut)
			n++;
	return n;
}
std::vector<Dgram> &udp_sent() { return N->sent; }
std::vector<ConnectRec> &tcp_connects() { return N->connects; }
u16 sock_lport(Sock *s) { return s->lport; }
u32 sock_laddr(Sock *s) { return s->laddr; }
u32 sock_raddr(Sock *s) { return s->raddr; }
u16 sock_rport(Sock *s) { return s->rport; }

static Obj &portobj(u16 p) { return N->ports[p]; }

static Sock *get(int fd, const char *what)
{
	auto it = N->fds.find(fd);
	if (it == N->fds.end()) {
		if (N->closed_fds.count(fd))
			fail("closed-fd", "%s on file descriptor %d, which was already closed", what, fd);
		errno = EBADF;
		return nullptr;
	}
	return it->second;
}

// The standard descriptors are taken by others once closed.
static int lowest_fd()
{
	for (int i = 0; i < 3; i++)
		if ((SS->proc.closed_std >> i & 1) && !N->fds.count(i))
			return i;
	return N->next_fd++;
}
bool fd_is_socket(int fd) { return N->fds.count(fd) != 0; }
void net_new_process() { N->nulls.clear(); }
bool fd_is_null(int fd) { return N->nulls.count(fd) != 0; }
static int add_fd(Sock *s)
{
	// never reuse a number: use of a stale descriptor is always detected
	int fd = lowest_fd();
	s->fd = fd;
	s->sut = true;
	N->fds[fd] = s;
	return fd;
}

static Sock *find_listener(u32 a, u16 port)
{
	Sock *w = nullptr;
	for (auto s : N->all)
		if (s->st == ST_LISTEN && !s->closed && !s->lshut && s->lport == port) {
			if (s->laddr == a)
				return s;
			if (s->laddr == 0)
				w = s;
		}
	return w;
}

static void do_reset(Sock *victim)
{
	// the victim receives a RST
	victim->lingers = 0;
	if (victim->closed || victim->dead)
		return;
	victim->dead = true;
	victim->rst_seen = true;
	victim->err = victim->fin ? EPIPE : ECONNRESET;
	touch(victim->rx, 0x257);
}

// connect s (owner side) to listener l
static Sock *establish(Sock *s, Sock *l, u32 to, u16 port)
{
	Sock *p = new_sock(1, l->sut);
	p->st = ST_CONN;
	p->laddr = to;
	p->lport = port;
	p->raddr = s->laddr;
	p->rport = s->lport;
	p->peer = s;
	p->bound = true;
	p->reuse = l->reuse;
	p->ka = l->ka;
	p->ka_idle = l->ka_idle;
	p->ka_intvl = l->ka_intvl;
	p->ka_cnt = l->ka_cnt;
	s->peer = p;
	s->st = ST_CONN;
	s->raddr = to;
	s->rport = port;
	l->acceptq.push_back(p);
	touch(l->o, 0xc0);
	return p;
}

// core receive; s connected.  returns n, 0 or -errno
static bool rx_ready(void *a)
{
	Sock *s = (Sock *)a;
	if (s->type == 2)
		return !s->dq.empty() || s->shut_rd;
	return s->avail() > 0 || s->fin || s->err || s->shut_rd || s->dead;
}
static bool tx_ready(void *a)
{
	Sock *s = (Sock *)a;
	return s->shut_wr || s->err || s->dead || !s->peer || s->peer->closed || s->peer->avail() < NC.capacity;
}

static ssize_t tcp_take(Sock *s, char *b, size_t n, bool peek)
{
	touch(s->rx, 0x12);
	if (s->avail() > 0) {
		size_t k = std::min(n, s->avail());
		memcpy(b, s->rbuf.data() + s->rpos, k);
		if (!peek) {
			s->rpos += k;
			if (s->rpos == s->rbuf.size()) {
				s->rbuf.clear();
				s->rpos = 0;
			}
		}
		absorb(k);
		return k;
	}
	if (s->err) {
		int e = s->err;
		s->err = 0;
		if (e == EPIPE && s->fin)
			return 0;
		return -e;
	}
	return 0; // fin, local shutdown or dead
}

// What the network does on its own after a while: the other end does not answer.
static void gives_up(Sock *s, u64 sec)
{
	spawn("network", FK_PEER, [s, sec] {
		vsleep(sec * 1000000000ull);
		if (s->closed || s->dead)
			return;
		s->dead = true;
		s->err = ETIMEDOUT;
		touch(s->rx, 0x258);
	});
}

// The other host disappears from the network: it neither sends nor acknowledges anything any more.
void peer_vanish(Sock *s)
{
	touch(s->rx, 0x259);
	s->vanished = true;
	if (s->peer && s->peer->ka)
		gives_up(s->peer, s->peer->ka_idle + s->peer->ka_intvl * s->peer->ka_cnt);
}

// returns bytes queued (k>0) or -errno; call only when tx_ready
static ssize_t tcp_put(Sock *s, const char *b, size_t n)
{
	if (s->peer)
		touch(s->peer->rx, 0x34);
	touch(s->rx, 0x35);
	if (s->err) {
		int e = s->err;
		s->err = 0;
		return -e;
	}
	if (s->shut_wr || s->dead || !s->peer)
		return -EPIPE;
	Sock *p = s->peer;
	if (p->closed || (p->shut_rd && p->fin_sent)) {
		// data is lost, the other end answers with a reset
		do_reset(s);
		p->lingers = 0;
		if (!p->closed)
			do_reset(p);
		return n;
	}
	size_t k = std::min(n, NC.capacity - p->avail());
	p->rbuf.append(b, k);
	if (p->vanished && !s->retransmits) {
		s->retransmits = true;
		gives_up(s, 924);
	}
	return k;
}

static void send_fin(Sock *s)
{
	s->shut_wr = true;
	if (s->fin_sent)
		return;
	s->fin_sent = true;
	s->active_close = !s->fin;
	if (s->peer && !s->dead) {
		s->peer->fin = true;
		if (s->fin && s->peer->active_close)
			s->peer->lingers = vnow() + 60000000000ull;
		touch(s->peer->rx, 0x56);
	}
}

static void sock_shutdown(Sock *s, int how)
{
	touch(s->o, 0x77);
	touch(s->rx, 0x78);
	if (s->type == 1 && s->st == ST_LISTEN) {
		if (how == SHUT_WR)
			return;
		touch(portobj(s->lport), 0x79);
		s->lshut = true;
		s->st = ST_BOUND;
		for (auto p : s->acceptq) {
			if (p->peer)
				do_reset(p->peer);
			p->dead = true;
		}
		s->acceptq.clear();
		return;
	}
	if (how != SHUT_WR)
		s->shut_rd = true;
	if (how != SHUT_RD) {
		if (s->type == 1 && s->st == ST_CONN)
			send_fin(s);
		s->shut_wr = true;
	}
	if (s->st == ST_CONNECTING) {
		s->err = ECONNRESET;
		s->dead = true;
	}
}

static void sock_close(Sock *s)
{
	touch(s->o, 0x99);
	touch(s->rx, 0x9a);
	if (s->st == ST_LISTEN) {
		touch(portobj(s->lport), 0x9c);
		for (auto p : s->acceptq) {
			if (p->peer)
				do_reset(p->peer);
			p->dead = true;
		}
		s->acceptq.clear();
	} else if (s->type == 1 && s->st == ST_CONN && s->peer && !s->dead) {
		if (s->avail() > 0) {
			do_reset(s->peer);
			s->shut_wr = true;
		} else {
			send_fin(s);
			if (s->active_close) {
				s->lingers = vnow() + 60000000000ull;
				touch(portobj(s->lport), 0x9d);
			}
		}
	}
	if (s->type == 2 && s->bound) {
		touch(portobj(s->lport), 0x9b);
	}
	s->closed = true;
}

// ------------------------------------------------------------------- peers --
void peer_mode(const char *a, u16 port, ConnectMode m) { N->modes[{ ip(a), port }] = m + 1; }

Sock *peer_connect(const char *from, u16 fport, const char *to, u16 port)
{
	point("peer_connect");
	Sock *l = find_listener(ip(to), port);
	touch(portobj(port), 0xa1);
	if (!l) {
		absorb(0xdead);
		return nullptr;
	}
	Sock *s = new_sock(1, false);
	if (strchr(from, ':')) {
		s->v6 = true;
		inet_pton(AF_INET6, from, s->r6);
	} else
		s->laddr = ip(from);
	s->lport = fport;
	Sock *p = establish(s, l, ip(to), port);
	p->v6 = s->v6;
	memcpy(p->r6, s->r6, 16);
	return s;
}

Sock *peer_listen(const char *a, u16 port)
{
	Sock *s = new_sock(1, false);
	s->laddr = ip(a);
	s->lport = port;
	s->st = ST_LISTEN;
	return s;
}

bool peer_acceptable(Sock *l)
{
	touch(l->o, 0x5a);
	return !l->acceptq.empty();
}
Sock *peer_accept(Sock *l)
{
	point("peer_accept", l, [](void *a) { return !((Sock *)a)->acceptq.empty() || ((Sock *)a)->closed; }, l);
	touch(l->o, 0xb1);
	if (l->acceptq.empty())
		return nullptr;
	Sock *s = l->acceptq.front();
	l->acceptq.pop_front();
	return s;
}

int peer_send(Sock *s, const Bytes &b)
{
	size_t off = 0;
	while (off < b.size()) {
		point("peer_send", s, tx_ready, s);
		ssize_t k = tcp_put(s, b.data() + off, b.size() - off);
		if (k < 0)
			return (int)k;
		off += k;
	}
	return 0;
}

Bytes peer_recv(Sock *s, size_t n)
{
	Bytes r;
	char b[8192];
	while (r.size() < n) {
		point("peer_recv", s, rx_ready, s);
		ssize_t k = tcp_take(s, b, std::min(sizeof b, n - r.size()), false);
		if (k <= 0)
			break;
		r.append(b, k);
	}
	return r;
}

Bytes peer_recv_some(Sock *s, size_t max)
{
	Bytes r;
	char b[8192];
	point("peer_recv", s, rx_ready, s);
	for (;;) {
		if (r.size() >= max || (r.size() && !s->avail()))
			break;
		ssize_t k = tcp_take(s, b, std::min(sizeof b, max - r.size()), false);
		if (k <= 0)
			break;
		r.append(b, k);
	}
	return r;
}

Bytes peer_drain(Sock *s)
{
	touch(s->rx, 0x13);
	Bytes r = s->rbuf.substr(s->rpos);
	s->rbuf.clear();
	s->rpos = 0;
	return r;
}

bool peer_eof(Sock *s) { return s->avail() == 0 && (s->fin || s->dead); }
static bool vsleep_never(void *) { return false; }
void vsleep(u64 ns) { point("sleep", nullptr, vsleep_never, nullptr, vnow() + ns, true); }
bool peer_reset_seen(Sock *s) { return s->rst_seen; }
size_t peer_pending(Sock *s) { return s->avail(); }
bool peer_taken(Sock *s)
{
	if (!s || !s->peer)
		return s != nullptr;
	Sock *c = s->peer;
	return c->accepted_by && c->accepted_by->ops > c->accepted_ops;
}
void peer_shutdown_wr(Sock *s)
{
	point("peer_shutdown", s);
	touch(s->o, 0x76);
	send_fin(s);
}
void peer_close(Sock *s)
{
	point("peer_close", s);
	sock_close(s);
}
void peer_abort(Sock *s)
{
	point("peer_abort", s);
	touch(s->o, 0x75);
	if (s->peer && !s->dead)
		do_reset(s->peer);
	s->closed = true;
	s->dead = true;
}
void sim_abort_fd(int fd)
{
	Sock *s = N->fds[fd];
	touch(s->o, 0x75);
	if (s->peer && !s->dead)
		do_reset(s->peer);
	s->closed = s->dead = true;
	N->fds.erase(fd);
	N->closed_fds.insert(fd);
}
void peer_wait_eof(Sock *s)
{
	char b[8192];
	for (;;) {
		point("peer_wait_eof", s, rx_ready, s);
		if (tcp_take(s, b, sizeof b, false) <= 0)
			return;
	}
}

void peer_sendto(const char *from, u16 fport, u32 to, u16 port, const Bytes &b)
{
	point("peer_sendto");
	Sock *best = nullptr;
	touch(portobj(port), 0xd1);
	for (auto s : N->all)
		if (s->type == 2 && s->bound && !s->closed && s->lport == port && (s->laddr == to || s->laddr == 0))
			if (!best || s->laddr == to || best->laddr == 0)
				best = s;
	if (!best)
		return;
	touch(best->rx, 0xd2); // (also if it was shut down: datagrams are still received)
	best->dq.push_back(Dgram{ ip(from), fport, to, port, b });
}

} // namespace mc

using namespace mc;

static int seterr(int e)
{
	errno = e;
	return -1;
}

static void fill_addr(const Sock *s, u32 a, u16 port, struct sockaddr *sa, socklen_t *len, bool allow6)
{
	if (!sa || !len)
		return;
	if (allow6 && s->v6) {
		struct sockaddr_in6 x;
		memset(&x, 0, sizeof x);
		x.sin6_family = AF_INET6;
		x.sin6_port = htons(port);
		memcpy(&x.sin6_addr, s->r6, 16);
		memcpy(sa, &x, std::min<size_t>(*len, sizeof x));
		*len = sizeof x;
		return;
	}
	struct sockaddr_in x;
	memset(&x, 0, sizeof x);
	x.sin_family = AF_INET;
	x.sin_port = htons(port);
	x.sin_addr.s_addr = a;
	memcpy(sa, &x, std::min<size_t>(*len, sizeof x));
	*len = sizeof x;
}

extern "C" {

void *mc_calloc(size_t, size_t);
void mc_free(void *);

int mc_socket(int dom, int type, int)
{
	int f = fault(F_SOCK, 2, "socket");
	if (f)
		return seterr(EMFILE);
	if (dom != AF_INET && dom != AF_INET6)
		return seterr(EAFNOSUPPORT);
	int t = type & 0xf;
	if (t != SOCK_STREAM && t != SOCK_DGRAM)
		return seterr(EPROTONOSUPPORT);
	Sock *s = new_sock(t == SOCK_STREAM ? 1 : 2, true);
	s->six = dom == AF_INET6;
	if (type & SOCK_NONBLOCK)
		s->nonblock = true;
	int fd = add_fd(s);
	TR("socket -> %d", fd);
	if (mon_fd_created)
		(*mon_fd_created)(fd, s->type == 1 ? "tcp" : "udp");
	return fd;
}

int mc_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t n)
{
	Sock *s = get(fd, "setsockopt");
	if (!s)
		return -1;
	if (fault(F_SOCK, 2, "setsockopt"))
		return seterr(ENOBUFS);
	if (lvl == SOL_SOCKET && opt == SO_REUSEADDR)
		s->reuse = *(const int *)v != 0;
	if (lvl == SOL_SOCKET && opt == SO_KEEPALIVE)
		s->ka = *(const int *)v != 0;
	if (lvl == IPPROTO_TCP && s->type == 1 && (opt == TCP_KEEPIDLE || opt == TCP_KEEPINTVL || opt == TCP_KEEPCNT)) {
		int x = *(const int *)v;
		if (n < sizeof(int) || x < 1 || x > (opt == TCP_KEEPCNT ? 127 : 32767))
			return seterr(EINVAL);
		(opt == TCP_KEEPIDLE ? s->ka_idle : opt == TCP_KEEPINTVL ? s->ka_intvl : s->ka_cnt) = x;
	}
	if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
		if (n < sizeof(struct timeval))
			return seterr(EINVAL);
		const struct timeval *tv = (const struct timeval *)v;
		if (tv->tv_usec < 0 || tv->tv_usec >= 1000000)
			return seterr(EDOM);
		u64 t = tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull;
		(opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = t;
	}
	return 0;
}

int mc_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *n)
{
	Sock *s = get(fd, "getsockopt");
	if (!s)
		return -1;
	memset(v, 0, *n);
	if (lvl == SOL_SOCKET && opt == SO_ERROR && *n >= 4) {
		*(int *)v = s->err;
		s->err = 0;
	}
	return 0;
}

int mc_bind(int fd, const struct sockaddr *sa, socklen_t)
{
	Sock *s = get(fd, "bind");
	if (!s)
		return -1;
	point("bind", s);
	if (fault(F_SOCK, 2, "bind"))
		return seterr(EADDRINUSE);
	if (s->bound)
		return seterr(EINVAL);
	const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
	u32 a = sa->sa_family == AF_INET ? in->sin_addr.s_addr : 0;
	u16 port = ntohs(in->sin_port);
	if ((ntohl(a) >> 8) == 0xc00002) // 192.0.2.0/24: not a local address
		return seterr(EADDRNOTAVAIL);
	if (port == 0) {
		port = (N->eph = N->eph == 65535 ? 40000 : N->eph + 1);
		absorb(port);
		s->laddr = a;
		s->lport = port;
		s->bound = true;
		s->st = ST_BOUND;
		return 0;
	}
	touch(portobj(port), 0xb0 + s->type);
	for (auto q : N->all) {
		if (q == s || !q->bound || q->type != s->type || q->lport != port)
			continue;
		if (q->type == 1 && q->peer) { // a connection of this host, perhaps one which was closed recently
			if (q->sut)
				touch(q->rx, 0x5b);
			if (!q->sut || q->dead || ((q->closed || (q->fin && q->fin_sent)) && q->lingers <= vnow()))
				continue;
		} else if (q->closed)
			continue;
		if (!(q->laddr == a || q->laddr == 0 || a == 0))
			continue;
		if (s->type == 1) {
			if (s->reuse && q->reuse && q->st != ST_LISTEN)
				continue;
			return seterr(EADDRINUSE);
		}
		if (!(s->reuse && q->reuse))
			return seterr(EADDRINUSE);
	}
	s->laddr = a;
	s->lport = port;
	s->bound = true;
	s->st = ST_BOUND;
	TR("bind fd %d %s:%u", fd, ipstr(a).c_str(), port);
	if (s->type == 2 && mon_udp_bind)
		(*mon_udp_bind)(a, port, 1, udp_bound_count(a, port));
	return 0;
}

int mc_listen(int fd, int)
{
	Sock *s = get(fd, "listen");
	if (!s)
		return -1;
	if (fault(F_SOCK, 2, "listen"))
		return seterr(EADDRINUSE);
	if (s->type != 1)
		return seterr(EOPNOTSUPP);
	for (auto q : N->all)
		if (q != s && !q->closed && q->st == ST_LISTEN && !q->lshut && q->lport == s->lport &&
		    (q->laddr == s->laddr || q->laddr == 0 || s->laddr == 0))
			return seterr(EADDRINUSE);
	s->st = ST_LISTEN;
	s->lshut = false;
	touch(s->o, 0x15);
	touch(portobj(s->lport), 0x15);
	return 0;
}

int mc_accept4(int fd, struct sockaddr *sa, socklen_t *len, int)
{
	Sock *s = get(fd, "accept");
	if (!s)
		return -1;
	point("accept", s, [](void *a) { return !((Sock *)a)->acceptq.empty() || ((Sock *)a)->st != ST_LISTEN; }, s, 0, true);
	if (was_interrupted())
		return seterr(EINTR);
	if (s->closed)
		fail("closed-fd", "accept returned on a closed descriptor");
	touch(s->o, 0xac);
	if (s->st != ST_LISTEN || s->acceptq.empty())
		return seterr(EINVAL);
	int f = fault(F_ACCEPT, 3, "accept");
	if (f == 2)
		return seterr(EMFILE);
	Sock *c = s->acceptq.front();
	s->acceptq.pop_front();
	if (f == 1) {
		if (c->peer)
			do_reset(c->peer);
		return seterr(ECONNABORTED);
	}
	fill_addr(c, c->raddr, c->rport, sa, len, true);
	int nfd = add_fd(c);
	c->accepted_by = self();
	c->accepted_ops = self()->ops;
	TR("accept -> fd %d", nfd);
	return nfd;
}
int mc_accept(int fd, struct sockaddr *sa, socklen_t *len) { return mc_accept4(fd, sa, len, 0); }

int mc_connect(int fd, const struct sockaddr *sa, socklen_t)
{
	Sock *s = get(fd, "connect");
	if (!s)
		return -1;
	const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
	u32 a = in->sin_addr.s_addr;
	u16 port = ntohs(in->sin_port);
	if (sa->sa_family == AF_INET6)
		return seterr(s->six ? ENETUNREACH : EAFNOSUPPORT); // there is no IPv6 network
	if (s->six && sa->sa_family == AF_INET)
		return seterr(EAFNOSUPPORT);
	if (s->st == ST_CONN)
		return seterr(EISCONN);
	if (!s->bound) {
		s->lport = (N->eph = N->eph == 65535 ? 40000 : N->eph + 1);
		absorb(s->lport);
		s->bound = true;
	}
	if (s->type == 2) {
		s->raddr = a;
		s->rport = port;
		return 0;
	}
	point("connect", s);
	if (s->closed)
		fail("closed-fd", "connect on a descriptor that was closed meanwhile");
	size_t ri = N->connects.size();
	N->connects.push_back(ConnectRec{ s->laddr, a, port, 0 });
	int f = fault(F_CONNECT, 3, "connect");
	if (f) {
		int e = f == 1 ? ECONNREFUSED : ETIMEDOUT;
		N->connects[ri].result = -e;
		return seterr(e);
	}
	touch(portobj(port), 0xc1);
	auto m = N->modes.find({ a, port });
	int mode = m == N->modes.end() ? 0 : m->second;
	TR("connect fd %d to %s:%u mode %d", fd, ipstr(a).c_str(), port, mode);
	if (mode == CM_UNREACH + 1) {
		N->connects[ri].result = -ENETUNREACH;
		return seterr(ENETUNREACH);
	}
	if (mode == CM_BLACKHOLE + 1) {
		s->st = ST_CONNECTING;
		bool to = point("connect(wait)", s, [](void *p) { return ((Sock *)p)->err != 0; }, s,
				vnow() + 127ull * 1000000000ull, true);
		s->st = ST_BOUND;
		int e = to ? ETIMEDOUT : was_interrupted() ? EINTR : s->err;
		if (s->closed)
			fail("closed-fd", "connect on a descriptor that was closed meanwhile");
		s->err = 0;
		touch(s->o, 0xce);
		N->connects[ri].result = -e;
		return seterr(e);
	}
	Sock *l = mode ? nullptr : find_listener(a, port);
	if (!l) {
		s->shut_rd = s->shut_wr = false;
		N->connects[ri].result = -ECONNREFUSED;
		return seterr(ECONNREFUSED);
	}
	establish(s, l, a, port);
	touch(s->o, 0xcf);
	return 0;
}

static ssize_t sim_recv(int fd, void *b, size_t n, int flags, struct sockaddr *sa, socklen_t *len)
{
	Sock *s = get(fd, "recv");
	if (!s)
		return -1;
	if (s->type == 1 && s->st != ST_CONN) {
		if (s->shut_rd && s->st != ST_LISTEN)
			return 0;
		return seterr(ENOTCONN);
	}
#ifdef MC_ASAN
	// the kernel writes into the caller's buffer: report overflows of its declared size
	if (n && __asan_region_is_poisoned((void *)b, n))
		fail("recv-overflow", "recv into a buffer smaller than the %zu bytes requested", n);
#endif
	if ((flags & MSG_DONTWAIT) || s->nonblock) {
		point("recv", s);
		if (!rx_ready(s))
			return seterr(EAGAIN);
	} else {
		bool to = point(s->type == 1 ? "recv" : "recvfrom", s, rx_ready, s, s->rcvtimeo ? vnow() + s->rcvtimeo : 0,
				true);
		if (s->closed)
			fail("closed-fd", "recv returned on a closed descriptor");
		if (was_interrupted())
			return seterr(EINTR);
		if (to)
			return seterr(EAGAIN);
	}
	if (s->type == 2) {
		touch(s->rx, 0x21);
		if (s->dq.empty()) {
			if (len)
				*len = 0;
			return 0; // shut down
		}
		int f = fault(F_RECVERR, 2, "recvfrom");
		if (f)
			return seterr(ENOMEM);
		Dgram d = s->dq.front();
		if (!(flags & MSG_PEEK))
			s->dq.pop_front();
		size_t k = std::min(n, d.data.size());
		memcpy(b, d.data.data(), k);
		fill_addr(s, d.saddr, d.sport, sa, len, false);
		TR("recvfrom fd %d -> %zu bytes", fd, k);
		return (flags & MSG_TRUNC) ? d.data.size() : k;
	}
	int f = fault(F_RECVERR, 3, "recv");
	if (f) {
		if (s->peer && !s->dead)
			do_reset(s->peer);
		s->dead = true;
		s->rbuf.clear();
		s->rpos = 0;
		s->err = 0;
		return seterr(f == 1 ? ECONNRESET : ETIMEDOUT);
	}
	size_t want = n;
	if (s->avail() > 1 && want > 1) {
		size_t full = std::min(want, s->avail());
		int k = fault(F_SHORT_RECV, full > 2 ? 3 : 2, "short recv");
		if (k == 1)
			want = 1;
		else if (k == 2)
			want = full - 1;
	}
	ssize_t r = tcp_take(s, (char *)b, want, flags & MSG_PEEK);
	TR("recv fd %d -> %zd", fd, r);
	if (r < 0)
		return seterr((int)-r);
	if (len && sa)
		*len = 0;
	if ((flags & MSG_WAITALL) && r > 0 && (size_t)r < n) {
		ssize_t q = sim_recv(fd, (char *)b + r, n - r, flags, nullptr, nullptr);
		if (q > 0)
			r += q;
	}
	return r;
}

static ssize_t race_recv(void *pc, int fd, void *b, size_t n, int fl, struct sockaddr *sa, socklen_t *len)
{
	ssize_t r = sim_recv(fd, b, n, fl, sa, len);
	int e = errno;
	if (r > 0)
		race_range(b, r, true, pc);
	errno = e;
	return r;
}
ssize_t mc_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *sa, socklen_t *len)
{
	return race_recv(__builtin_return_address(0), fd, b, n, fl, sa, len);
}
ssize_t mc_recv(int fd, void *b, size_t n, int fl) { return race_recv(__builtin_return_address(0), fd, b, n, fl, nullptr, nullptr); }
ssize_t mc_read(int fd, void *b, size_t n) { return race_recv(__builtin_return_address(0), fd, b, n, 0, nullptr, nullptr); }

static ssize_t sim_send(int fd, const void *b, size_t n, int flags, const struct sockaddr *sa)
{
	Sock *s = get(fd, "send");
	if (!s)
		return -1;
	if (s->type == 2) {
		point("sendto", s);
		if (s->closed)
			fail("closed-fd", "sendto on a closed descriptor");
		const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
		u32 da = in ? in->sin_addr.s_addr : s->raddr;
		u16 dp = in ? ntohs(in->sin_port) : s->rport;
		touch(s->o, 0x41);
		if (n > 65507)
			return seterr(EMSGSIZE);
		if (s->shut_wr) {
			if (!(flags & MSG_NOSIGNAL))
				fail("sigpipe", "send without MSG_NOSIGNAL on a shut-down socket: SIGPIPE kills the process");
			return seterr(EPIPE);
		}
		int f = fault(F_SENDTO, 3, "sendto");
		if (f)
			return seterr(f == 1 ? ENETUNREACH : EPERM);
		Bytes d((const char *)b, n);
		N->sent.push_back(Dgram{ s->laddr, s->lport, da, dp, d });
		TR("sendto fd %d %s:%u -> %s:%u %zu bytes", fd, ipstr(s->laddr).c_str(), s->lport, ipstr(da).c_str(), dp, n);
		touch(portobj(dp), 0x42);
		for (auto q : N->all)
			if (q != s && q->type == 2 && q->bound && !q->closed && q->lport == dp && q->laddr == da) {
				touch(q->rx, 0x43);
				q->dq.push_back(Dgram{ s->laddr, s->lport, da, dp, d });
				break;
			}
		return n;
	}
	if (s->st != ST_CONN) {
		if (!(flags & MSG_NOSIGNAL))
			fail("sigpipe", "send without MSG_NOSIGNAL on an unconnected socket: SIGPIPE kills the process");
		return seterr(s->st == ST_FRESH || s->st == ST_BOUND ? EPIPE : ENOTCONN);
	}
	size_t lim = n;
	size_t total = 0;
	bool first = true;
	while (first || total < lim) {
		bool to = point("send", s, tx_ready, s, s->sndtimeo ? vnow() + s->sndtimeo : 0, true);
		if (s->closed)
			fail("closed-fd", "send on a closed descriptor");
		if (was_interrupted() || to) {
			if (total)
				return total;
			return seterr(to ? EAGAIN : EINTR);
		}
		if (first && n > 1) {
			int k = fault(F_SHORT_SEND, n > 2 ? 3 : 2, "short send");
			if (k == 1)
				lim = 1;
			else if (k == 2)
				lim = n / 2 + (n > 16 ? 3 : 0);
		}
		if (first) {
			int f = fault(F_SENDERR, 3, "send");
			if (f) {
				if (s->peer && !s->dead)
					do_reset(s->peer);
				s->dead = true;
				s->err = 0;
				return seterr(f == 1 ? ECONNRESET : ETIMEDOUT);
			}
		}
		first = false;
		ssize_t k = tcp_put(s, (const char *)b + total, lim - total);
		if (k < 0) {
			if (total)
				return total;
			if (k == -EPIPE && !(flags & MSG_NOSIGNAL))
				fail("sigpipe", "send without MSG_NOSIGNAL on a broken connection: SIGPIPE kills the process");
			return seterr((int)-k);
		}
		total += k;
		TR("send fd %d %zd bytes (%zu/%zu)", fd, k, total, n);
		if (lim < n && total >= lim)
			break;
	}
	return total;
}

static ssize_t race_send(void *pc, int fd, const void *b, size_t n, int fl, const struct sockaddr *sa)
{
	race_range(b, n, false, pc);
	return sim_send(fd, b, n, fl, sa);
}
ssize_t mc_send(int fd, const void *b, size_t n, int fl) { return race_send(__builtin_return_address(0), fd, b, n, fl, nullptr); }
ssize_t mc_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *sa, socklen_t)
{
	return race_send(__builtin_return_address(0), fd, b, n, fl, sa);
}
ssize_t mc_write(int fd, const void *b, size_t n) { return race_send(__builtin_return_address(0), fd, b, n, 0, nullptr); }
ssize_t mc_sendmsg(int fd, const struct msghdr *m, int fl)
{
	Bytes x;
	for (size_t i = 0; i < m->msg_iovlen; i++)
		x.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	return sim_send(fd, x.data(), x.size(), fl, (const struct sockaddr *)m->msg_name);
}
ssize_t mc_writev(int fd, const struct iovec *v, int n)
{
	struct msghdr m;
	memset(&m, 0, sizeof m);
	m.msg_iov = (struct iovec *)v;
	m.msg_iovlen = n;
	return mc_sendmsg(fd, &m, 0);
}
ssize_t mc_recvmsg(int fd, struct msghdr *m, int fl)
{
	size_t n = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++)
		n += m->msg_iov[i].iov_len;
	char *tmp = (char *)arena_alloc(n + 1);
	socklen_t sl = m->msg_namelen;
	ssize_t r = sim_recv(fd, tmp, n, fl, (struct sockaddr *)m->msg_name, &sl);
	if (r < 0)
		return r;
	m->msg_namelen = sl;
	m->msg_flags = 0;
	size_t off = 0;
	for (size_t i = 0; i < m->msg_iovlen && off < (size_t)r; i++) {
		size_t k = std::min<size_t>(m->msg_iov[i].iov_len, r - off);
		memcpy(m->msg_iov[i].iov_base, tmp + off, k);
		off += k;
	}
	return r;
}

int mc_shutdown(int fd, int how)
{
	if (fd < 0)
		return seterr(EBADF);
	Sock *s = get(fd, "shutdown");
	if (!s)
		return -1;
	point("shutdown", s);
	if (s->closed)
		fail("closed-fd", "shutdown on a closed descriptor");
	TR("shutdown fd %d", fd);
	bool conn = (s->st == ST_CONN && !s->over()) || s->st == ST_LISTEN || s->st == ST_CONNECTING;
	sock_shutdown(s, how);
	if (!conn)
		return seterr(ENOTCONN);
	return 0;
}

int mc_close(int fd)
{
	if (N->nulls.count(fd)) {
		N->nulls.erase(fd);
		if (fd <= 2)
			SS->proc.closed_std |= 1 << fd;
		return 0;
	}
	if (fd >= 0 && fd <= 2 && !N->fds.count(fd)) {
		if (SS->proc.closed_std & (1 << fd)) {
			errno = EBADF;
			return -1;
		}
		SS->proc.closed_std |= 1 << fd;
		return 0;
	}
	Sock *s = get(fd, "close");
	if (!s)
		return -1;
	point("close", s);
	if (s->closed)
		fail("closed-fd", "close of a descriptor that was closed meanwhile");
	// closing a descriptor does not wake a thread blocked on it
	for (int i = 0; i < nfibers(); i++) {
		Fiber *f = fiber_by_id(i);
		if (f != self() && f->kind == FK_SUT && !f->done && f->opobj == s && f->en && !f->en(f->en_arg))
			fail("close-in-use", "close of descriptor %d while thread %s is blocked in %s on it", fd, f->name,
			     f->op);
	}
	TR("close fd %d", fd);
	bool wasudp = s->type == 2 && s->bound;
	sock_close(s);
	N->fds.erase(fd);
	N->closed_fds.insert(fd);
	if (wasudp && mon_udp_bind)
		(*mon_udp_bind)(s->laddr, s->lport, -1, udp_bound_count(s->laddr, s->lport));
	return 0;
}

// only the null device can be opened
int mc_open(const char *path, int flags, ...)
{
	if (strcmp(path, "/dev/null")) {
		errno = ENOENT;
		return -1;
	}
	if (fault(F_PROC, 2, "open")) {
		errno = EMFILE;
		return -1;
	}
	int fd = lowest_fd();
	if (fd <= 2)
		SS->proc.closed_std &= ~(1 << fd);
	N->nulls.insert(fd);
	return fd;
}
static bool is_std(int fd) { return fd >= 0 && fd <= 2 && !(SS->proc.closed_std & (1 << fd)); }
int mc_dup2(int a, int b)
{
	if (a == b)
		return b;
	if (!N->nulls.count(a) || b < 0 || b > 2) {
		if (!is_std(a) && !N->fds.count(a)) {
			errno = EBADF;
			return -1;
		}
		fail("unsupported", "dup2(%d, %d)", a, b);
	}
	if (N->fds.count(b))
		mc_close(b);
	SS->proc.closed_std &= ~(1 << b);
	N->nulls.insert(b);
	return b;
}
int mc_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	int a = va_arg(ap, int);
	va_end(ap);
	Sock *s = get(fd, "fcntl");
	if (!s)
		return -1;
	if (cmd == F_GETFL)
		return s->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
	if (cmd == F_SETFL)
		s->nonblock = a & O_NONBLOCK;
	return 0;
}

static int pollrev(Sock *s, int ev)
{
	int r = 0;
	if (s->st == ST_LISTEN) {
		if ((ev & POLLIN) && !s->acceptq.empty())
			r |= POLLIN;
		return r;
	}
	if (s->type == 1 && s->st != ST_CONN && s->st != ST_CONNECTING)
		return POLLHUP | (ev & POLLOUT);
	if ((ev & POLLIN) && rx_ready(s))
		r |= POLLIN;
	if (s->type == 2 || s->st == ST_CONN) {
		if ((ev & POLLOUT) && tx_ready(s))
			r |= POLLOUT;
		if (s->over())
			r |= POLLHUP;
	}
	return r;
}
struct PollArg {
	struct pollfd *p;
	unsigned long n;
};
static bool poll_ready(void *a)
{
	PollArg *x = (PollArg *)a;
	for (unsigned long i = 0; i < x->n; i++) {
		auto it = N->fds.find(x->p[i].fd);
		if (it == N->fds.end())
			return true;
		if (pollrev(it->second, x->p[i].events))
			return true;
	}
	return false;
}
int mc_poll(struct pollfd *p, unsigned long n, int to)
{
	PollArg a{ p, n };
	if (to != 0) {
		point("poll", nullptr, poll_ready, &a, to > 0 ? vnow() + to * 1000000ull : 0, true);
		if (was_interrupted())
			return seterr(EINTR);
	} else
		point("poll");
	int c = 0;
	for (unsigned long i = 0; i < n; i++) {
		p[i].revents = 0;
		if (p[i].fd < 0)
			continue;
		Sock *s = get(p[i].fd, "poll");
		p[i].revents = s ? pollrev(s, p[i].events) : POLLNVAL;
		if (s) {
			touch(s->rx, 0x90);
			touch(s->o, 0x90);
		}
		if (p[i].revents)
			c++;
	}
	return c;
}

int mc_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	struct pollfd p[64];
	int k = 0;
	for (int fd = 0; fd < n && k < 64; fd++) {
		short ev = (r && FD_ISSET(fd, r) ? POLLIN : 0) | (w && FD_ISSET(fd, w) ? POLLOUT : 0);
		if (ev || (e && FD_ISSET(fd, e)))
			p[k++] = { fd, ev, 0 };
	}
	int c = mc_poll(p, k, tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
	if (c < 0)
		return c;
	c = 0;
	for (int i = 0; i < k; i++) {
		if (p[i].revents & POLLNVAL)
			return seterr(EBADF);
		bool in = p[i].revents & (POLLIN | POLLHUP | POLLERR), out = p[i].revents & (POLLOUT | POLLERR);
		if (r && FD_ISSET(p[i].fd, r)) {
			if (in)
				c++;
			else
				FD_CLR(p[i].fd, r);
		}
		if (w && FD_ISSET(p[i].fd, w)) {
			if (out)
				c++;
			else
				FD_CLR(p[i].fd, w);
		}
		if (e && FD_ISSET(p[i].fd, e))
			FD_CLR(p[i].fd, e);
	}
	return c;
}

int mc_getsockname(int fd, struct sockaddr *sa, socklen_t *len)
{
	Sock *s = get(fd, "getsockname");
	if (!s)
		return -1;
	fill_addr(s, s->laddr, s->lport, sa, len, false);
	return 0;
}
int mc_getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
	Sock *s = get(fd, "getpeername");
	if (!s)
		return -1;
	if (s->st != ST_CONN || s->over())
		return seterr(ENOTCONN);
	fill_addr(s, s->raddr, s->rport, sa, len, true);
	return 0;
}

// nothing is looked up: addresses have no names here
int mc_getnameinfo(const struct sockaddr *sa, socklen_t len, char *host, socklen_t hl, char *serv, socklen_t sl, int flags)
{
	if (flags & NI_NAMEREQD)
		return EAI_NONAME;
	return getnameinfo(sa, len, host, hl, serv, sl, flags | NI_NUMERICHOST | NI_NUMERICSERV);
}
int mc_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res)
{
	if (fault(F_SOCK, 2, "getaddrinfo"))
		return EAI_AGAIN;
	int fam = h ? h->ai_family : AF_UNSPEC;
	if (fam != AF_UNSPEC && fam != AF_INET && fam != AF_INET6)
		return EAI_FAMILY;
	std::vector<u32> v4;
	std::vector<struct in6_addr> v6;
	u32 a;
	struct in6_addr a6;
	bool name = false;
	if (!node) {
		v4.push_back((h && (h->ai_flags & AI_PASSIVE)) ? 0 : htonl(0x7f000001));
	} else if (inet_pton(AF_INET, node, &a) == 1)
		v4.push_back(a);
	else if (inet_pton(AF_INET6, node, &a6) == 1)
		v6.push_back(a6);
	else if (strcmp(node, "www.echolink.org") == 0)
		name = true, v4.push_back(ip("198.51.100.80"));
	else if (strcmp(node, "localhost") == 0)
		name = true, v4.push_back(ip("127.0.0.1"));
	else if (strcmp(node, "server.example") == 0)
		name = true, v4.push_back(ip("198.51.100.7"));
	else
		return EAI_NONAME;
	if (name && (SS->ipv6 & 3)) {
		inet_pton(AF_INET6, "2001:db8::7", &a6);
		v6.push_back(a6);
	}
	if (name && (SS->ipv6 & 4))
		v4.clear();
	if (fam == AF_INET)
		v6.clear();
	if (fam == AF_INET6)
		v4.clear();
	if (v4.empty() && v6.empty())
		return name ? EAI_NODATA : EAI_ADDRFAMILY;
	long port = 0;
	if (svc) {
		char *e;
		port = strtol(svc, &e, 10);
		if (*e)
			return EAI_SERVICE;
		if (port < 0 || port > 65535)
			return EAI_SERVICE;
	}
	struct addrinfo *first = nullptr, **at = &first;
	auto add = [&](int f, u32 x4, const struct in6_addr *x6) {
		u32 keep = g_faults;
		g_faults = 0;
		struct addrinfo *r = (struct addrinfo *)mc_calloc(1, sizeof *r + sizeof(struct sockaddr_in6));
		g_faults = keep;
		r->ai_family = f;
		r->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM;
		r->ai_protocol = r->ai_socktype == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP;
		r->ai_addr = (struct sockaddr *)(r + 1);
		if (f == AF_INET) {
			struct sockaddr_in *in = (struct sockaddr_in *)(r + 1);
			in->sin_family = AF_INET;
			in->sin_port = htons((u16)port);
			in->sin_addr.s_addr = x4;
			r->ai_addrlen = sizeof *in;
		} else {
			struct sockaddr_in6 *in = (struct sockaddr_in6 *)(r + 1);
			in->sin6_family = AF_INET6;
			in->sin6_port = htons((u16)port);
			in->sin6_addr = *x6;
			r->ai_addrlen = sizeof *in;
		}
		*at = r;
		at = &r->ai_next;
	};
	bool six_last = (SS->ipv6 & 3) == 2;
	if (!six_last)
		for (auto &x : v6)
			add(AF_INET6, 0, &x);
	for (u32 x : v4)
		add(AF_INET, x, nullptr);
	if (six_last)
		for (auto &x : v6)
			add(AF_INET6, 0, &x);
	*res = first;
	return 0;
}
void mc_freeaddrinfo(struct addrinfo *r)
{
	while (r) {
		struct addrinfo *n = r->ai_next;
		mc_free(r);
		r = n;
	}
}
} // extern "C"
