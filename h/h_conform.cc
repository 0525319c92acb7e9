// The simulated sockets against the real kernel: every sequence of operations up to a depth is executed on both
// and what they return is compared; then every pair of a blocked operation and an event.  This is not a check of a
// property, but of the environment the checks assume (run.py --conform).
#include "sim.h"
#include <arpa/inet.h>
#include <cerrno>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
using mc::Bytes;

extern "C" {
int mc_socket(int, int, int);
int mc_setsockopt(int, int, int, const void *, socklen_t);
int mc_bind(int, const struct sockaddr *, socklen_t);
int mc_listen(int, int);
int mc_accept(int, struct sockaddr *, socklen_t *);
int mc_connect(int, const struct sockaddr *, socklen_t);
ssize_t mc_recv(int, void *, size_t, int);
ssize_t mc_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t mc_send(int, const void *, size_t, int);
ssize_t mc_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
int mc_shutdown(int, int);
int mc_close(int);
int mc_poll(struct pollfd *, unsigned long, int);
int mc_getsockname(int, struct sockaddr *, socklen_t *);
int mc_getpeername(int, struct sockaddr *, socklen_t *);
int mc_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
void mc_freeaddrinfo(struct addrinfo *);
}

struct Api {
	bool real;
	int (*socket)(int, int, int);
	int (*setsockopt)(int, int, int, const void *, socklen_t);
	int (*bind)(int, const struct sockaddr *, socklen_t);
	int (*listen)(int, int);
	int (*accept)(int, struct sockaddr *, socklen_t *);
	int (*connect)(int, const struct sockaddr *, socklen_t);
	ssize_t (*recv)(int, void *, size_t, int);
	ssize_t (*recvfrom)(int, void *, size_t, int, struct sockaddr *, socklen_t *);
	ssize_t (*send)(int, const void *, size_t, int);
	ssize_t (*sendto)(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
	int (*shutdown)(int, int);
	int (*close)(int);
	int (*poll)(struct pollfd *, unsigned long, int);
	int (*getsockname)(int, struct sockaddr *, socklen_t *);
	int (*getpeername)(int, struct sockaddr *, socklen_t *);
};
static const Api SIM = { false, mc_socket, mc_setsockopt, mc_bind, mc_listen, mc_accept, mc_connect, mc_recv, mc_recvfrom,
			 mc_send, mc_sendto, mc_shutdown, mc_close, mc_poll, mc_getsockname, mc_getpeername };
static const Api REAL = { true, socket, setsockopt, bind, listen, accept, connect, recv, recvfrom, send, sendto, shutdown,
			  close, poll, getsockname, getpeername };

static struct sockaddr_in in4(u32 a, u16 port)
{
	struct sockaddr_in x;
	memset(&x, 0, sizeof x);
	x.sin_family = AF_INET;
	x.sin_addr.s_addr = a;
	x.sin_port = htons(port);
	return x;
}
#define SA(x) ((struct sockaddr *)&(x))

static Bytes res(ssize_t r)
{
	return r < 0 ? Bytes("-") + strerrorname_np(errno) : std::to_string(r);
}

static bool ready(const Api &a, int fd)
{
	struct pollfd p = { fd, POLLIN, 0 };
	a.poll(&p, 1, 0);
	return p.revents != 0;
}

// the real addresses: distinct per execution so that nothing lingers from one to the next
static u32 g_serial;
static u32 real_base()
{
	u32 k = g_serial++;
	return htonl(0x7f000000 | ((u32)getpid() % 63 + 1) << 18 | (k / 120 % 1024) << 8 | (k % 120 * 2 + 1));
}

struct World {
	const Api &a;
	u32 la;    // address listened on
	u32 ca;    // address of the connecting side
	u16 port;
	int L = -1, A = -1, B = -1;
	u16 aport = 0;
	int lreuse = 1;
	World(const Api &x, u32 base) : a(x), la(base), ca(htonl(ntohl(base) + 1)), port(5200) {}
	int fresh()
	{
		int fd = a.socket(AF_INET, SOCK_STREAM, 0), one = 1;
		a.setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		int small = 16384;
		a.setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
		a.setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); // (the simulated network delivers at once)
		struct sockaddr_in s = in4(ca, 0);
		CHECK(a.bind(fd, SA(s), sizeof s) == 0, "conform-setup", "bind %d", errno);
		return fd;
	}
	void up()
	{
		L = a.socket(AF_INET, SOCK_STREAM, 0);
		int one = 1;
		a.setsockopt(L, SOL_SOCKET, SO_REUSEADDR, &lreuse, sizeof lreuse);
		int small = 16384; // no automatic sizing
		a.setsockopt(L, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
		struct sockaddr_in s = in4(la, port);
		CHECK(a.bind(L, SA(s), sizeof s) == 0, "conform-setup", "bind listener %s", strerror(errno));
		CHECK(a.listen(L, 10) == 0, "conform-setup", "listen");
		A = fresh();
	}
	void down()
	{
		for (int *f : { &L, &A, &B })
			if (*f >= 0) {
				struct linger l = { 1, 0 }; // leaves no TIME_WAIT
				if (a.real)
					setsockopt(*f, SOL_SOCKET, SO_LINGER, &l, sizeof l);
				a.close(*f);
				*f = -1;
			}
	}
	int &fd(char c) { return c == 'A' ? A : c == 'B' ? B : L; }
	Bytes recv(int f)
	{
		if (!ready(a, f))
			return "blocks";
		char b[16];
		ssize_t r = a.recv(f, b, sizeof b, 0);
		return res(r) + (r > 0 ? ":" + Bytes(b, r) : Bytes());
	}
	Bytes addr(int (*f)(int, struct sockaddr *, socklen_t *), int s)
	{
		struct sockaddr_in x;
		socklen_t n = sizeof x;
		int r = f(s, SA(x), &n);
		if (r)
			return res(r);
		u32 h = ntohl(x.sin_addr.s_addr);
		return h == ntohl(la) ? "la" : h == ntohl(ca) ? "ca" : h ? "other" : "any";
	}
	// an operation, as text; empty if it cannot be done in this state
	bool can(const Bytes &op)
	{
		if (op == "accept")
			return L >= 0 && B < 0;
		if (op == "reopen")
			return A < 0;
		if (op == "connect" || op == "refuse")
			return A >= 0;
		return fd(op[0]) >= 0;
	}
	Bytes run(const Bytes &op)
	{
		if (op == "connect" || op == "refuse") {
			struct sockaddr_in s = in4(la, op == "connect" ? port : 5201);
			return res(a.connect(A, SA(s), sizeof s));
		}
		if (op == "accept") {
			if (!ready(a, L))
				return "blocks";
			struct sockaddr_in x;
			socklen_t n = sizeof x;
			int r = a.accept(L, SA(x), &n);
			if (r < 0)
				return res(r);
			B = r;
			int one = 1;
			a.setsockopt(B, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
			return n == sizeof x && x.sin_addr.s_addr == ca ? "ok" : "bad-address";
		}
		if (op == "reopen") {
			A = fresh();
			return "ok";
		}
		int f = fd(op[0]);
		Bytes what = op.substr(2);
		if (what == "send")
			return res(a.send(f, "xyz", 3, MSG_NOSIGNAL));
		if (what == "recv")
			return recv(f);
		if (what == "rd" || what == "wr" || what == "rdwr")
			return res(a.shutdown(f, what == "rd" ? SHUT_RD : what == "wr" ? SHUT_WR : SHUT_RDWR));
		if (what == "close") {
			fd(op[0]) = -1;
			return res(a.close(f));
		}
		if (what == "peer")
			return addr(a.getpeername, f);
		if (what == "local")
			return addr(a.getsockname, f);
		return "?";
	}
};

static const char *TCP_OPS[] = { "connect", "refuse", "accept", "A.send", "B.send", "A.recv", "B.recv", "A.rdwr", "B.rdwr", "L.rdwr",
				 "A.wr", "B.wr", "A.rd", "B.rd", "A.close", "B.close", "L.close", "A.peer", "B.peer", "reopen" };

static void compare(const char *what, const Bytes &s, const Bytes &r, const Bytes &hist)
{
	CHECK(s == r, "conform", "%s: simulated %s, real %s, after:%s", what, s.c_str(), r.c_str(), hist.c_str());
}

// arg: depth + 100 * (0: from nothing, 1: from an accepted connection)
SCENARIO(conform_tcp, 0, false)
{
	World s(SIM, ip("127.0.0.1")), r(REAL, real_base());
	if (g_arg == 105)
		usleep(3000); // the kernel keeps a limited number of connections in TIME_WAIT
	for (int k = 0; k < 50; k++) { // an address still in use by another process
		int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1;
		setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		struct sockaddr_in x = in4(r.la, r.port);
		bool ok = bind(fd, SA(x), sizeof x) == 0 && listen(fd, 1) == 0;
		close(fd);
		if (ok)
			break;
		r.la = real_base();
		r.ca = htonl(ntohl(r.la) + 1);
	}
	s.up();
	r.up();
	Bytes hist;
	if (g_arg >= 100)
		for (const char *op : { "connect", "accept" }) {
			compare(op, s.run(op), r.run(op), hist);
			hist += Bytes(" ") + op;
		}
	for (int d = 0; d < g_arg % 100; d++) {
		std::vector<const char *> ok;
		for (const char *o : TCP_OPS)
			if (s.can(o))
				ok.push_back(o);
		if (ok.empty())
			break;
		const char *op = ok[choose((int)ok.size(), "op")];
		Bytes x = s.run(op), y = r.run(op);
		compare(op, x, y, hist);
		hist += Bytes(" ") + op + "=" + x;
	}
	outcome("%s", hist.c_str());
	s.down();
	r.down();
}

// Binding the port again, after whatever happened to a connection: who closed it first, and how?
static const char *REBIND_OPS[] = { "A.send", "B.send", "A.recv", "B.recv", "A.rdwr", "B.rdwr", "L.rdwr", "A.wr", "B.wr", "A.close",
				    "B.close", "L.close" };

SCENARIO(conform_rebind, 0, false)
{
	World s(SIM, ip("127.0.0.1")), r(REAL, real_base());
	usleep(3000);
	s.lreuse = r.lreuse = choose(2, "SO_REUSEADDR of the listener");
	int again = choose(2, "SO_REUSEADDR of the second one");
	bool accepted = choose(2, "accepted");
	for (int k = 0; k < 50; k++) {
		int fd = socket(AF_INET, SOCK_STREAM, 0);
		struct sockaddr_in x = in4(r.la, r.port);
		bool ok = bind(fd, SA(x), sizeof x) == 0 && listen(fd, 1) == 0;
		close(fd);
		if (ok)
			break;
		r.la = real_base();
		r.ca = htonl(ntohl(r.la) + 1);
	}
	s.up();
	r.up();
	Bytes hist = s.lreuse ? " reuse" : "";
	for (const char *op : { "connect", "accept" })
		if (op[0] == 'c' || accepted) {
			compare(op, s.run(op), r.run(op), hist);
			hist += Bytes(" ") + op;
		}
	for (int d = 0; d < g_arg; d++) {
		std::vector<const char *> ok{ "" };
		for (const char *o : REBIND_OPS)
			if (s.can(o))
				ok.push_back(o);
		const char *op = ok[choose((int)ok.size(), "op")];
		if (!*op)
			break;
		Bytes x = s.run(op), y = r.run(op);
		compare(op, x, y, hist);
		hist += Bytes(" ") + op + "=" + x;
	}
	Bytes o[2];
	World *ws[] = { &s, &r };
	for (int i = 0; i < 2; i++) {
		World &w = *ws[i];
		int fd = w.a.socket(AF_INET, SOCK_STREAM, 0);
		w.a.setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &again, sizeof again);
		struct sockaddr_in x = in4(w.la, w.port);
		o[i] = res(w.a.bind(fd, SA(x), sizeof x));
		if (o[i] == "0")
			o[i] += " " + res(w.a.listen(fd, 5));
		w.a.close(fd);
	}
	compare(again ? "bind with SO_REUSEADDR" : "bind", o[0], o[1], hist);
	outcome("%s %d %s", hist.c_str(), again, o[0].c_str());
	s.down();
	r.down();
}

// UDP: two bound sockets
struct UWorld {
	const Api &a;
	u32 la, ca;
	int A = -1, B = -1;
	UWorld(const Api &x, u32 base) : a(x), la(base), ca(htonl(ntohl(base) + 1)) {}
	int bound(u32 ad, u16 port)
	{
		int fd = a.socket(AF_INET, SOCK_DGRAM, 0);
		struct sockaddr_in s = in4(ad, port);
		if (a.bind(fd, SA(s), sizeof s)) {
			int e = errno;
			a.close(fd);
			errno = e;
			return -1;
		}
		return fd;
	}
	void up()
	{
		A = bound(la, 5198);
		B = bound(ca, 5199);
		CHECK(A >= 0 && B >= 0, "conform-setup", "udp bind");
	}
	void down()
	{
		for (int *f : { &A, &B })
			if (*f >= 0)
				a.close(*f);
	}
	bool can(const Bytes &op) { return op == "rebind" || (op[0] == 'A' ? A : B) >= 0; }
	Bytes run(const Bytes &op)
	{
		if (op == "rebind") {
			int fd = bound(la, 5198);
			if (fd < 0)
				return res(-1);
			if (A >= 0)
				a.close(A);
			A = fd;
			return "ok";
		}
		int &f = op[0] == 'A' ? A : B;
		Bytes what = op.substr(2);
		struct sockaddr_in to = op[0] == 'A' ? in4(ca, 5199) : in4(la, 5198);
		if (what == "send")
			return res(a.sendto(f, "xyz", 3, MSG_NOSIGNAL, SA(to), sizeof to));
		if (what == "empty")
			return res(a.sendto(f, "", 0, MSG_NOSIGNAL, SA(to), sizeof to));
		if (what == "nowhere") {
			to.sin_port = htons(5190);
			return res(a.sendto(f, "q", 1, MSG_NOSIGNAL, SA(to), sizeof to));
		}
		if (what == "huge") {
			static char big[70000];
			return res(a.sendto(f, big, 65508, MSG_NOSIGNAL, SA(to), sizeof to));
		}
		if (what == "recv" || what == "recv2") {
			if (!ready(a, f))
				return "blocks";
			char b[16];
			struct sockaddr_in x;
			socklen_t n = sizeof x;
			memset(&x, 0, sizeof x);
			ssize_t r = a.recvfrom(f, b, what == "recv" ? sizeof b : 2, 0, SA(x), &n);
			Bytes o = res(r) + "/" + std::to_string(n);
			if (r >= 0 && n)
				o += x.sin_addr.s_addr == la ? "la" : x.sin_addr.s_addr == ca ? "ca" : "?";
			return o + (r > 0 ? ":" + Bytes(b, r) : Bytes());
		}
		if (what == "rd" || what == "wr" || what == "rdwr")
			return res(a.shutdown(f, what == "rd" ? SHUT_RD : what == "wr" ? SHUT_WR : SHUT_RDWR));
		if (what == "close") {
			int x = f;
			f = -1;
			return res(a.close(x));
		}
		return "?";
	}
};
static const char *UDP_OPS[] = { "A.send", "A.empty", "A.nowhere", "A.recv", "A.recv2", "A.rdwr", "A.rd", "A.wr", "A.close", "A.huge",
				 "B.send", "B.recv", "B.rdwr", "B.close", "rebind" };
SCENARIO(conform_udp, 0, false)
{
	UWorld s(SIM, ip("127.0.0.1")), r(REAL, real_base());
	s.up();
	r.up();
	Bytes hist;
	for (int d = 0; d < g_arg; d++) {
		std::vector<const char *> ok;
		for (const char *o : UDP_OPS)
			if (s.can(o))
				ok.push_back(o);
		const char *op = ok[choose((int)ok.size(), "op")];
		Bytes x = s.run(op), y = r.run(op);
		compare(op, x, y, hist);
		hist += Bytes(" ") + op + "=" + x;
	}
	outcome("%s", hist.c_str());
	s.down();
	r.down();
}

// A blocked operation and an event which may end it.
static const char *BLOCKED[] = { "recv", "accept", "recvfrom", "send", "connect", "connect after shutdown" };
static const char *EVENTS[] = { "none", "self.rdwr", "self.rd", "self.wr", "peer.data", "peer.wr", "peer.close", "peer.closeunread", "peer.abort", "peer.read" };

static bool event_fits(const Bytes &op, const Bytes &ev)
{
	if (op.compare(0, 7, "connect") == 0)
		return ev == "none" || ev.compare(0, 4, "self") == 0;
	if (op == "accept")
		return ev == "none" || ev == "self.rdwr" || ev == "self.rd" || ev == "peer.data";
	if (op == "recvfrom")
		return ev == "none" || ev.compare(0, 4, "self") == 0 || ev == "peer.data";
	if (op == "send")
		return ev != "peer.data" && ev != "self.rd" && ev != "peer.close";
	return ev != "peer.read";
}

struct Blk {
	const Api &a;
	World w;
	UWorld u;
	Bytes op;
	int f = -1, p = -1;
	int full[4] = { -1, -1, -1, -1 };
	Blk(const Api &x, u32 base, Bytes o) : a(x), w(x, base), u(x, base), op(o) {}
	void up()
	{
		if (op == "recvfrom") {
			u.up();
			f = u.A;
			p = u.B;
			return;
		}
		w.up();
		if (op.compare(0, 7, "connect") == 0) { // to a host which does not answer: too many connections are waiting there
			f = w.A;
			if (a.real) {
				listen(w.L, 0);
				for (int &q : full) {
					struct sockaddr_in x = in4(w.la, w.port);
					q = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
					connect(q, SA(x), sizeof x);
				}
			} else
				peer_mode("127.0.0.1", w.port, CM_BLACKHOLE);
			if (op != "connect")
				a.shutdown(f, SHUT_RDWR);
			return;
		}
		if (op == "accept") {
			f = w.L;
			p = w.A;
			return;
		}
		w.run("connect");
		w.run("accept");
		f = w.A;
		p = w.B;
		if (op == "send") {
			static char big[65536];
			if (a.real) {
				fcntl(f, F_SETFL, O_NONBLOCK);
				for (int i = 0; i < 12; i++) { // until nothing moves any more
					while (send(f, big, sizeof big, MSG_NOSIGNAL) > 0 || send(f, big, 1, MSG_NOSIGNAL) > 0)
						i = 0;
					usleep(10000);
				}
				fcntl(f, F_SETFL, 0);
			} else {
				size_t n = NC.capacity;
				while (n)
					n -= mc_send(f, big, std::min(n, sizeof big), MSG_NOSIGNAL);
			}
		}
	}
	Bytes blocked()
	{
		char b[16];
		if (op == "recv")
			return res(a.recv(f, b, sizeof b, 0));
		if (op.compare(0, 7, "connect") == 0)
			return w.run("connect");
		if (op == "recvfrom") {
			struct sockaddr_in x;
			socklen_t n = sizeof x;
			ssize_t r = a.recvfrom(f, b, sizeof b, 0, SA(x), &n);
			return res(r) + "/" + std::to_string(n);
		}
		if (op == "accept") {
			struct sockaddr_in x;
			socklen_t n = sizeof x;
			int r = a.accept(f, SA(x), &n);
			if (r >= 0)
				a.close(r);
			return r < 0 ? res(r) : "ok";
		}
		return res(a.send(f, "z", 1, MSG_NOSIGNAL));
	}
	void event(const Bytes &ev)
	{
		if (ev == "none")
			return;
		if (ev.compare(0, 4, "self") == 0) {
			a.shutdown(f, ev == "self.rdwr" ? SHUT_RDWR : ev == "self.rd" ? SHUT_RD : SHUT_WR);
			return;
		}
		if (ev == "peer.data") {
			struct sockaddr_in to = op == "recvfrom" ? in4(u.la, 5198) : in4(w.la, w.port);
			if (op == "recvfrom")
				a.sendto(p, "abc", 3, MSG_NOSIGNAL, SA(to), sizeof to);
			else if (op == "accept")
				a.connect(p, SA(to), sizeof to);
			else
				a.send(p, "abc", 3, MSG_NOSIGNAL);
		} else if (ev == "peer.wr")
			a.shutdown(p, SHUT_WR);
		else if (ev == "peer.close") {
			a.close(p);
			p = w.B = -1;
		} else if (ev == "peer.closeunread") {
			if (op != "send") // something it has not read
				a.send(f, "u", 1, MSG_NOSIGNAL);
			a.close(p);
			p = w.B = -1;
		} else if (ev == "peer.abort") {
			if (a.real) {
				struct linger l = { 1, 0 };
				setsockopt(p, SOL_SOCKET, SO_LINGER, &l, sizeof l);
				close(p);
			} else
				sim_abort_fd(p);
			p = w.B = -1;
		} else if (ev == "peer.read") {
			static char big[65536];
			for (int i = 0; i < 40; i++) {
				if (ready(a, p)) {
					if (a.recv(p, big, sizeof big, 0) <= 0)
						break;
				} else if (a.real)
					usleep(2000);
			}
		}
	}
	Bytes after()
	{
		if (op == "accept")
			return "";
		Bytes r;
		if (op.compare(0, 7, "connect") == 0) {
			char b[4];
			return res(a.send(f, "s", 1, MSG_NOSIGNAL)) + "," + res(a.recv(f, b, 1, 0)) + "," + res(a.shutdown(f, SHUT_RDWR));
		}
		if (op == "recvfrom") {
			struct sockaddr_in to = in4(u.ca, 5199);
			r = res(a.sendto(f, "s", 1, MSG_NOSIGNAL, SA(to), sizeof to));
			return r + "," + (ready(a, f) ? blocked() : "blocks");
		}
		struct pollfd q = { f, POLLOUT, 0 };
		a.poll(&q, 1, 0);
		if (op == "recv") {
			r = q.revents ? res(a.send(f, "s", 1, MSG_NOSIGNAL)) : "blocks";
			return r + "," + (ready(a, f) ? blocked() : "blocks");
		}
		return q.revents ? blocked() : "blocks";
	}
	void down()
	{
		for (int q : full)
			if (q >= 0)
				close(q);
		if (op == "recvfrom")
			u.down();
		else
			w.down();
	}
};

SCENARIO(conform_block, 0, false)
{
	Bytes op = BLOCKED[choose(6, "blocked")];
	std::vector<const char *> evs;
	for (const char *e : EVENTS)
		if (event_fits(op, e))
			evs.push_back(e);
	Bytes ev = evs[choose((int)evs.size(), "event")];

	// simulated
	Blk s(SIM, ip("127.0.0.1"), op);
	s.up();
	Bytes sr = "blocked", sa;
	Fiber *f = spawn("blocked", FK_SUT, [&] { sr = s.blocked(); });
	quiesce();
	CHECK(sr == "blocked", "conform", "simulated %s does not block: %s", op.c_str(), sr.c_str());
	s.event(ev);
	quiesce();
	sa = sr == "blocked" ? Bytes("-") : s.after();
	if (sr == "blocked") { // end it
		Bytes keep = sr;
		mc_shutdown(s.f, SHUT_RDWR);
		join_fiber(f);
		sr = keep;
	} else
		join_fiber(f);

	// real: the descriptors are shared with a child process which blocks
	Blk r(REAL, real_base(), op);
	r.up();
	char *mem = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pid_t pid = fork();
	if (pid == 0) {
		if (r.p >= 0)
			close(r.p); // its other end belongs to the parent
		mem[4000] = 1;
		strcpy(mem + 1, r.blocked().c_str());
		__sync_synchronize();
		mem[0] = 1;
		_exit(0);
	}
	while (!((volatile char *)mem)[4000])
		usleep(1000);
	usleep(30000);
	Bytes rr = "blocked", ra;
	CHECK(!mem[0], "conform", "real %s does not block: %s", op.c_str(), mem + 1);
	r.event(ev);
	for (int i = 0; i < 100 && !mem[0]; i++)
		usleep(4000);
	if (mem[0])
		rr = mem + 1;
	ra = rr == "blocked" ? Bytes("-") : r.after();
	kill(pid, SIGKILL);
	waitpid(pid, nullptr, 0);
	munmap(mem, 4096);
	r.down();
	s.down();
	outcome("%s %s: %s then %s", op.c_str(), ev.c_str(), sr.c_str(), sa.c_str());
	CHECK(sr == rr, "conform", "%s with %s: simulated %s, real %s", op.c_str(), ev.c_str(), sr.c_str(), rr.c_str());
	CHECK(sa == ra, "conform", "%s with %s, afterwards: simulated %s, real %s", op.c_str(), ev.c_str(), sa.c_str(), ra.c_str());
}

// Address look-ups which need no network
SCENARIO(conform_addr, 0, false)
{
	static const char *HOSTS[] = { nullptr, "127.0.0.1", "10.0.0.1", "0.0.0.0", "::1", "2001:db8::7" };
	static const int FAM[] = { AF_INET, AF_UNSPEC, AF_INET6 };
	static const char *PORTS[] = { nullptr, "0", "8100", "65535", "x", "" };
	const char *h = HOSTS[choose(6, "host")], *p = PORTS[choose(6, "port")];
	int passive = choose(2, "passive"), type = choose(2, "type") ? SOCK_STREAM : SOCK_DGRAM;
	struct addrinfo hints, *a = nullptr, *b = nullptr;
	int fam = FAM[choose(3, "family")];
	if (!h && (!p || fam == AF_INET6 || (fam == AF_UNSPEC && !passive)))
		return;
	memset(&hints, 0, sizeof hints);
	hints.ai_family = fam;
	hints.ai_socktype = type;
	if (passive)
		hints.ai_flags = AI_PASSIVE;
	int x = mc_getaddrinfo(h, p, &hints, &a), y = getaddrinfo(h, p, &hints, &b);
	CHECK((x == 0) == (y == 0), "conform", "getaddrinfo(%s, %s, family %d): %d, really %d", h ? h : "NULL", p ? p : "NULL", fam, x, y);
	if (!x) {
		CHECK(a->ai_family == b->ai_family && a->ai_addrlen == b->ai_addrlen && !memcmp(a->ai_addr, b->ai_addr, a->ai_addrlen) && a->ai_socktype == b->ai_socktype &&
			      a->ai_protocol == b->ai_protocol,
		      "conform", "getaddrinfo(%s, %s) differs", h ? h : "NULL", p ? p : "NULL");
		mc_freeaddrinfo(a);
		freeaddrinfo(b);
	}
	count_case(x);
}

// Streams: what is read from, or becomes of, a file.
extern "C" {
FILE *mc_fopen(const char *, const char *);
int mc_fclose(FILE *);
char *mc_fgets(char *, int, FILE *);
int mc_fgetc(FILE *);
ssize_t mc_getline(char **, size_t *, FILE *);
size_t mc_fread(void *, size_t, size_t, FILE *);
size_t mc_fwrite(const void *, size_t, size_t, FILE *);
int mc_fputs(const char *, FILE *);
int mc_fputc(int, FILE *);
int mc_ungetc(int, FILE *);
int mc_feof(FILE *);
int mc_ferror(FILE *);
void mc_clearerr(FILE *);
int mc_fflush(FILE *);
void mc_free(void *);
int mc_access(const char *, int);
int mc_fprintf(FILE *, const char *, ...);
}

struct Io {
	bool real;
	FILE *f = nullptr;
	char *line = nullptr;
	size_t cap = 0;
	std::string path;
	Bytes run(int op)
	{
		char b[32];
		memset(b, '#', sizeof b);
		switch (op) {
		case 0: { // small line buffer
			char *r = real ? fgets(b, 3, f) : mc_fgets(b, 3, f);
			return r ? "s:" + Bytes(b) : "null";
		}
		case 1: {
			char *r = real ? fgets(b, 32, f) : mc_fgets(b, 32, f);
			return r ? "s:" + Bytes(b) : "null";
		}
		case 2:
			return std::to_string(real ? fgetc(f) : mc_fgetc(f));
		case 3: {
			ssize_t r = real ? getline(&line, &cap, f) : mc_getline(&line, &cap, f);
			return r < 0 ? "-1" : std::to_string(r) + ":" + Bytes(line, r);
		}
		case 4: {
			size_t r = real ? fread(b, 1, 2, f) : mc_fread(b, 1, 2, f);
			return std::to_string(r) + ":" + Bytes(b, r);
		}
		case 5:
			return std::to_string(!!(real ? feof(f) : mc_feof(f))) + std::to_string(!!(real ? ferror(f) : mc_ferror(f)));
		case 6:
			return std::to_string(real ? ungetc('z', f) : mc_ungetc('z', f));
		case 7:
			real ? clearerr(f) : mc_clearerr(f);
			return "ok";
		case 8: {
			char *r = real ? fgets(b, 1, f) : mc_fgets(b, 1, f);
			return r ? "s:" + Bytes(b) : "null";
		}
		}
		return "?";
	}
};
SCENARIO(conform_read, 0, false)
{
	static const char *ALPHA[] = { "a", "\n", "\r", "b" };
	Bytes content;
	int n = choose(5, "length");
	for (int i = 0; i < n; i++)
		content += ALPHA[choose(3, "byte")];
	char path[64];
	snprintf(path, sizeof path, "/tmp/elmc-conform.%d", getpid());
	FILE *w = fopen(path, "w");
	fwrite(content.data(), 1, content.size(), w);
	fclose(w);
	SS->files["/x"] = content;
	Io s{ false }, r{ true };
	s.f = mc_fopen("/x", "r");
	r.f = fopen(path, "r");
	unlink(path);
	CHECK(s.f && r.f, "conform-setup", "open");
	Bytes hist;
	bool unget = false;
	for (int d = 0; d < g_arg; d++) {
		int op = choose(9, "op");
		if (op == 6 && unget)
			break; // more than one byte pushed back: not portable
		unget |= op == 6;
		Bytes x = s.run(op), y = r.run(op);
		compare(("op " + std::to_string(op) + " on " + std::to_string(n) + " bytes").c_str(), x, y, hist);
		hist += " " + std::to_string(op) + "=" + x;
	}
	mc_fclose(s.f);
	fclose(r.f);
	mc_free(s.line);
	free(r.line);
	count_case(std::hash<std::string>()(content + hist));
}
SCENARIO(conform_write, 0, false)
{
	char path[64];
	snprintf(path, sizeof path, "/tmp/elmc-conform.%d", getpid());
	unlink(path);
	FILE *s = nullptr, *r = nullptr;
	Bytes hist;
	if (choose(2, "exists")) {
		SS->files["/x"] = "old";
		FILE *w = fopen(path, "w");
		fputs("old", w);
		fclose(w);
	}
	for (int d = 0; d < g_arg; d++) {
		static const char *MODES[] = { "w", "a", "r" };
		int op = s ? 3 + choose(5, "op") : choose(3, "open");
		Bytes x, y;
		if (op < 3) {
			s = mc_fopen("/x", MODES[op]);
			x = s ? "ok" : strerrorname_np(errno);
			r = fopen(path, MODES[op]);
			y = r ? "ok" : strerrorname_np(errno);
		} else if (op == 3) {
			x = std::to_string(mc_fclose(s));
			y = std::to_string(fclose(r));
			s = r = nullptr;
		} else if (op == 4) {
			x = mc_fputs("line\n", s) >= 0 ? "ok" : "fails";
			y = fputs("line\n", r) >= 0 ? "ok" : "fails";
		} else if (op == 5) {
			x = std::to_string(mc_fprintf(s, "%s-%d", "abc", 7));
			y = std::to_string(fprintf(r, "%s-%d", "abc", 7));
		} else if (op == 6) {
			x = std::to_string(mc_fputc('q', s)) + std::to_string(mc_fwrite("12345", 2, 2, s));
			y = std::to_string(fputc('q', r)) + std::to_string(fwrite("12345", 2, 2, r));
		} else {
			x = std::to_string(mc_fflush(s));
			y = std::to_string(fflush(r));
		}
		compare(("op " + std::to_string(op)).c_str(), x, y, hist);
		hist += " " + std::to_string(op) + "=" + x;
		if (!s || op == 7) { // what everybody sees now
			Bytes c;
			bool have = false;
			if (FILE *q = fopen(path, "r")) {
				char b[256];
				c.assign(b, fread(b, 1, sizeof b, q));
				fclose(q);
				have = true;
			}
			CHECK(have == (SS->files.count("/x") != 0), "conform", "existence of the file after%s", hist.c_str());
			CHECK(!have || c == SS->files["/x"], "conform", "content after%s: simulated \"%s\", real \"%s\"", hist.c_str(), SS->files["/x"].c_str(),
			      c.c_str());
		}
	}
	if (s) {
		mc_fclose(s);
		fclose(r);
	}
	unlink(path);
	count_case(std::hash<std::string>()(hist));
}

// Locks and semaphores: what one thread gets when it does not have to wait.
extern "C" {
int mc_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int mc_pthread_mutex_lock(pthread_mutex_t *);
int mc_pthread_mutex_trylock(pthread_mutex_t *);
int mc_pthread_mutex_unlock(pthread_mutex_t *);
int mc_pthread_mutex_destroy(pthread_mutex_t *);
int mc_pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *);
int mc_pthread_rwlock_tryrdlock(pthread_rwlock_t *);
int mc_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int mc_pthread_rwlock_unlock(pthread_rwlock_t *);
int mc_pthread_rwlock_destroy(pthread_rwlock_t *);
int mc_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int mc_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int mc_pthread_cond_signal(pthread_cond_t *);
int mc_pthread_cond_broadcast(pthread_cond_t *);
int mc_pthread_cond_destroy(pthread_cond_t *);
}
#include <pthread.h>
SCENARIO(conform_lock, 0, false)
{
	pthread_mutex_t ms, mr;
	pthread_rwlock_t ws, wr;
	pthread_cond_t cs, cr;
	mc_pthread_mutex_init(&ms, nullptr);
	pthread_mutex_init(&mr, nullptr);
	mc_pthread_rwlock_init(&ws, nullptr);
	pthread_rwlock_init(&wr, nullptr);
	mc_pthread_cond_init(&cs, nullptr);
	pthread_cond_init(&cr, nullptr);
	Bytes hist;
	int held = 0, rd = 0, w = 0;
	for (int d = 0; d < g_arg; d++) {
		int op = choose(9, "op"), x = 0, y = 0;
		struct timespec past = { 1, 0 }, bad = { 1, 1000000000 };
		switch (op) {
		case 0:
			x = mc_pthread_mutex_trylock(&ms);
			y = pthread_mutex_trylock(&mr);
			held |= !x;
			break;
		case 1:
			if (held) {
				x = mc_pthread_mutex_unlock(&ms);
				y = pthread_mutex_unlock(&mr);
				held = 0;
			}
			break;
		case 2:
			x = mc_pthread_rwlock_tryrdlock(&ws);
			y = pthread_rwlock_tryrdlock(&wr);
			rd += !x;
			break;
		case 3:
			x = mc_pthread_rwlock_trywrlock(&ws);
			y = pthread_rwlock_trywrlock(&wr);
			w += !x;
			break;
		case 4:
			if (rd || w) {
				x = mc_pthread_rwlock_unlock(&ws);
				y = pthread_rwlock_unlock(&wr);
				if (w)
					w = 0;
				else
					rd--;
			}
			break;
		case 5:
			if (held) {
				x = mc_pthread_cond_timedwait(&cs, &ms, &past);
				y = pthread_cond_timedwait(&cr, &mr, &past);
			}
			break;
		case 6:
			if (held) {
				x = mc_pthread_cond_timedwait(&cs, &ms, &bad);
				y = pthread_cond_timedwait(&cr, &mr, &bad);
			}
			break;
		case 7:
			x = mc_pthread_cond_signal(&cs);
			y = pthread_cond_signal(&cr);
			break;
		case 8:
			x = mc_pthread_cond_broadcast(&cs);
			y = pthread_cond_broadcast(&cr);
			break;
		}
		compare(("op " + std::to_string(op)).c_str(), std::to_string(x), std::to_string(y), hist);
		hist += " " + std::to_string(op) + "=" + std::to_string(x);
	}
	if (held) {
		mc_pthread_mutex_unlock(&ms);
		pthread_mutex_unlock(&mr);
	}
	for (; rd + w > 0; w ? w-- : rd--) {
		mc_pthread_rwlock_unlock(&ws);
		pthread_rwlock_unlock(&wr);
	}
	mc_pthread_mutex_destroy(&ms);
	mc_pthread_rwlock_destroy(&ws);
	mc_pthread_cond_destroy(&cs);
	count_case(std::hash<std::string>()(hist));
}
