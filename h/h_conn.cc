// Connection objects on their own (C14).
#include "ref.h"
#include "sim.h"
#include <arpa/inet.h>
#include <cerrno>
extern "C" {
#include "conn.h"
}
using namespace mc;
using mc::Bytes;

static const char *LOC = "10.0.0.1";
static const char *REM = "198.51.100.7";

struct Cn {
	conn_handle c;
	Cn(CONN_TYPE t = CONN_TYPE_TCP, const char *addr = nullptr, const char *port = nullptr)
	{
		memset(&c, 0, sizeof c);
		c.type = t;
		c.source_addr = addr;
		c.source_port = port;
		CHECK(conn_init(&c) == 0, "setup", "conn_init");
	}
	~Cn() { conn_free(&c); }
	conn_handle *operator&() { return &c; }
};

static Bytes pattern(size_t n, int seed = 1)
{
	Bytes r;
	for (size_t i = 0; i < n; i++)
		r.push_back((char)((i * 7 + i / 251 * 13 + seed * 101) & 0xff));
	return r;
}

// every way to cut n into pieces (n > 0), as a choice
static std::vector<size_t> composition(size_t n, const char *label)
{
	int k = choose(1 << (n - 1), label);
	std::vector<size_t> v;
	size_t run = 1;
	for (size_t i = 0; i + 1 < n; i++) {
		if (k >> i & 1) {
			v.push_back(run);
			run = 1;
		} else
			run++;
	}
	v.push_back(run);
	return v;
}

// An established TCP connection, as the proxy's listener accepts it or as it connects to a remote host.
struct Tcp {
	bool accepted;
	Cn l, c;
	Sock *p = nullptr;
	Tcp(bool acc) : accepted(acc), l(CONN_TYPE_TCP, LOC, "8100"), c(CONN_TYPE_TCP, LOC) {}
	void up(u16 rport = 5200)
	{
		bool f = g_focus;
		u32 flt = g_faults;
		g_focus = false;
		g_faults = 0;
		Fiber *pf;
		if (accepted) {
			CHECK(conn_listen(&l) == 0, "setup", "listen");
			pf = spawn("peer", FK_PEER, [this] {
				p = peer_connect(REM, 40000, LOC, 8100);
			});
			CHECK(conn_accept(&l, &c) == 0, "setup", "accept");
		} else {
			Sock *pl = peer_listen(REM, rport);
			pf = spawn("peer", FK_PEER, [this, pl] {
				p = peer_accept(pl);
				peer_close(pl);
			});
			CHECK(conn_connect(&c, REM, std::to_string(rport).c_str()) == 0, "setup", "connect");
		}
		join_fiber(pf);
		CHECK(p != nullptr, "setup", "no connection");
		CHECK(conn_in_use(&c) == 1 && (!accepted || conn_in_use(&l) == 1), "in-use", "an established connection is not in use");
		g_focus = f;
		g_faults = flt;
	}
	void down()
	{
		conn_close(&c);
		conn_close(&l);
		CHECK(live_socks() == 0, "leak-socket", "descriptors open after closing: %s", describe_live_socks().c_str());
		CHECK(conn_in_use(&c) == 0, "in-use", "a closed connection is in use");
	}
};

static const size_t STREAM = 5;

// Receiving: every segmentation of the stream x every sequence of receive sizes x how the stream ends.
SCENARIO(conn_recv_seq, F_SHORT_RECV | F_RECVERR)
{
	{
		Tcp t(choose(2, "accepted"));
		t.up();
		Bytes data = pattern(STREAM);
		std::vector<size_t> in = composition(STREAM, "segments");
		std::vector<size_t> out = composition(STREAM, "receives");
		int any = choose(3, "any"); // 0: exact receives only; 1: the first one of any length; 2: the last one
		int end = choose(3, "end"); // the stream stays open, ends, or is reset after the data was read
		Fiber *pf = spawn("peer", FK_PEER, [&] {
			size_t o = 0;
			for (size_t n : in) {
				if (peer_send(t.p, data.substr(o, n)) < 0)
					return;
				o += n;
			}
			if (end == 1)
				peer_shutdown_wr(t.p);
		});
		size_t pos = 0;
		bool err = false;
		std::vector<u8> buf(16);
		for (size_t i = 0; i < out.size() && !err; i++) {
			memset(buf.data(), 0xEE, buf.size());
			size_t n = out[i];
			bool a = (any == 1 && i == 0) || (any == 2 && i + 1 == out.size());
			if (a) {
				u32 addr = 0;
				u16 port = 0;
				int r = conn_recv_any(&t.c, buf.data(), n, &addr, &port);
				err = r < 0;
				CHECK(r != 0, "recv-any", "receiving any amount returned 0 on an open stream");
				if (r > 0) {
					CHECK(r <= (int)n, "recv-any", "received %d bytes into %zu", r, n);
					CHECK(!memcmp(buf.data(), data.data() + pos, r), "recv-content", "wrong bytes at %zu", pos);
					pos += r;
				}
			} else {
				int want = (int)std::min(n, STREAM - pos); // an earlier receive may have been short
				int r = conn_recv(&t.c, buf.data(), want);
				err = r < 0;
				if (r >= 0) {
					CHECK(r == 0 || r == want, "recv-count", "a receive of %d bytes returned %d", want, r);
					CHECK(!memcmp(buf.data(), data.data() + pos, want), "recv-content",
					      "a receive of %d bytes at %zu did not return the next bytes", want, pos);
					pos += want;
				}
			}
			for (size_t k = n; k < buf.size(); k++)
				CHECK(buf[k] == 0xEE, "recv-overrun", "wrote beyond %zu bytes", n);
		}
		CHECK(!err || faults_taken(), "recv-error", "a receive failed although the stream was intact");
		if (!err) {
			// the rest, byte by byte
			while (pos < STREAM && !err) {
				err = conn_recv(&t.c, buf.data(), 1) < 0;
				CHECK(err || buf[0] == (u8)data[pos], "recv-content", "wrong byte at %zu", pos);
				pos++;
			}
			CHECK(!err || faults_taken(), "recv-error", "a receive failed although the stream was intact");
			if (end && !err) {
				if (end == 2) {
					join_fiber(pf);
					peer_abort(t.p);
				}
				CHECK(conn_recv(&t.c, buf.data(), 1) < 0, "recv-end", "a receive after the end of the stream succeeded");
				CHECK(conn_recv_any(&t.c, buf.data(), 1, nullptr, nullptr) < 0, "recv-end",
				      "a receive of any amount after the end of the stream succeeded");
			}
		}
		join_fiber(pf);
		outcome("%zu %d %d", pos, err, end);
		t.down();
	}
	check_no_leaks("leak");
}

// A stream which ends within an exact receive makes it fail.
SCENARIO(conn_recv_cut, F_SHORT_RECV)
{
	{
		Tcp t(choose(2, "accepted"));
		t.up();
		int have = choose(5, "have"), how = choose(2, "how");
		Fiber *pf = spawn("peer", FK_PEER, [&] {
			if (have)
				peer_send(t.p, pattern(have));
			how ? peer_abort(t.p) : peer_shutdown_wr(t.p);
		});
		u8 b[5];
		int r = conn_recv(&t.c, b, 5);
		CHECK(r < 0, "recv-cut", "a receive of 5 bytes returned %d although only %d arrived", r, have);
		join_fiber(pf);
		t.down();
		outcome("%d", have);
	}
	check_no_leaks("leak");
}

// Sending: sizes around the kernel's buffer, partial sends, a slow reader.
SCENARIO(conn_send_seq, F_SHORT_SEND | F_SENDERR)
{
	{
		static const size_t CAP[] = { 1u << 20, 1, 3, 4096 };
		static const size_t LEN[] = { 1, 2, 5, 9, 4105, 70000 };
		NC.capacity = CAP[choose(4, "capacity")];
		Tcp t(choose(2, "accepted"));
		t.up();
		int n1 = choose(6, "first"), n2 = choose(4, "second");
		if (NC.capacity < 100 && n1 > 3)
			n1 = 3;
		Bytes a = pattern(LEN[n1], 1), b = pattern(LEN[n2], 2);
		int stop = choose(3, "reader"); // reads everything; leaves after the first bytes; is reset
		Bytes got;
		Fiber *pf = spawn("peer", FK_PEER, [&] {
			if (stop == 0)
				got = peer_recv(t.p, a.size() + b.size());
			else {
				got = peer_recv(t.p, 1);
				stop == 1 ? peer_close(t.p) : peer_abort(t.p);
			}
		});
		int r1 = conn_send(&t.c, (const u8 *)a.data(), a.size());
		int r2 = r1 < 0 ? -1 : conn_send(&t.c, (const u8 *)b.data(), b.size());
		CHECK(r1 <= 0 && r2 <= 0, "send-result", "send returned %d, %d", r1, r2);
		if (r1 == 0 && r2 == 0 && stop == 0) {
			join_fiber(pf);
			CHECK(got == a + b, "send-content", "sent %zu+%zu bytes, but other bytes arrived", a.size(), b.size());
		}
		CHECK(stop || faults_taken() || (r1 == 0 && r2 == 0), "send-error", "a send failed on an intact connection");
		t.down();
		join_fiber(pf);
		Bytes all = a + b;
		CHECK(got == all.substr(0, got.size()), "send-order", "bytes arrived which are not a prefix of those sent");
		outcome("%zu %zu %d %d %d", a.size(), b.size(), stop, r1, r2);
	}
	check_no_leaks("leak");
}

// Two threads sending whole buffers: sends are serialised by the caller, receives and sends are independent.
SCENARIO(conn_duplex, F_SHORT_SEND | F_SHORT_RECV)
{
	{
		NC.capacity = choose(2, "capacity") ? 2 : 1u << 20;
		Tcp t(choose(2, "accepted"));
		t.up();
		g_focus = true;
		Bytes a = pattern(4, 1), b = pattern(4, 2), got;
		u8 buf[4];
		Fiber *pf = spawn("peer rx", FK_PEER, [&] { got = peer_recv(t.p, 4); });
		Fiber *qf = spawn("peer tx", FK_PEER, [&] { peer_send(t.p, b); });
		Fiber *sf = spawn("sender", FK_SUT, [&] {
			CHECK(conn_send(&t.c, (const u8 *)a.data(), 4) == 0, "send-error", "send");
		});
		Fiber *rf = spawn("receiver", FK_SUT, [&] {
			CHECK(conn_recv(&t.c, buf, 4) >= 0, "recv-error", "recv");
		});
		join_fiber(sf);
		join_fiber(rf);
		join_fiber(pf);
		join_fiber(qf);
		CHECK(got == a && !memcmp(buf, b.data(), 4), "content", "the bytes differ");
		t.down();
		outcome("%zu", NC.capacity);
	}
	check_no_leaks("leak");
}

// One thread in an operation, another one cancels; then the object is used again.
SCENARIO(conn_cancel, 0)
{
	{
		enum { RECV, ANY, SEND, ACCEPT, CONNECT, URECV, USEND, NOPS };
		int op = choose(NOPS, "operation");
		int how = choose(op == CONNECT || op == ACCEPT || op == URECV || op == USEND ? 2 : 3, "cancel"); // shutdown, close, drop
		bool acc = op <= SEND ? choose(2, "accepted") : false;
		if (how == 2)
			acc = true; // only an accepted connection can be dropped
		if (op == CONNECT)
			how = 0; // closing requires that connecting has returned
		int traffic = op <= SEND || op == URECV || op == ACCEPT ? choose(2, "traffic") : 0;
		NC.capacity = 3;
		Tcp t(acc);
		Cn u(CONN_TYPE_UDP, LOC, "5198");
		conn_handle *target = nullptr;
		if (op <= SEND) {
			t.up();
			target = &t.c;
		} else if (op == ACCEPT) {
			CHECK(conn_listen(&t.l) == 0, "setup", "listen");
			target = &t.l;
		} else if (op == CONNECT) {
			peer_mode(REM, 5200, CM_BLACKHOLE);
			target = &t.c;
		} else {
			CHECK(conn_listen(&u) == 0, "setup", "listen");
			target = &u;
		}
		g_focus = true;
		u8 buf[64];
		int r = 99, rounds = 0;
		bool cancelled = false, blocked = false;
		u64 tc = 0, te = 0;
		auto once = [&]() -> int {
			switch (op) {
			case RECV:
				return conn_recv(target, buf, 2);
			case ANY:
			case URECV:
				return conn_recv_any(target, buf, sizeof buf, nullptr, nullptr);
			case SEND:
				return conn_send(target, buf, 8);
			case ACCEPT: {
				int q = conn_accept(target, &t.c);
				if (q == 0)
					conn_close(&t.c);
				return q;
			}
			case CONNECT:
				return conn_connect(target, REM, "5200");
			default:
				return conn_send_to(target, buf, 4, ip(REM), 5198);
			}
		};
		Fiber *of = spawn("operator", FK_SUT, [&] {
			for (;;) {
				r = once();
				rounds++;
				CHECK(rounds < 20, "cancel", "operations keep succeeding after cancellation");
				if (r < 0 || op == CONNECT)
					break;
				if (op == USEND && rounds == 2)
					break;
			}
			te = vnow();
		});
		Fiber *pf = spawn("peer", FK_PEER, [&] {
			if (!traffic)
				return;
			if (op == ACCEPT) {
				Sock *p = peer_connect(REM, 40001, LOC, 8100);
				if (p)
					peer_close(p);
			} else if (op == URECV)
				peer_sendto(REM, 5198, ip(LOC), 5198, "datagram");
			else if (op == SEND)
				peer_recv(t.p, 2);
			else
				peer_send(t.p, "abc");
		});
		Fiber *cf = spawn("canceller", FK_SUT, [&] {
			if (op == CONNECT) {
				// cancelling works from the time when the socket exists
				struct W {
					static bool en(void *) { return sut_open().tcp_connecting > 0; }
				};
				point("connecting", nullptr, W::en, nullptr);
			}
			tc = vnow();
			cancelled = true;
			how == 0 ? conn_shutdown(target) : how == 1 ? conn_close(target) : conn_drop(target);
			CHECK(vnow() == tc, "cancel-delay", "cancelling took %lu ns", (unsigned long)(vnow() - tc));
		});
		join_fiber(cf);
		join_fiber(of);
		join_fiber(pf);
		CHECK(te == tc || (op == USEND), "cancel-delay", "the operation returned %lu ns after it was cancelled", (unsigned long)(te - tc));
		CHECK(r < 0 || op == USEND, "cancel", "a cancelled operation returned %d", r);
		// and later operations fail at once
		g_focus = false;
		u64 t1 = vnow();
		if (op != CONNECT && op != ACCEPT) {
			int n = 0;
			while (once() >= 0)
				CHECK(++n < 8, "cancel-later", "operations succeed after cancellation");
			CHECK(vnow() == t1, "cancel-delay", "a later operation waited");
		} else if (op == ACCEPT && how == 0) {
			CHECK(conn_accept(target, &t.c) < 0 && vnow() == t1, "cancel-later", "a later accept succeeded or waited");
		}
		if (op == SEND && how != 1)
			CHECK(conn_recv(target, buf, 60) < 0, "cancel-later", "a receive succeeds after cancellation");
		if (op == RECV && how != 1)
			CHECK(conn_send(target, buf, 1) < 0, "cancel-later", "a send succeeds after cancellation");
		conn_close(target);
		if (op <= SEND && how != 1)
			conn_close(target); // closing twice is harmless
		CHECK(conn_in_use(target) == 0, "in-use", "a closed connection is in use");
		CHECK(sut_open().tcp_conn == 0 && sut_open().udp == 0 && sut_open().tcp_connecting == 0 && sut_open().other == 0,
		      "leak-socket", "descriptors open after closing: %s", describe_live_socks().c_str());
		// the object can be used again
		if (t.p)
			peer_close(t.p);
		conn_close(&t.l);
		if (op >= URECV) {
			CHECK(conn_listen(&u) == 0, "reuse", "a closed object cannot be opened again");
			peer_sendto(REM, 5198, ip(LOC), 5198, "again");
			u32 a = 0;
			CHECK(conn_recv_any(&u, buf, sizeof buf, &a, nullptr) == 5 && a == ip(REM), "reuse", "receiving after reuse");
			CHECK(conn_send_to(&u, buf, 5, a, 5198) == 0, "reuse", "sending after reuse");
			conn_close(&u);
		} else {
			t.p = nullptr;
			NC.capacity = 1000;
			t.up(5201);
			peer_send(t.p, "again");
			CHECK(conn_recv(&t.c, buf, 5) >= 0 && !memcmp(buf, "again", 5), "reuse", "receiving after reuse");
			CHECK(conn_send(&t.c, (const u8 *)"reply", 5) == 0 && peer_drain(t.p) == "reply", "reuse", "sending after reuse");
			t.down();
		}
		CHECK(live_socks() == 0, "leak-socket", "descriptors open at the end: %s", describe_live_socks().c_str());
		outcome("%d %d %d %d", op, how, traffic, r < 0);
	}
	check_no_leaks("leak");
}

// Setting up fails half-way: an error is returned, nothing stays open, and the next attempt works.
SCENARIO(conn_setup_fault, F_SOCK | F_CONNECT | F_ACCEPT | F_MALLOC | F_PTHREAD)
{
	{
		int op = choose(4, "operation"); // listen TCP, listen UDP, connect, accept
		bool again = choose(2, "again");
		int after = choose(5, "after a failure"); // try again at once, or after shutting down, dropping, closing, all of them
		conn_handle l, c;
		memset(&l, 0, sizeof l);
		memset(&c, 0, sizeof c);
		l.source_addr = LOC;
		l.source_port = op == 1 ? "5199" : "8100";
		l.type = op == 1 ? CONN_TYPE_UDP : CONN_TYPE_TCP;
		c.type = CONN_TYPE_TCP;
		c.source_addr = LOC;
		auto retry = [&](const char *what, std::function<int()> f, bool later) {
			int n0 = live_socks();
			int r = f();
			CHECK(r <= 0, "result", "%s returned %d", what, r);
			if (r < 0) {
				CHECK(faults_taken(), "setup-error", "%s failed (%d) without reason", what, r);
				// a connection which was accepted before the failure belongs to the object until it is dropped
				CHECK(later || live_socks() == n0, "leak-socket", "%s failed but left %s", what, describe_live_socks().c_str());
				conn_handle *h = op == 2 ? &c : &l;
				if (h->priv && op != 3 && after) {
					if (after == 1 || after == 4)
						conn_shutdown(h);
					if (after == 2 || after == 4)
						conn_drop(h);
					if (after >= 3)
						conn_close(h);
				}
				return false;
			}
			return true;
		};
		for (int tries = 0; tries < 4; tries++) {
			if (retry("conn_init", [&] { return conn_init(&l); }, false))
				break;
			CHECK(l.priv == nullptr, "init", "a failed initialization left private data");
		}
		for (int tries = 0; tries < 4; tries++)
			if (retry("conn_init", [&] { return conn_init(&c); }, false))
				break;
		CHECK(l.priv && c.priv, "init", "initialization keeps failing");
		for (int round = 0; round < (again ? 2 : 1); round++) {
			if (op != 2) {
				bool ok = false;
				for (int tries = 0; tries < 4 && !ok; tries++) {
					ok = retry("conn_listen", [&] { return conn_listen(&l); }, false);
					CHECK(ok || conn_in_use(&l) == 0, "in-use", "in use after a failure");
				}
				CHECK(ok, "setup", "listening keeps failing");
			}
			if (op == 3) {
				bool ok = false;
				Sock *p = nullptr;
				for (int tries = 0; tries < 4 && !ok; tries++) {
					if (!p)
						p = peer_connect(REM, 40000 + tries + 10 * round, LOC, 8100);
					CHECK(p != nullptr, "setup", "cannot connect");
					ok = retry("conn_accept", [&] { return conn_accept(&l, &c); }, true);
					if (!ok) {
						conn_drop(&c);
						conn_close(&c);
						CHECK(sut_open().tcp_conn == 0, "leak-socket", "a connection remains after dropping: %s",
						      describe_live_socks().c_str());
						if (peer_reset_seen(p) || peer_eof(p))
							p = nullptr; // otherwise it is still waiting to be accepted
					} else {
						char a[54];
						conn_get_remote_addr(&c, a);
						char want[64];
						snprintf(want, sizeof want, "%s:%u", REM, sock_lport(p));
						CHECK(!strcmp(a, want), "addr", "remote address %s instead of %s", a, want);
						CHECK(conn_send(&c, (const u8 *)"x", 1) == 0 && peer_drain(p) == "x", "transfer", "the connection does not work");
					}
				}
				CHECK(ok, "setup", "accepting keeps failing");
			}
			if (op == 2) {
				Sock *pl = peer_listen(REM, 5200);
				bool ok = false;
				for (int tries = 0; tries < 4 && !ok; tries++) {
					ok = retry("conn_connect", [&] { return conn_connect(&c, REM, "5200"); }, false);
					CHECK(ok || conn_in_use(&c) == 0, "in-use", "in use after a failure");
				}
				CHECK(ok, "setup", "connecting keeps failing");
				Sock *p = peer_accept(pl);
				CHECK(p && sock_raddr(p) == ip(LOC), "source", "the connection comes from %s", ipstr(sock_raddr(p)).c_str());
				CHECK(conn_send(&c, (const u8 *)"x", 1) == 0 && peer_drain(p) == "x", "transfer", "the connection does not work");
				peer_close(pl);
			}
			conn_close(&c);
			conn_close(&l);
			CHECK(live_socks() == 0, "leak-socket", "descriptors open after closing: %s", describe_live_socks().c_str());
		}
		conn_free(&c);
		conn_free(&l);
		CHECK(!c.priv && !l.priv, "free", "freed objects keep private data");
		outcome("%d %d %d", op, again, faults_taken());
	}
	check_no_leaks("leak");
}

// Connecting to hosts which refuse, cannot be reached, or whose name or port is invalid.
SCENARIO(conn_refused, 0)
{
	{
		static const char *HOST[] = { REM, "no-such-host.example", "www.echolink.org" };
		static const char *PORT[] = { "5200", "65536", "x", "0" };
		int h = choose(3, "host"), p = choose(4, "port"), m = choose(4, "mode");
		bool bound = choose(2, "source");
		Cn c(CONN_TYPE_TCP, bound ? "192.0.2.9" : nullptr);
		if (m)
			peer_mode(HOST[h] == REM ? REM : "198.51.100.80", 5200, (ConnectMode)(m - 1));
		u64 t0 = vnow();
		for (int i = 0; i < 2; i++) {
			int r = conn_connect(&c, HOST[h], PORT[p]);
			CHECK(r < 0, "connect", "connecting to %s:%s returned %d", HOST[h], PORT[p], r);
			CHECK(live_socks() == 0 && conn_in_use(&c) == 0, "leak-socket", "a failed connection left %s", describe_live_socks().c_str());
		}
		u8 b[4];
		CHECK(conn_recv(&c, b, 4) < 0 && conn_send(&c, b, 4) < 0 && conn_recv_any(&c, b, 4, nullptr, nullptr) < 0, "unconnected",
		      "transfers on an unconnected object succeed");
		CHECK(vnow() - t0 <= 300ull * 1000000000ull, "delay", "took too long");
		outcome("%d %d %d %d", h, p, m, bound);
	}
	check_no_leaks("leak");
}

// The same object again and again, more often than 16 bits can count.
SCENARIO(conn_many, 0, false, 100000000)
{
	{
		int kind = choose(5, "kind"), times = 66000;
		g_focus = false;
		Sock *pl = peer_listen(REM, 5200);
		Cn l(CONN_TYPE_TCP, LOC, "8100"), c(CONN_TYPE_TCP, LOC), u(CONN_TYPE_UDP, LOC, "5198");
		Sock *p = nullptr;
		if (kind == 1)
			CHECK(conn_listen(&l) == 0, "setup", "listen");
		if (kind == 3 || kind == 4) {
			CHECK(conn_connect(&c, REM, "5200") == 0, "setup", "connect");
			p = peer_accept(pl);
			CHECK(p != nullptr, "setup", "accept");
		}
		if (kind == 4)
			CHECK(conn_listen(&u) == 0, "setup", "UDP");
		for (int i = 0; i < times; i++) {
			Bytes tag = "#" + std::to_string(i);
			u8 b[16];
			if (i % 200 == 199)
				vsleep(61000000000ull);
			if (kind == 0) {
				CHECK(conn_connect(&c, REM, "5200") == 0, "connect", "connecting, time %d", i);
				p = peer_accept(pl);
				CHECK(p && conn_send(&c, (const u8 *)tag.data(), tag.size()) == 0 && peer_drain(p) == tag, "send", "time %d", i);
				conn_close(&c);
				CHECK(peer_eof(p), "close", "time %d: not closed", i);
				peer_close(p);
			} else if (kind == 1) {
				p = peer_connect(REM, 20000 + i % 40000, LOC, 8100);
				CHECK(p && conn_accept(&l, &c) == 0, "accept", "accepting, time %d", i);
				peer_send(p, tag);
				CHECK(conn_recv(&c, b, tag.size()) == (int)tag.size() && !memcmp(b, tag.data(), tag.size()), "recv", "time %d", i);
				peer_close(p);
				conn_close(&c);
			} else if (kind == 2) {
				CHECK(conn_listen(&u) == 0, "listen", "binding, time %d", i);
				conn_close(&u);
				CHECK(live_socks() == 0, "leak-socket", "time %d: %s", i, describe_live_socks().c_str());
			} else if (kind == 3) {
				CHECK(conn_send(&c, (const u8 *)tag.data(), tag.size()) == 0 && peer_drain(p) == tag, "send", "time %d", i);
				peer_send(p, tag);
				CHECK(conn_recv(&c, b, tag.size()) == (int)tag.size() && !memcmp(b, tag.data(), tag.size()), "recv", "time %d", i);
			} else {
				u32 a = 0;
				u16 q = 0;
				peer_sendto(REM, 5198, ip(LOC), 5198, tag);
				int r = conn_recv_any(&u, b, sizeof b, &a, &q);
				CHECK(r == (int)tag.size() && !memcmp(b, tag.data(), r) && a == ip(REM) && q == 5198, "udp-recv", "time %d", i);
				udp_sent().clear();
				CHECK(conn_send_to(&u, (const u8 *)tag.data(), tag.size(), ip(REM), 5199) == 0 && udp_sent().size() == 1 && udp_sent()[0].data == tag,
				      "udp-send", "time %d", i);
			}
		}
		conn_close(&c);
		conn_close(&l);
		conn_close(&u);
		CHECK(live_socks() == 0, "leak-socket", "%s", describe_live_socks().c_str());
		outcome("%d", kind);
		count_case(kind);
	}
	check_no_leaks("leak");
}

// Operations on an object of the wrong kind or state fail and do nothing.
// Names of remote hosts: whatever else is known about them, their IPv4 address is used.
SCENARIO(conn_names, 0)
{
	{
		static const char *N[] = { "198.51.100.7", "server.example", "2001:db8::7", "nowhere.example" };
		static const int SIX[] = { 0, 1, 2, 5 };
		int n = choose(4, "name"), six = SIX[choose(4, "addresses")];
		bool src = choose(2, "source");
		SS->ipv6 = six;
		Cn c(CONN_TYPE_TCP, src ? LOC : nullptr);
		Sock *pl = peer_listen("198.51.100.7", 5200);
		bool can = n == 0 || (n == 1 && !(six & 4));
		for (int i = 0; i < 2; i++) {
			int r = conn_connect(&c, N[n], "5200");
			CHECK((r == 0) == can && r <= 0, "names", "connecting to %s, which has %s, returned %d", N[n],
			      six & 4 ? "only IPv6 addresses" : six == 1 ? "an IPv6 address followed by an IPv4 address" : six ? "an IPv4 address followed by an IPv6 address" : "an IPv4 address", r);
			if (r == 0) {
				Sock *p = peer_accept(pl);
				CHECK(conn_send(&c, (const u8 *)"x", 1) == 0 && peer_drain(p) == "x", "transfer", "the connection does not work");
				peer_close(p);
			} else
				CHECK(live_socks() == 0 && conn_in_use(&c) == 0, "leak-socket", "a failed connection left %s", describe_live_socks().c_str());
			conn_close(&c);
			CHECK(live_socks() == 0, "leak-socket", "a closed connection left %s", describe_live_socks().c_str());
		}
		peer_close(pl);
		outcome("%d %d", n, can);
	}
	check_no_leaks("leak");
}

SCENARIO(conn_misuse, 0)
{
	{
		bool udp = choose(2, "udp"), open = choose(2, "open");
		Cn c(udp ? CONN_TYPE_UDP : CONN_TYPE_TCP, LOC, udp ? "5198" : "8100");
		if (open)
			CHECK(conn_listen(&c) == 0, "setup", "listen");
		u8 b[8] = { 0 };
		if (udp || !open)
			CHECK(conn_recv(&c, b, 4) < 0, "misuse", "recv succeeded");
		CHECK(conn_send(&c, b, 4) < 0, "misuse", "send succeeded");
		if (!udp || !open)
			CHECK(conn_send_to(&c, b, 4, ip(REM), 1) < 0, "misuse", "send_to succeeded");
		if (udp)
			CHECK(conn_connect(&c, REM, "5200") < 0, "misuse", "connect succeeded");
		if (!open)
			CHECK(conn_recv_any(&c, b, 4, nullptr, nullptr) < 0, "misuse", "recv_any succeeded");
		CHECK(conn_in_use(&c) == (open ? 1 : 0), "in-use", "in use is %d", conn_in_use(&c));
		CHECK(udp_sent().empty(), "misuse", "something was sent");
		conn_shutdown(&c);
		if (!open)
			conn_drop(&c);
		conn_close(&c);
		CHECK(live_socks() == 0, "leak-socket", "descriptors open");
		outcome("%d %d", udp, open);
	}
	check_no_leaks("leak");
}

// Datagrams: sizes, buffers, sender address and port, empty datagrams.
SCENARIO(conn_udp, F_RECVERR | F_SENDTO)
{
	{
		static const size_t LEN[] = { 1, 2, 9, 4087, 4096, 60000 };
		static const char *FROM[] = { "198.51.100.7", "1.2.3.4", "255.1.0.128" };
		static const u16 PORT[] = { 1, 5198, 256, 40000, 65535 };
		Cn u(CONN_TYPE_UDP, choose(2, "bind") ? LOC : nullptr, "5198");
		CHECK(conn_listen(&u) == 0, "setup", "listen");
		size_t n = LEN[choose(6, "length")];
		int f = choose(3, "from"), p = choose(5, "port"), room = choose(3, "room");
		int empties = choose(3, "empty");
		Bytes d = pattern(n);
		for (int i = 0; i < empties; i++)
			peer_sendto(FROM[(f + 1) % 3], 9, ip(LOC), 5198, "");
		peer_sendto(FROM[f], PORT[p], ip(LOC), 5198, d);
		peer_sendto(FROM[(f + 1) % 3], PORT[(p + 1) % 5], ip(LOC), 5198, "next");
		std::vector<u8> b(room == 0 ? n : room == 1 ? n + 3 : (n + 1) / 2);
		u32 a = 0;
		u16 q = 0;
		int r = conn_recv_any(&u, b.data(), b.size(), &a, &q);
		CHECK(r >= 0 || faults_taken(), "udp-recv", "receiving failed (%d)", r);
		if (r >= 0) {
			CHECK(r == (int)std::min(n, b.size()) && !memcmp(b.data(), d.data(), r), "udp-recv", "%d of %zu bytes", r, n);
			CHECK(a == ip(FROM[f]) && q == PORT[p], "udp-addr", "sender %s:%u instead of %s:%u", ipstr(a).c_str(), q, FROM[f], PORT[p]);
			char s[54];
			conn_get_remote_addr(&u, s);
			CHECK(s == Bytes(FROM[f]) + ":" + std::to_string(PORT[p]), "udp-addr", "remote address %s", s);
			u8 c[8];
			r = conn_recv_any(&u, c, 8, &a, nullptr);
			CHECK((r == 4 && !memcmp(c, "next", 4) && a == ip(FROM[(f + 1) % 3])) || faults_taken(), "udp-order", "the next datagram: %d", r);
			g_faults &= ~F_RECVERR;
			r = conn_send_to(&u, (const u8 *)d.data(), n, ip(FROM[f]), PORT[p]);
			CHECK(r == 0 || faults_taken(), "udp-send", "sending failed (%d)", r);
			CHECK(r != 0 || (udp_sent().size() == 1 && udp_sent()[0].data == d && udp_sent()[0].daddr == ip(FROM[f]) &&
					 udp_sent()[0].dport == PORT[p] && udp_sent()[0].sport == 5198),
			      "udp-send", "%zu datagrams sent", udp_sent().size());
			CHECK(r == 0 || udp_sent().empty(), "udp-send", "failed but sent");
		}
		outcome("%zu %d %d %d", n, p, room, r);
	}
	check_no_leaks("leak");
}

// Timeouts: a silent stream ends a receive when the time is over, and not before.
SCENARIO(conn_timeout, 0)
{
	{
		static const u32 MS[] = { 0, 1, 999, 1000, 1500, 10000, 600000 };
		u32 ms = MS[choose(7, "ms")];
		int when = choose(3, "data"); // never, before the timeout, long after it
		Tcp t(choose(2, "accepted"));
		t.up();
		bool any = choose(2, "any"), reset = choose(2, "reset");
		CHECK(conn_set_timeout(&t.c, ms) == 0, "timeout", "setting the timeout failed");
		if (reset) {
			CHECK(conn_set_timeout(&t.c, 0) == 0, "timeout", "disabling the timeout failed");
			ms = 0;
		}
		u64 t0 = vnow();
		Fiber *pf = spawn("peer", FK_PEER, [&] {
			u64 at = t0 + (when == 1 ? ms * 500000ull : 7200ull * 1000000000ull);
			point("later", nullptr, [](void *) { return false; }, nullptr, at);
			peer_send(t.p, "x");
		});
		u8 b[4];
		int r = any ? conn_recv_any(&t.c, b, 1, nullptr, nullptr) : conn_recv(&t.c, b, 1);
		u64 d = vnow() - t0;
		bool expire = ms && when != 1;
		CHECK((r < 0) == expire, "timeout", "a receive with a timeout of %u ms returned %d after %lu ns", ms, r, (unsigned long)d);
		CHECK(!expire || d == ms * 1000000ull, "timeout", "a timeout of %u ms took %lu ns", ms, (unsigned long)d);
		conn_close(&t.c);
		join_fiber(pf);
		t.down();
		outcome("%u %d %d", ms, when, r < 0);
	}
	check_no_leaks("leak");
}

// The textual form of ports and remote addresses.
SCENARIO(conn_text, 0)
{
	{
		char s[6], e[8];
		for (u32 p = 0; p < 65536; p++) {
			memset(s, 'Z', sizeof s);
			conn_port_to_str((u16)p, s);
			snprintf(e, sizeof e, "%u", p);
			CHECK(!memcmp(s, e, strlen(e) + 1), "port-text", "port %u is written as %.6s", p, s);
			count_case(p);
		}
		static const char *A4[] = { "0.0.0.0", "1.2.3.4", "255.255.255.255", "127.0.0.1", "100.200.30.4" };
		static const char *A6[] = { "::1", "2001:db8::5", "fe80:1234:5678:9abc:def0:1234:5678:9abc", "::ffff:1.2.3.4" };
		static const u16 P[] = { 1, 80, 5200, 65535 };
		Cn l(CONN_TYPE_TCP, LOC, "8100"), c;
		CHECK(conn_listen(&l) == 0, "setup", "listen");
		for (int i = 0; i < 9; i++)
			for (u16 p : P) {
				const char *a = i < 5 ? A4[i] : A6[i - 5];
				Sock *x = peer_connect(a, p, LOC, 8100);
				CHECK(conn_accept(&l, &c) == 0, "setup", "accept");
				char t[54];
				conn_get_remote_addr(&c, t);
				Bytes want = i < 5 ? Bytes(a) + ":" + std::to_string(p) : "[" + Bytes(a) + "]:" + std::to_string(p);
				CHECK(want == t, "addr-text", "remote address %s instead of %s", t, want.c_str());
				conn_drop(&c);
				peer_close(x);
				count_case(hash_str(t));
			}
		conn_close(&c);
		conn_close(&l);
		outcome("all");
	}
	check_no_leaks("leak");
}
