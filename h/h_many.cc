// Large numbers: many addresses, long sessions, many sessions, many openings, many reports.
#include "registrar.h"
#include <algorithm>

static Bytes addr_of(int i)
{
	char b[32];
	snprintf(b, sizeof b, "10.1.%d.%d", i / 250, i % 250 + 1);
	return b;
}
static bool bound_at(int i) { return udp_bound_count(ip(addr_of(i).c_str()), 5198) == 1 && udp_bound_count(ip(addr_of(i).c_str()), 5199) == 1; }
static int bound_n(int n)
{
	int k = 0;
	for (int i = 0; i < n; i++)
		k += bound_at(i);
	return k;
}
static Cfg many_cfg(int n)
{
	Cfg c;
	c.slots = n;
	c.ext_wild = true;
	c.extra = "ExternalBindAddress=" + addr_of(0) + "\n";
	for (int i = 1; i < n; i++)
		c.extra += (i == 1 ? "AdditionalExternalBindAddresses=" : ",") + addr_of(i);
	c.extra += "\n";
	return c;
}
static Bytes call_of(const char *head, int i) { return head + std::to_string(i); }

// Many addresses: all of them are given out, to one session each; everybody gets the last one back; the longest free one otherwise.
SCENARIO(many_slots, 0, false, 60000000)
{
	static const int NS[] = { 4, 7, 8, 9, 16, 17, 31, 33, 64, 65, 130, 255, 256, 257 };
	int n = NS[choose(14, "addresses")];
	int pat = choose(g_tier || n <= 64 ? 6 : n <= 130 ? 2 : 1, "pattern");
	g_focus = false;
	World w;
	Cfg c = many_cfg(n);
	w.up(c);
	struct Ses {
		Client *k = nullptr;
		Bytes call;
		int at = -1;
	};
	std::vector<Ses> v(n);
	std::vector<int> pool; // the longest free first
	std::vector<Bytes> last(n);
	for (int i = 0; i < n; i++)
		pool.push_back(i);
	int port = 20000;
	auto arrive = [&](Ses &s, const Bytes &call) {
		s.k = new Client(w, "203.0.113.5", port++);
		s.call = call;
		CHECK(s.k->connect() && s.k->get_nonce(), "slot-lost", "%d addresses: turned away although %zu are free", n, pool.size());
		s.k->send(call + "\n" + s.k->response(c.password));
		quiesce();
		s.at = -1;
		for (int p : pool)
			if (bound_at(p))
				s.at = p;
		CHECK(s.at >= 0, "slot-lost", "%d addresses: not admitted although %zu are free", n, pool.size());
		int want = pool[0];
		for (int p : pool)
			if (last[p] == call)
				want = p;
		CHECK(s.at == want, "slot-choice", "%d addresses: %s got address %d instead of %d", n, call.c_str(), s.at, want);
		pool.erase(std::find(pool.begin(), pool.end(), s.at));
		last[s.at] = call;
		CHECK(bound_n(n) == n - (int)pool.size(), "exclusive", "%d addresses: %d in use by %zu sessions", n, bound_n(n), n - pool.size());
	};
	auto leave = [&](Ses &s, int how) {
		if (how % 3 == 0)
			s.k->close();
		else if (how % 3 == 1)
			peer_abort(s.k->s);
		else
			s.k->send(mkmsg(77, nullptr, ""));
		quiesce();
		CHECK(!bound_at(s.at), "not-released", "%d addresses: address %d remains bound", n, s.at);
		pool.push_back(s.at);
		if (how % 3 == 2)
			s.k->close();
		delete s.k;
		s.k = nullptr;
	};
	auto full = [&] {
		Client x(w, "203.0.113.6", port++);
		CHECK(x.connect(), "refused", "connect");
		quiesce();
		CHECK(peer_eof(x.s) && peer_pending(x.s) == 0, "too-many", "%d addresses: one client too many is not turned away", n);
		x.close();
		quiesce();
		CHECK(bound_n(n) == n, "exclusive", "%d addresses: %d in use", n, bound_n(n));
	};
	auto traffic = [&] {
		for (auto &s : v) {
			if (!s.k)
				continue;
			size_t n0 = udp_sent().size();
			s.k->send(mkmsg(T_UDATA, "198.51.100.7", "from " + s.call));
			peer_sendto("198.51.100.8", 5199, ip(addr_of(s.at).c_str()), 5199, "to " + s.call);
			quiesce();
			CHECK(udp_sent().size() == n0 + 1 && udp_sent().back().data == "from " + s.call && udp_sent().back().saddr == ip(addr_of(s.at).c_str()), "relay",
			      "%d addresses: data of %s is not sent from its address", n, s.call.c_str());
		}
		for (auto &s : v) {
			if (!s.k)
				continue;
			s.k->drain();
			CHECK(s.k->msgs.size() == 1 && s.k->msgs[0].data == "to " + s.call && s.k->msgs[0].type == T_UCTRL && s.k->rx.empty(), "isolation",
			      "%d addresses: %s received %s", n, s.call.c_str(), show(s.k->msgs).c_str());
			s.k->msgs.clear();
		}
	};
	for (int i = 0; i < n; i++)
		arrive(v[i], call_of("A", i));
	full();
	traffic();
	// who leaves, in which order
	std::vector<int> go;
	switch (pat) {
	case 0: for (int i = n; i-- > 0;) go.push_back(i); break;
	case 1: for (int i = 0; i < n; i += 2) go.push_back(i); for (int i = 1; i < n; i += 2) go.push_back(i); break;
	case 2: go = { n / 2 }; break;
	case 3: for (int i = 0; i < n / 2; i++) go.push_back(i); break;
	case 4: for (int i = 0; i + 1 < n; i += 2) go.push_back(i + 1), go.push_back(i); break;
	case 5: for (int i = 0; i < n; i++) go.push_back(i * 5 % n); break; // (repetitions are left out below)
	}
	std::vector<int> gone;
	for (int i : go)
		if (v[i].k) {
			leave(v[i], i);
			gone.push_back(i);
		}
	// some come back, from the middle outwards, then strangers
	int back = (int)gone.size() - (int)gone.size() / 3;
	for (int j = 0; j < back; j++) {
		int i = gone[(j * 2 + 1 < back ? back - 1 - j * 2 : j * 2 - back + 1) % back];
		if (!v[i].k)
			arrive(v[i], call_of("A", i));
	}
	for (size_t j = 0; j < gone.size(); j++)
		if (!v[gone[j]].k)
			arrive(v[gone[j]], call_of("S", gone[j]));
	full();
	traffic();
	for (auto &s : v)
		leave(s, pat);
	CHECK((int)pool.size() == n && bound_n(n) == 0, "slot-lost", "%zu of %d addresses are free in the end", pool.size(), n);
	for (int i = 0; i < n; i++)
		arrive(v[i], call_of("Z", i));
	full();
	// and closing with everybody connected
	w.down();
	for (auto &s : v) {
		CHECK(peer_eof(s.k->s), "not-closed", "%d addresses: a client remains connected after closing", n);
		delete s.k;
	}
	count_case(n * 8 + pat);
	outcome("%d %d", n, pat);
}

// One long session: one kind of operation, or two in turn, hundreds of times.
enum { O_UDATA, O_UCTRL, O_NDATA, O_NCTRL, O_EMPTY, O_BIG, O_REFUSED, O_CLOSED, O_REMOTE, O_RESET, O_OPENTWICE, O_TDATA, O_NOCONN, O_N };
SCENARIO(many_ops, 0, false, 100000000)
{
	int k[2] = { choose(O_N, "operation"), 0 };
	// with an argument: one kind of operation, so many times
	k[1] = g_arg ? k[0] : choose(O_N, "every other time");
	int times = g_arg >= 1 ? k[0] == O_BIG ? g_arg / 8 : g_arg : g_tier && k[0] == k[1] ? 3000 : 1100;
	g_focus = false;
	World w;
	Cfg c;
	w.up(c);
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	static const Bytes st0(4, 0);
	auto got = [&](std::vector<Msg> want, const char *what, int i) {
		quiesce();
		a.drain();
		bool same = a.msgs.size() == want.size() && a.rx.empty();
		for (size_t j = 0; same && j < want.size(); j++)
			same = a.msgs[j].type == want[j].type && a.msgs[j].data == want[j].data && (want[j].addr == 0 || a.msgs[j].addr == want[j].addr);
		CHECK(same, "relay", "%s, time %d: the client received %s", what, i, show(a.msgs).c_str());
		a.msgs.clear();
	};
	for (int i = 0; i < times; i++) {
		int op = k[i & 1];
		size_t n0 = udp_sent().size();
		if (n0 > 3000) {
			udp_sent().clear();
			n0 = 0;
		}
		Bytes tag = "#" + std::to_string(i);
		Sock *s;
		auto open = [&] {
			a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
			s = peer_accept(l);
			CHECK(s != nullptr, "tcp", "not connected");
			got({ Msg{ T_TSTATUS, 0, st0 } }, "open", i);
		};
		switch (op) {
		case O_UDATA:
		case O_UCTRL:
		case O_EMPTY:
		case O_BIG: {
			Bytes d = op == O_EMPTY ? Bytes() : op == O_BIG ? tag + Bytes(6000, 'b') : tag;
			a.send(mkmsg(op == O_UCTRL ? T_UCTRL : T_UDATA, "198.51.100.7", d));
			got({}, "sending", i);
			Bytes all;
			for (size_t j = n0; j < udp_sent().size(); j++)
				all += udp_sent()[j].data;
			CHECK(all == d, "relay", "time %d: %zu bytes sent instead of %zu", i, all.size(), d.size());
			break;
		}
		case O_NDATA:
		case O_NCTRL: {
			int p = op == O_NDATA ? 5198 : 5199;
			peer_sendto("198.51.100.8", p, ip(EXT[0]), p, tag);
			got({ Msg{ (u8)(op == O_NDATA ? T_UDATA : T_UCTRL), ip("198.51.100.8"), tag } }, "datagram", i);
			break;
		}
		case O_REFUSED: {
			a.send(mkmsg(T_OPEN, "198.51.100.10", ""));
			quiesce();
			a.drain();
			CHECK(a.msgs.size() == 1 && a.msgs[0].type == T_TSTATUS && a.msgs[0].data != st0, "tcp", "refused, time %d: %s", i, show(a.msgs).c_str());
			a.msgs.clear();
			break;
		}
		case O_CLOSED:
			open();
			a.send(mkmsg(T_TDATA, nullptr, tag));
			quiesce();
			CHECK(peer_drain(s) == tag, "relay", "time %d: TCP data is not relayed", i);
			a.send(mkmsg(T_TCLOSE, nullptr, ""));
			quiesce();
			CHECK(peer_eof(s), "tcp", "time %d: not closed", i);
			peer_close(s);
			quiesce();
			a.drain();
			for (auto &m : a.msgs)
				CHECK(m.type == T_TCLOSE, "relay", "closing, time %d: the client received %s", i, show(a.msgs).c_str());
			a.msgs.clear();
			break;
		case O_REMOTE:
		case O_RESET:
			open();
			peer_send(s, tag);
			got({ Msg{ T_TDATA, 0, tag } }, "TCP data", i);
			if (op == O_RESET)
				peer_abort(s);
			else
				peer_close(s);
			got({ Msg{ T_TCLOSE, 0, "" } }, "the remote host ending", i);
			break;
		case O_OPENTWICE: {
			open();
			Sock *s1 = s;
			a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
			s = peer_accept(l);
			quiesce();
			CHECK(s && peer_eof(s1), "tcp", "time %d: the first connection is not closed", i);
			a.drain();
			CHECK(a.msgs.size() && a.msgs.back().type == T_TSTATUS && a.msgs.back().data == st0, "tcp", "time %d: second open: %s", i, show(a.msgs).c_str());
			a.msgs.clear();
			peer_close(s1);
			peer_close(s);
			got({ Msg{ T_TCLOSE, 0, "" } }, "the remote host ending", i);
			break;
		}
		case O_TDATA: {
			open();
			Bytes all;
			for (int j = 0; j < 20; j++) {
				a.send(mkmsg(T_TDATA, nullptr, tag + "." + std::to_string(j)));
				all += tag + "." + std::to_string(j);
			}
			quiesce();
			CHECK(peer_drain(s) == all, "relay", "time %d: TCP data is not relayed", i);
			peer_close(s);
			got({ Msg{ T_TCLOSE, 0, "" } }, "the remote host ending", i);
			break;
		}
		case O_NOCONN:
			a.send(mkmsg(T_TDATA, nullptr, tag));
			quiesce();
			a.drain();
			for (auto &m : a.msgs)
				CHECK(m.type == T_TCLOSE && m.data.empty(), "relay", "TCP data without a connection, time %d: the client received %s", i, show(a.msgs).c_str());
			a.msgs.clear();
			break;
		}
		CHECK(slot_bound(0) && !peer_eof(a.s), "dropped", "the session ended after %d operations (%d, %d)", i, k[0], k[1]);
	}
	a.close();
	quiesce();
	must_serve(w, "after a long session");
	w.down();
	count_case(k[0] * O_N + k[1]);
	outcome("%d %d", k[0], k[1]);
}

// Many sessions one after the other: one kind, or two in turn.
enum { S_GOOD, S_WRONG, S_ABORT, S_EARLY, S_LONGCALL, S_TCP, S_BADMSG, S_FULL, S_RIGHTABORT, S_N };
SCENARIO(many_sessions, 0, false, 100000000)
{
	int k[2] = { choose(S_N, "session"), 0 };
	k[1] = g_arg ? k[0] : choose(S_N, "every other time");
	int times = g_arg >= 1 ? g_arg : g_tier && k[0] == k[1] ? 3000 : 1100;
	g_focus = false;
	World w;
	Cfg c;
	c.slots = 1;
	w.logging = g_arg ? 0 : choose(2, "logging");
	w.up(c);
	Sock *l = peer_listen("198.51.100.9", 5200);
	std::vector<Bytes> nonces;
	for (int i = 0; i < times; i++) {
		int op = k[i & 1];
		Client a(w, i < 40000 ? "203.0.113.5" : "203.0.113.15", 20000 + i % 40000);
		if (g_arg && i % 200 == 199)
			vsleep(61000000000ull); // whatever TCP remembers of earlier connections is gone
		CHECK(a.connect(), "refused", "session %d refused", i);
		if (op == S_EARLY) {
			a.close();
			quiesce();
			continue;
		}
		CHECK(a.get_nonce(), "nonce", "session %d gets no nonce", i);
		if (i < 3000) // of many more, two may be equal by chance
			nonces.push_back(a.nonce);
		Bytes call = i % 3 ? "W1AW" : call_of("N", i);
		Bytes r = a.response(c.password);
		if (op == S_WRONG)
			r[i % 16] ^= 1 << i % 8;
		if (op == S_LONGCALL)
			call = "ABCDEFGHIJKLMNOP";
		if (op == S_ABORT) {
			a.send(call);
			quiesce();
			peer_abort(a.s);
			quiesce();
			continue;
		}
		a.send(call + "\n" + r);
		if (op == S_RIGHTABORT) {
			peer_abort(a.s);
			quiesce();
			CHECK(sut_open().udp == 0, "not-released", "session %d: ports remain bound", i);
			continue;
		}
		quiesce();
		if (op == S_WRONG || op == S_LONGCALL) {
			Bytes got = peer_drain(a.s);
			CHECK(!slot_bound(0) && got == (op == S_WRONG ? BADPW : Bytes()) && peer_eof(a.s), "notice", "session %d: received '%s'", i, show(got).c_str());
			a.close();
			quiesce();
			continue;
		}
		CHECK(slot_bound(0), "not-admitted", "session %d is not admitted", i);
		size_t n0 = udp_sent().size();
		a.send(mkmsg(T_UDATA, "198.51.100.7", call));
		quiesce();
		CHECK(udp_sent().size() == n0 + 1 && udp_sent().back().data == call, "relay", "session %d is not served", i);
		if (op == S_TCP) {
			a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
			Sock *s = peer_accept(l);
			quiesce();
			a.close();
			quiesce();
			CHECK(peer_eof(s), "tcp", "session %d: the connection outlives the session", i);
			peer_close(s);
		} else if (op == S_BADMSG) {
			a.send(mkmsg(200, nullptr, ""));
			quiesce();
			CHECK(peer_eof(a.s), "not-dropped", "session %d survives an invalid message", i);
			a.close();
		} else if (op == S_FULL) {
			Client x(w, "203.0.113.6", 20000 + i % 40000);
			CHECK(x.connect(), "refused", "refused");
			quiesce();
			CHECK(peer_eof(x.s) && peer_pending(x.s) == 0, "too-many", "session %d: one client too many is not turned away", i);
			x.close();
			a.close();
		} else
			a.close();
		quiesce();
		CHECK(!slot_bound(0) && sut_open().udp == 0, "not-released", "session %d: ports remain bound", i);
	}
	auto s = nonces;
	std::sort(s.begin(), s.end());
	for (size_t i = 1; i < s.size(); i++)
		CHECK(s[i] != s[i - 1], "nonce", "nonce %s was issued twice in %zu connections", s[i].c_str(), s.size());
	must_serve(w, "after many sessions");
	w.down();
	count_case(k[0] * S_N + k[1]);
	outcome("%d %d", k[0], k[1]);
}

// Opened and closed, or created and destroyed, many times.
SCENARIO(many_lives, 0, false, 20000000)
{
	int kind = choose(4, "kind");
	bool client = choose(2, "client");
	int times = kind == 1 ? 300 : 120; // kind 1 starts no threads
	g_focus = false;
	World w;
	Cfg c;
	c.slots = 2;
	c.denied = "^X";
	w.init(c);
	for (int i = 0; i < times; i++) {
		if (kind == 2 && i) {
			proxy_free(&w.ph);
			check_no_leaks("leak");
			w.init(c);
		}
		if (kind == 3 && i) {
			int r = proxy_load_conf(&w.ph, "/elp.conf");
			CHECK(r >= 0, "life", "loading, time %d: %d", i, r);
		}
		int r = proxy_open(&w.ph);
		CHECK(r == 0, "life", "opening, time %d: %d", i, r);
		if (kind != 1) {
			r = proxy_start(&w.ph);
			CHECK(r == 0, "life", "starting, time %d: %d", i, r);
			w.run_loop();
			quiesce();
			Client a(w), b(w, "203.0.113.6", 50002);
			if (client) {
				CHECK(admit(a, "W1AW") >= 0 && admit(b, "K2ABC") >= 0, "life", "time %d: a client is not admitted", i);
				CHECK(slots_bound(2) == 2, "life", "time %d", i);
				a.send(mkmsg(T_UDATA, "198.51.100.7", "x"));
				quiesce();
			}
			if (i % 2)
				w.shutdown();
			if (i % 3 == 0)
				proxy_drop(&w.ph);
			if (client && i % 5 == 0)
				b.close();
			if (!(i % 2))
				w.shutdown();
			join_fiber(w.loop);
			w.loop = nullptr;
			proxy_close(&w.ph);
			if (client)
				CHECK(peer_eof(a.s), "life", "time %d: a client remains connected", i);
		} else
			proxy_close(&w.ph);
		CHECK(live_socks() == 0, "leak-socket", "time %d: descriptors open after closing: %s", i, describe_live_socks().c_str());
	}
	proxy_free(&w.ph);
	check_no_leaks("leak");
	count_case(kind * 2 + client);
	outcome("%d %d", kind, client);
}

// The registrar over days and hundreds of changes.
SCENARIO(many_reports, 0, false, 100000000)
{
	int kind = choose(g_arg ? 2 : 4, "kind"), slots = 1 + (g_arg ? 0 : choose(kind == 2 ? 4 : 3, "slots"));
	static const int MODES[] = { RM_OK, RM_CLOSE, RM_BADSTATUS, RM_RESET };
	int times = g_arg ? g_arg : slots == 4 ? 560 : 150;
	g_focus = false;
	World w;
	Cfg c = slots == 4 ? many_cfg(280) : slots == 3 ? many_cfg(12) : Cfg();
	if (slots < 3)
		c.slots = slots;
	c.regname = "Name";
	Registrar R;
	if (kind == 3)
		for (int i = 0; i < 4 * times; i++)
			R.modes.push_back(MODES[i % 4]);
	R.start();
	w.up(c);
	u64 t0 = vnow();
	std::vector<Client *> in;
	for (int i = 0; i < times; i++) {
		if (kind == 0) {
			// nobody comes for days
			size_t g = R.got.size();
			u64 since = R.got.back().t;
			CHECK(wait_until([&] { return R.got.size() > g; }, 660), "reg-repeat", "after %lu s nothing was reported for 660 s", (unsigned long)((vnow() - t0) / 1000000000ull));
			CHECK(vnow() - since <= 660000000000ull, "reg-repeat", "not repeated in time");
			quiesce();
		} else {
			int n = (int)in.size();
			bool come = kind == 1 ? n == 0 : (i / c.slots) % 2 == 0 ? n < c.slots : n == 0;
			if (come) {
				Client *k = new Client(w, i < 40000 ? "203.0.113.5" : "203.0.113.15", 20000 + i % 40000);
				CHECK(k->login(call_of("A", i)), "setup", "no nonce");
				in.push_back(k);
			} else {
				in[i % n]->close();
				delete in[i % n];
				in.erase(in.begin() + i % n);
			}
			quiesce();
			if (kind == 3) // failures are retried
				wait_until([&] { return R.got.size() && R.got.back().mode == RM_OK && R.got.back().body == ref_body(c, (int)in.size() >= c.slots ? "Busy" : "Ready", in.size(), c.slots); }, 660);
		}
		check_truth(c, R.got.back(), in.size(), ("change " + std::to_string(i)).c_str());
		if (g_arg && i % 200 == 199)
			vsleep(61000000000ull);
	}
	w.down();
	CHECK(is_off(R.got.back()) || kind == 3, "reg-off", "the last report is '%s'", R.got.back().body.c_str());
	for (auto k : in)
		delete k;
	count_case(kind * 3 + slots);
	outcome("%d %d", kind, slots);
}
