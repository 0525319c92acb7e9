// Life cycle: single failures (C17) and API histories (C18).
#include "world.h"

#define ALL_RES                                                                                                        \
	(F_MALLOC | F_PTHREAD | F_SOCK | F_CONNECT | F_ACCEPT | F_RECVERR | F_SENDERR | F_FILE | F_PCRE | F_SENDTO)

// A call fails only because a resource failed, and succeeds when repeated.
template <class Fn> static int must(const char *name, Fn fn)
{
	for (int i = 0; i < 4; i++) {
		int f = faults_taken();
		int r = fn();
		if (r >= 0)
			return i;
		CHECK(faults_taken() > f, "spurious-failure", "%s failed (%d) although %s", name, r,
		      i ? "it was repeated after the failure" : "nothing failed");
	}
	fail("spurious-failure", "%s still fails", name);
}

struct Sess {
	World &w;
	bool ok = true; // nothing unusual so far
	Sess(World &ww) : w(ww) {}
	void odd(Client &c, const char *what)
	{
		CHECK(faults_taken() > 0, "lost", "%s although nothing failed", what);
		ok = false;
		if (c.s && !peer_eof(c.s)) {
			// still connected: then it is either being served or was told
			c.drain();
		}
	}
	bool gone(Client &c)
	{
		if (!c.s)
			return true;
		c.drain();
		return peer_eof(c.s) || peer_reset_seen(c.s);
	}
	// One complete session; returns false if it was lost
	bool run(const char *from, u16 port, const char *call, Sock *l)
	{
		Client c(w, from, port);
		if (!c.connect()) {
			odd(c, "a client cannot connect");
			return false;
		}
		quiesce();
		if (peer_pending(c.s) < 8) {
			odd(c, "a client gets no nonce");
			CHECK(gone(c), "stuck", "a client neither gets a nonce nor is disconnected");
			c.close();
			return false;
		}
		c.login(call);
		quiesce();
		int k = -1;
		for (int i = 0; i < w.cfg.slots; i++)
			if (slot_bound(i))
				k = i;
		if (k < 0) {
			odd(c, "a client is not admitted");
			CHECK(gone(c), "stuck", "a client is neither admitted nor disconnected");
			c.close();
			return false;
		}
		size_t n0 = udp_sent().size();
		c.send(mkmsg(T_UDATA, "198.51.100.7", "out-data"));
		c.send(mkmsg(T_UCTRL, "198.51.100.7", "out-ctrl"));
		quiesce();
		if (udp_sent().size() != n0 + 2)
			odd(c, "a datagram was not sent");
		peer_sendto("198.51.100.7", 5198, ip(EXT[k]), 5198, "in-data");
		quiesce();
		peer_sendto("198.51.100.7", 5199, ip(EXT[k]), 5199, "in-ctrl");
		quiesce();
		c.drain();
		if (c.msgs.size() != 2)
			odd(c, "a datagram was not received");
		c.msgs.clear();
		c.send(mkmsg(T_OPEN, "198.51.100.9", ""));
		quiesce();
		c.drain();
		bool open = false;
		if (c.msgs.size() != 1 || c.msgs[0].type != T_TSTATUS || c.msgs[0].data != Bytes(4, 0)) {
			odd(c, "the TCP connection was not opened");
			CHECK(gone(c) || (c.msgs.size() >= 1 && c.msgs[0].type == T_TSTATUS), "stuck",
			      "a client is connected but gets no TCP status: %s", show(c.msgs).c_str());
		} else {
			open = true;
		}
		c.msgs.clear();
		if (open) {
			Sock *t = peer_accept(l);
			peer_send(t, "from-tcp");
			quiesce();
			c.send(mkmsg(T_TDATA, nullptr, "to-tcp"));
			quiesce();
			c.drain();
			if (peer_drain(t) != "to-tcp" || c.msgs.size() != 1 || c.msgs[0].data != "from-tcp")
				odd(c, "TCP data was not relayed");
			c.msgs.clear();
			peer_close(t);
			quiesce();
			c.drain();
			if (c.msgs.size() != 1 || c.msgs[0].type != T_TCLOSE)
				odd(c, "the end of the TCP connection was not reported");
		}
		bool alive = !gone(c);
		c.close();
		quiesce();
		CHECK(!slot_bound(k), "not-released", "the slot is still bound after the client left");
		CHECK(sut_open().tcp_conn == 0 && sut_open().udp == 0, "not-released", "sockets remain: %s", describe_live_socks().c_str());
		return alive && ok;
	}
};

// Every single failure of a complete life; faults everywhere.  arg 0: one open period, 1: two, 2: one with schedules, 3: three without sessions.
SCENARIO(fault_life, ALL_RES, false)
{
	World w;
	Cfg c;
	g_focus = false;
	c.slots = 2;
	c.allowed = "^W1";
	c.denied = "BAD";
	c.regname = "Name";
	c.regcomment = "Comment";
	c.extra = "ConnectionTimeout=10\n# some text to make the file longer than one piece of sixty-four bytes\n";
	w.cfg = c;
	w.retry = 3;
	SS->files["/elp.conf"] = c.text();
	Sock *l = peer_listen("198.51.100.9", 5200), *rl = peer_listen("198.51.100.80", 80);
	Bytes report;
	spawn("registrar", FK_PEER, [&] {
		for (;;) {
			Sock *s = peer_accept(rl);
			if (!s)
				return;
			Bytes m;
			for (;;) {
				Bytes x = peer_recv_some(s);
				m += x;
				if (x.empty() || m.find("&v=") != Bytes::npos)
					break;
			}
			if (m.find("&v=") != Bytes::npos)
				report = m.substr(m.find("name="));
			peer_send(s, "HTTP/1.1 200 OK\r\n\r\n");
			peer_wait_eof(s);
			peer_close(s);
		}
	});
	int reps = 0;
	reps += must("proxy_init", [&] { return proxy_init(&w.ph); });
	reps += must("proxy_log_select_medium", [&] { return proxy_log_select_medium(&w.ph, LOG_MEDIUM_FILE, "/log"); });
	reps += must("proxy_load_conf", [&] { return proxy_load_conf(&w.ph, "/elp.conf"); });
	int periods = g_arg == 0 || g_arg == 2 ? 1 : g_arg == 1 ? 2 : 3, good = 0;
	for (int p = 0; p < periods; p++) {
		reps += must("proxy_open", [&] { return proxy_open(&w.ph); });
		reps += must("proxy_start", [&] { return proxy_start(&w.ph); });
		w.run_loop();
		quiesce();
		if (g_arg < 3) {
			Sess s(w);
			g_focus = g_arg == 2;
			good += s.run("203.0.113.5", 50001 + p, "W1AW", l);
			g_focus = false;
			u32 keep = g_faults;
			g_faults = 0;
			must_serve(w, "after a failure", "203.0.113.99", "W1XYZ");
			// both slots at once
			Client a(w, "203.0.113.5", 50011 + p), b(w, "203.0.113.6", 50021 + p);
			CHECK(admit(a, "W1A") >= 0 && admit(b, "W1B") >= 0, "not-served", "after a failure: two clients are not served at the same time");
			a.close();
			b.close();
			quiesce();
			CHECK(report.find("[0/2]&") != Bytes::npos && report.find("status=Ready&") != Bytes::npos, "not-reported",
			      "after a failure: the registrar was told last '%s'", report.c_str());
			report.clear();
			g_faults = keep;
		}
		proxy_shutdown(&w.ph);
		join_fiber(w.loop);
		w.loop = nullptr;
		proxy_close(&w.ph);
		CHECK(live_socks() == 0, "leak-socket", "descriptors open after proxy_close: %s", describe_live_socks().c_str());
	}
	proxy_free(&w.ph);
	check_no_leaks("leak");
	outcome("%d reps, %d good", reps, good);
}

// A caller which gives up at the first failure: everything is released by what the documentation tells it to call.
SCENARIO(fault_giveup, ALL_RES, false)
{
	World w;
	Cfg c;
	g_focus = false;
	c.slots = 3;
	c.allowed = "^W1";
	c.denied = "BAD";
	c.regname = "Name";
	c.bind = choose(2, "listening address") ? "127.0.0.1" : "";
	SS->files["/elp.conf"] = c.text();
	proxy_handle &ph = w.ph;
	int at = 0;
	// 0: nothing failed
	auto run = [&] {
		if (proxy_init(&ph) < 0)
			return 1;
		if (proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, "/log") < 0)
			return 2;
		if (proxy_load_conf(&ph, "/elp.conf") < 0)
			return 3;
		if (proxy_open(&ph) < 0)
			return 4;
		if (proxy_start(&ph) < 0)
			return 5;
		return 0;
	};
	at = run();
	CHECK(!at == (faults_taken() == 0) || !at, "spurious-failure", "step %d fails although nothing failed", at);
	int how = choose(at == 1 ? 1 : 3, "clean-up");
	if (how == 1)
		proxy_close(&ph);
	else if (how == 2)
		proxy_close(&ph), proxy_close(&ph);
	if (how)
		CHECK(live_socks() == 0, "leak-socket", "descriptors open after proxy_close: %s", describe_live_socks().c_str());
	proxy_free(&ph);
	check_no_leaks("leak");
	outcome("%d %d", at, how);
}

// Two clients at the same time; one failure costs at most one of them.
SCENARIO(fault_two, ALL_RES & ~F_FILE, false)
{
	World w;
	Cfg c;
	c.slots = 2;
	u32 keep = g_faults;
	g_faults = 0;
	w.retry = 3;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w, "203.0.113.5", 50001);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *t = peer_accept(l);
	quiesce();
	a.drain();
	a.msgs.clear();
	g_faults = keep;
	Sess s(w);
	int k = choose(2, "second client");
	if (k == 0) {
		// everything here is done for B, so A must not notice
		w.cfg.slots = 0;
		Client b(w, "203.0.113.6", 50002);
		bool got = false;
		if (b.connect()) {
			quiesce();
			if (peer_pending(b.s) >= 8) {
				b.login("K2B");
				quiesce();
				got = slot_bound(1);
			}
			if (got) {
				b.send(mkmsg(T_UDATA, "198.51.100.7", "b"));
				quiesce();
				peer_sendto("198.51.100.7", 5198, ip(EXT[1]), 5198, "in");
				quiesce();
				b.send(mkmsg(T_OPEN, "198.51.100.9", ""));
				quiesce();
			}
			b.close();
			quiesce();
		}
		w.cfg.slots = 2;
		CHECK(got || faults_taken(), "lost", "B is not admitted although nothing failed");
	}
	g_faults = 0;
	CHECK(slot_bound(0) && !peer_eof(a.s), "collateral", "a failure for one client cost another one its session");
	CHECK(!slot_bound(1), "not-released", "B's slot is still bound");
	a.send(mkmsg(T_TDATA, nullptr, "a-tcp") + mkmsg(T_UDATA, "198.51.100.8", "a-udp"));
	peer_send(t, "t-a");
	peer_sendto("198.51.100.8", 5198, ip(EXT[0]), 5198, "u-a");
	quiesce();
	a.drain();
	CHECK(peer_drain(t) == "a-tcp" && udp_sent().size() && udp_sent().back().data == "a-udp" && a.msgs.size() == 2, "collateral",
	      "a failure for one client disturbed another one");
	must_serve(w, "after a failure");
	a.close();
	quiesce();
	outcome("%d %d", k, faults_taken());
	w.down();
}

// ------------------------------------------------------------------- C18 --
// All permitted histories of calls up to a depth (arg, default 5).
SCENARIO(api_hist, 0, false)
{
	World w;
	g_focus = false;
	proxy_handle &ph = w.ph;
	int depth = g_arg % 10 ? g_arg % 10 : 5;
	enum { UNINIT, INIT, OPEN, STARTED, DOWN } st = UNINIT;
	int conf = -1; // none loaded
	Bytes hist;
	Cfg C[4];
	C[0].allowed = "^W1";
	C[1].slots = 2;
	C[1].denied = "BAD";
	C[1].regname = "Name";
	C[1].port = 8200;
	C[2].bind = "192.0.2.1"; // cannot be opened
	C[3].has_pw = false;
	Sock *rl = peer_listen("198.51.100.80", 80);
	spawn("registrar", FK_PEER, [&] {
		for (;;) {
			Sock *s = peer_accept(rl);
			if (!s)
				return;
			peer_recv(s, 20);
			peer_send(s, "HTTP/1.1 200 OK\r\n\r\n");
			peer_wait_eof(s);
			peer_close(s);
		}
	});
	Client *cl = nullptr;
	u16 port = 50001;
	auto drop_client = [&](bool expect_eof) {
		if (!cl)
			return;
		quiesce();
		cl->drain();
		CHECK(!expect_eof || peer_eof(cl->s) || peer_reset_seen(cl->s), "not-dropped", "a client survived %s", hist.c_str());
		cl->close();
		cl = nullptr;
	};
	auto join_loop = [&] {
		if (w.loop) {
			join_fiber(w.loop);
			w.loop = nullptr;
		}
	};
	auto served = [&](bool yes) {
		quiesce();
		if (yes) {
			must_serve(w, hist.c_str(), "203.0.113.99", "W1XYZ");
			Client x(w, "203.0.113.98", port++);
			x.login(conf == 0 ? "K2BAD" : "W1BAD");
			quiesce();
			Bytes r = peer_drain(x.s);
			CHECK(r == BADAUTH, "policy", "%s: a denied callsign got '%s'", hist.c_str(), show(r).c_str());
			x.close();
			quiesce();
			CHECK(w.cfg.slots == 2 || sut_open().udp == (cl ? 2 : 0), "slots", "%s", hist.c_str());
		}
	};
	for (int i = 0; i < depth; i++) {
		// what is permitted now
		const char *ops = st == UNINIT ? "IF" : st == INIT ? "01239OCFHDUG" : st == OPEN ? "SCFHDUG" : st == STARTED ? "KVHDCFUG" : "CFHDG";
		int n = strlen(ops);
		if (g_arg >= 10 && st == INIT)
			ops = "01OCF", n = 5;
		else if (g_arg >= 10 && st == OPEN)
			ops = "SCF", n = 3;
		else if (g_arg >= 10 && st == STARTED)
			ops = "KVHDCF", n = 6;
		else if (g_arg >= 10 && st == DOWN)
			ops = "CF", n = 2;
		char op = ops[choose(n, "op")];
		hist += op;
		TR("== op %c", op);
		switch (op) {
		case 'I':
			CHECK(proxy_init(&ph) == 0, "api", "proxy_init failed in %s", hist.c_str());
			proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, "/log");
			st = INIT;
			break;
		case '0':
		case '1':
		case '2':
		case '3': {
			SS->files["/elp.conf"] = C[op - '0'].text() + (op == '1' ? "" : "AdditionalExternalBindAddresses=\n") +
						 (op == '0' ? "CallsignsDenied=\nRegistrationName=\nBindAddress=\n" : op == '1' ? "CallsignsAllowed=\nBindAddress=\n" : "");
			int r = proxy_load_conf(&ph, "/elp.conf");
			CHECK(r == 0, "api", "proxy_load_conf returned %d in %s", r, hist.c_str());
			if (op == '3' && conf >= 0) { // the password stays
				Cfg k = C[3];
				k.has_pw = true;
				k.allowed = conf == 0 || conf == 4 ? C[0].allowed : "";
			}
			conf = op - '0';
			break;
		}
		case '9': {
			int r = proxy_load_conf(&ph, "/missing.conf");
			CHECK(r < 0, "api", "loading a missing file returned %d", r);
			break;
		}
		case 'O': {
			int r = proxy_open(&ph);
			bool pw = ph.conf.password != nullptr;
			bool bad = ph.conf.bind_addr && !strcmp(ph.conf.bind_addr, "192.0.2.1");
			CHECK((r == 0) == (pw && !bad), "api", "proxy_open returned %d in %s", r, hist.c_str());
			if (r == 0) {
				st = OPEN;
				// what is in force
				w.cfg = conf == 1 || (conf == 3 && ph.conf.bind_addr_ext_add_len) ? C[1] : C[0];
				w.cfg.slots = 1 + ph.conf.bind_addr_ext_add_len;
				w.cfg.port = ph.conf.port;
				CHECK(conf == 3 || (w.cfg.slots == C[conf].slots && w.cfg.port == C[conf].port), "api", "configuration %d not in force in %s",
				      conf, hist.c_str());
			} else {
				CHECK(live_socks() == 0, "leak-socket", "%s: %s", hist.c_str(), describe_live_socks().c_str());
			}
			break;
		}
		case 'S':
			CHECK(proxy_start(&ph) == 0, "api", "proxy_start failed in %s", hist.c_str());
			w.run_loop();
			quiesce();
			st = STARTED;
			if (conf != 3)
				served(true);
			break;
		case 'K': // a client which stays
			if (!cl) {
				cl = new Client(w, "203.0.113.5", port++);
				CHECK(admit(*cl, "W1AW") >= 0, "not-served", "%s: a client is not admitted", hist.c_str());
			} else {
				cl->close();
				cl = nullptr;
				quiesce();
			}
			break;
		case 'V':
			if (conf != 3 && (!cl || w.cfg.slots > 1))
				served(true);
			break;
		case 'H': {
			proxy_shutdown(&ph);
			if (st == STARTED) {
				st = DOWN;
				quiesce();
				Client x(w, "203.0.113.97", port++);
				if (x.connect()) {
					quiesce();
					x.drain();
					CHECK(peer_eof(x.s) || peer_reset_seen(x.s), "shutdown", "%s: a new client is still served", hist.c_str());
					x.close();
				}
				if (cl) {
					size_t n0 = udp_sent().size();
					cl->send(mkmsg(T_UDATA, "198.51.100.7", "still"));
					quiesce();
					CHECK(udp_sent().size() == n0 + 1, "shutdown", "%s: the client is no longer served", hist.c_str());
				}
				join_loop();
				CHECK(w.rets.size() && w.rets.back() < 0, "api", "proxy_process returned success after shutdown");
			} else if (st == OPEN)
				st = DOWN;
			break;
		}
		case 'D':
			proxy_drop(&ph);
			quiesce();
			drop_client(true);
			quiesce();
			CHECK(sut_open().udp == 0, "not-dropped", "%s: %s", hist.c_str(), describe_live_socks().c_str());
			if (st == STARTED && conf != 3)
				served(true);
			break;
		case 'U':
			proxy_update_registration(&ph);
			break;
		case 'G':
			proxy_ident(&ph);
			proxy_log(&ph, LOG_LEVEL_ERROR, "%s\n", "text");
			CHECK(st != OPEN || true, "api", "unreachable");
			break;
		case 'C':
		case 'F': {
			bool waslive = st != UNINIT;
			if (waslive && w.loop) {
				// the interface requires that nobody is in proxy_process any more
				proxy_shutdown(&ph);
				join_loop();
			}
			if (op == 'C')
				proxy_close(&ph);
			else
				proxy_free(&ph);
			CHECK(live_socks() == 0, "leak-socket", "%s: %s", hist.c_str(), describe_live_socks().c_str());
			CHECK(live_threads() == 0, "leak-thread", "%s: %d threads", hist.c_str(), live_threads());
			drop_client(true);
			if (op == 'F') {
				check_no_leaks("leak");
				conf = -1;
			}
			if (waslive)
				st = op == 'C' ? INIT : UNINIT;
			break;
		}
		}
	}
	if (w.loop) {
		proxy_shutdown(&ph);
		join_loop();
	}
	proxy_free(&ph);
	drop_client(true);
	check_no_leaks("leak");
	count_case(hash_str(hist.c_str()));
	outcome("%c%d %zu", hist.back(), st, hist.size());
}
