// Registration: what the registrar is told, and when (C15, C16).
#include "registrar.h"

// ------------------------------------------------------------------- C15 --
// Clients come, fail and go while reports are in progress and fail; the final report is the truth.
SCENARIO(reg_converge, 0)
{
	World w;
	Cfg c;
	c.regname = "Name";
	c.regcomment = "Comment";
	c.slots = 1 + choose(2, "slots");
	bool f0 = g_focus;
	g_focus = false;
	Registrar R;
	int nm = g_arg ? 1 : 2;
	for (int i = 0; i < nm; i++)
		R.modes.push_back(choose(g_arg == 2 ? 1 : g_arg ? 2 : RM_N, "registrar"));
	R.start();
	w.init(c);
	w.open();
	w.start();
	w.run_loop();
	quiesce();
	// each client: 0 stays, 1 leaves, 2 wrong password, 3 leaves early, 4 comes back, 5 reset
	Client a(w, "203.0.113.5", 50001), b(w, "203.0.113.6", 50002);
	int ka = choose(6, "A"), kb = choose(g_arg == 2 ? 2 : 7, "B");
	auto run = [&](Client &x, int k, const char *call) {
		if (k == 6)
			return;
		Bytes bad = "WRONG";
		if (k == 3) {
			if (x.connect())
				x.close();
			return;
		}
		if (!x.login(call, k == 2 ? &bad : nullptr))
			return;
		if (k == 1)
			x.close();
		else if (k == 5)
			peer_abort(x.s);
		else if (k == 4) {
			x.close();
			x.s = nullptr;
			x.fport += 10;
			x.login(call);
		}
	};
	g_focus = f0;
	Fiber *fa = spawn("A", FK_PEER, [&] { run(a, ka, "W1AW"); });
	Fiber *fb = spawn("B", FK_PEER, [&] { run(b, kb, "K2B"); });
	join_fiber(fa);
	join_fiber(fb);
	quiesce();
	g_focus = false;
	int used = 0;
	for (int i = 0; i < c.slots; i++)
		used += slot_bound(i);
	int want = (ka == 0 || ka == 4) + (kb == 0 || kb == 4);
	CHECK(used <= want && (used == want || c.slots < 2 || ka || kb), "reg-setup", "%d clients admitted, %d expected", used, want);
	// if the latest report was not answered properly or is still waited for, it is repeated
	bool settled = R.got.size() && R.conns > R.modes.size();
	if (settled)
		check_truth(c, R.got.back(), used, "after activity ceased");
	for (int i = 0; i < 3; i++) {
		int n = connects_to_reg();
		u64 t0 = vnow();
		bool ok = wait_until([&] { return connects_to_reg() > n; }, 700);
		CHECK(ok && vnow() - t0 <= 611ull * 1000000000ull, "reg-period", "no report for %lu s", (unsigned long)((vnow() - t0) / 1000000000ull));
		quiesce();
		if (R.conns > R.modes.size())
			check_truth(c, R.got.back(), used, "repeated report");
	}
	for (auto &r : R.got) {
		check_header(r);
		CHECK(!is_off(r), "reg-off", "Off reported while the proxy is running");
	}
	outcome("%d %d %d %d", c.slots, ka, kb, used);
	w.down();
	CHECK(R.got.size() && is_off(R.got.back()), "reg-off", "the last report is '%s'", R.got.back().body.c_str());
}

// Shut down while sessions continue: nothing is free, whoever stays or leaves, until Off.
SCENARIO(reg_drain, 0)
{
	World w;
	Cfg c;
	c.regname = "Name";
	c.slots = 1 + choose(2, "slots");
	bool f0 = g_focus;
	g_focus = false;
	Registrar R;
	R.modes.push_back(RM_OK);
	R.start();
	w.init(c);
	w.open();
	w.start();
	w.run_loop();
	quiesce();
	int n = choose(c.slots + 1, "clients");
	Client a(w, "203.0.113.5", 50001), b(w, "203.0.113.6", 50002);
	Client *cl[] = { &a, &b };
	for (int i = 0; i < n; i++)
		CHECK(admit(*cl[i], i ? "K2B" : "W1AW") >= 0, "setup", "not admitted");
	check_truth(c, R.got.back(), n, "before the shutdown");
	int leave = n ? choose(2, "leave") : 0;
	g_focus = f0;
	Fiber *fa = spawn("A", FK_PEER, [&] {
		if (leave)
			a.close();
	});
	w.shutdown();
	join_fiber(fa);
	quiesce();
	g_focus = false;
	auto busy = [&](const char *when) {
		CHECK(R.got.back().body.find("&status=Busy") != Bytes::npos, "reg-truth", "%s, although no client is admitted any more: '%s'", when,
		      R.got.back().body.c_str());
	};
	busy("after the shutdown");
	for (int i = leave; i < n; i++) {
		cl[i]->close();
		quiesce();
		busy("after a session which outlived the shutdown");
	}
	int k = connects_to_reg();
	CHECK(wait_until([&] { return connects_to_reg() > k; }, 611), "reg-period", "no report for 611 s after the shutdown");
	quiesce();
	busy("repeated report");
	w.down();
	CHECK(is_off(R.got.back()), "reg-off", "the last report is '%s'", R.got.back().body.c_str());
	outcome("%d %d %d", c.slots, n, leave);
}

// Closing at any moment: Off is the last word, and reports resume after a restart.
SCENARIO(reg_off, 0)
{
	World w;
	Cfg c;
	c.regname = "Name";
	c.slots = 1 + choose(g_arg ? 1 : 2, "slots");
	bool f0 = g_focus;
	g_focus = false;
	Registrar R;
	int m0 = choose(g_arg ? 2 : RM_N, "registrar");
	R.modes.push_back(m0);
	R.start();
	w.init(c);
	w.open();
	w.start();
	w.run_loop();
	bool early = choose(2, "close early");
	if (!early)
		quiesce();
	Client a(w);
	int ka = choose(4, "A");
	if (ka == 1) {
		admit(a, "W1AW");
	}
	g_focus = f0;
	Fiber *fa = spawn("A", FK_PEER, [&] {
		if (ka == 0)
			a.login("W1AW");
		else if (ka == 1)
			a.close();
		else if (ka == 2)
			a.connect();
	});
	int how = choose(2, "how");
	if (how == 0) { // as openelpd does
		w.shutdown();
		join_fiber(w.loop);
		w.loop = nullptr;
	} else {
		w.shutdown();
	}
	proxy_close(&w.ph);
	g_focus = false;
	size_t n = R.got.size();
	int k = connects_to_reg();
	if (w.loop) {
		join_fiber(w.loop);
		w.loop = nullptr;
	}
	join_fiber(fa);
	wait_until([] { return false; }, 1500);
	quiesce();
	// the registrar may have been reset before it read the report
	CHECK(connects_to_reg() == k, "reg-after-off", "the registrar is contacted after proxy_close");
	int offs = 0;
	n = R.got.size();
	for (size_t i = 0; i < n; i++) {
		offs += is_off(R.got[i]);
		CHECK(!offs || is_off(R.got[i]), "reg-off", "'%s' is reported after Off", R.got[i].body.c_str());
	}
	bool off_lost = k <= (int)R.modes.size() && m0 == RM_RESET;
	CHECK(offs >= (off_lost ? 0 : 1) && offs <= 2, "reg-off", "Off was reported %d times", offs);
	if (!off_lost)
		CHECK(is_off(R.got.back()), "reg-off", "the last report is '%s'", R.got.back().body.c_str());
	// again
	if (a.s)
		peer_drain(a.s);
	w.open();
	quiesce();
	CHECK(connects_to_reg() == k, "reg-after-off", "the registrar is contacted before the proxy is started again");
	w.start();
	w.run_loop();
	quiesce();
	CHECK(R.got.size() > n, "reg-resume", "nothing is reported after a restart");
	check_truth(c, R.got.back(), 0, "after a restart");
	must_serve(w, "after a restart");
	quiesce();
	check_truth(c, R.got.back(), 0, "after a restart and a session");
	w.down();
	CHECK(is_off(R.got.back()), "reg-off", "the last report is '%s'", R.got.back().body.c_str());
	outcome("%d %d %d %d %d %d", c.slots, m0, early, ka, how, (int)n);
}

// Without a name (or with an empty one) the registrar is never contacted.
SCENARIO(reg_none, 0)
{
	World w;
	Cfg c;
	c.slots = 1 + choose(2, "slots");
	int v = choose(3, "name");
	if (v == 1)
		c.extra = "RegistrationName=\n";
	else if (v == 2)
		c.extra = "RegistrationName=X\nRegistrationName=\nRegistrationComment=c\nPublicAddress=192.0.2.1\n";
	Registrar R;
	bool f0 = g_focus;
	g_focus = false;
	R.start();
	for (int round = 0; round < 2; round++) {
		if (round == 0)
			w.init(c);
		w.open();
		w.start();
		w.run_loop();
		quiesce();
		g_focus = f0;
		Client a(w, "203.0.113.5", 50001 + round), b(w, "203.0.113.6", 50011 + round);
		Bytes bad = "no";
		a.login("W1AW");
		b.login("K2B", &bad);
		quiesce();
		g_focus = false;
		wait_until([] { return false; }, 1300);
		a.close();
		quiesce();
		w.shutdown();
		join_fiber(w.loop);
		w.loop = nullptr;
		proxy_close(&w.ph);
		quiesce();
		CHECK(connects_to_reg() == 0 && R.conns == 0, "reg-none", "the registrar was contacted");
		g_focus = f0;
	}
	g_focus = false;
	proxy_free(&w.ph);
	check_no_leaks("leak");
	outcome("%d %d", c.slots, v);
}

// Open periods with different configurations: each period reports its own settings; periods which are never started report nothing.
SCENARIO(reg_history, 0)
{
	World w;
	Cfg c;
	g_focus = false;
	Registrar R;
	R.start();
	int n = g_arg ? g_arg : 3;
	bool first = true;
	Bytes hist;
	for (int i = 0; i < n; i++) {
		int op = choose(6, "period"); // bit 0.. : 0 not started, 1 named, 2 unnamed, 3 other name, 4 named+client, 5 reload nothing
		hist += (char)('0' + op);
		c = Cfg();
		c.regname = op == 1 || op == 4 || op == 5 ? "Name" : op == 3 ? "Other proxy with a longer name" : op == 0 ? "Never" : "";
		if (op == 3) {
			c.regcomment = "C";
			c.pubaddr = "192.0.2.9";
			c.slots = 2;
		}
		if (op == 5)
			c.password = "secret";
		if (first) {
			w.init(c);
		} else {
			c.extra = "RegistrationName=" + c.regname + "\nRegistrationComment=" + c.regcomment + "\nPublicAddress=" + c.pubaddr +
				  "\n" + (c.slots > 1 ? "" : "AdditionalExternalBindAddresses=\n");
			SS->files["/elp.conf"] = c.text();
			w.cfg = c;
			int r = proxy_load_conf(&w.ph, "/elp.conf");
			CHECK(r >= 0, "setup", "proxy_load_conf: %d", r);
		}
		first = false;
		size_t g0 = R.got.size();
		int k0 = connects_to_reg();
		w.open();
		if (op == 0) {
			wait_until([] { return false; }, 700);
			proxy_close(&w.ph);
			quiesce();
			CHECK(connects_to_reg() == k0, "reg-none", "period %d was never started but reported (%s)", i, hist.c_str());
			continue;
		}
		w.start();
		w.run_loop();
		quiesce();
		if (op == 2) {
			must_serve(w, "unnamed period");
		} else {
			CHECK(R.got.size() > g0, "reg-resume", "nothing is reported in period %d of %s", i, hist.c_str());
			check_truth(c, R.got.back(), 0, hist.c_str());
			if (op == 4) {
				Client a(w);
				admit(a, "W1AW");
				quiesce();
				check_truth(c, R.got.back(), 1, hist.c_str());
				a.close();
				quiesce();
				check_truth(c, R.got.back(), 0, hist.c_str());
			}
		}
		w.shutdown();
		join_fiber(w.loop);
		w.loop = nullptr;
		proxy_close(&w.ph);
		quiesce();
		if (op == 2) {
			CHECK(connects_to_reg() == k0, "reg-none", "an unnamed proxy reported (%s)", hist.c_str());
			continue;
		}
		int offs = 0;
		for (size_t j = g0; j < R.got.size(); j++)
			offs += is_off(R.got[j]);
		CHECK(offs >= 1 && is_off(R.got.back()), "reg-off", "period %d of %s: %d reports of Off", i, hist.c_str(), offs);
	}
	count_case(hash_str(hist.c_str()));
	outcome("%s", hist.c_str());
	proxy_free(&w.ph);
	check_no_leaks("leak");
}

// ------------------------------------------------------------------- C16 --
SCENARIO(reg_content, 0)
{
	World w;
	Cfg c;
	static const int NL[] = { 1, 4, 17, 47, 48, 100, 300, 1000 };
	static const int CL[] = { -1, 0, 1, 39, 128, 500 };
	static const char *PA[] = { "", "1.2.3.4", "192.168.100.200", "proxy.some-very-long-host-name.example.org" };
	static const char *PW[] = { "PUBLIC", "public", "s3cret", "PUBLI", "PUBLICX", "PUBLIC 1", "XPUBLIC", "Public", "P" };
	static const int PORT[] = { 1, 80, 8100, 65535 };
	int a = choose(8, "name"), b = choose(6, "comment"), d = choose(4, "address"), e = choose(9, "password"),
	    f = choose(g_tier ? 4 : 2, "port");
	c.regname = Bytes(NL[a], 'n');
	for (int i = 0; i < NL[a]; i++)
		c.regname[i] = "NameProxy0.-_"[i % 13];
	if (CL[b] >= 0)
		c.regcomment = Bytes(CL[b], 'c');
	if (CL[b] == 0)
		c.extra = "RegistrationComment=\n";
	if (CL[b] == 39)
		c.regcomment = "%s%d%n comment, with [brackets] & more";
	c.pubaddr = PA[d];
	c.password = PW[e];
	c.port = g_tier ? PORT[f] : f ? 65535 : 1;
	c.slots = 1 + choose(3, "slots");
	SS->ipv6 = f; // and then the registrar has IPv6 addresses, too
	g_focus = false;
	Registrar R;
	R.start();
	w.up(c);
	CHECK(R.got.size() >= 1, "reg-none", "nothing was reported");
	check_truth(c, R.got.back(), 0, "idle");
	Client k(w);
	CHECK(admit(k, "W1AW") >= 0, "setup", "not admitted");
	quiesce();
	check_truth(c, R.got.back(), 1, "one client");
	w.down();
	for (size_t i = 0; i < R.got.size(); i++) {
		check_header(R.got[i]);
		const char *st[] = { "Ready", "Busy", "Off" };
		bool ok = false;
		for (int s = 0; s < 3; s++)
			for (int u = 0; u <= c.slots; u++)
				ok |= R.got[i].body == ref_body(c, st[s], u, c.slots) || // or no longer accepting
				      R.got[i].body == ref_body(c, st[s], u, 0);
		CHECK(ok, "reg-format", "report '%s'", R.got[i].body.c_str());
		count_case(hash_bytes(R.got[i].body.data(), R.got[i].body.size()));
	}
	for (auto &x : tcp_connects())
		CHECK(x.to == ip(REG) && x.port == 80, "reg-dest", "connected to %s:%d", ipstr(x.to).c_str(), x.port);
	// the Off report names the last known counts or the final ones; its status is Off
	CHECK(R.got.back().body.find("&status=Off&") != Bytes::npos, "reg-off", "last report '%s'", R.got.back().body.c_str());
	outcome("%d %d %d %d %d %d", a, b, d, e, f, c.slots);
}

// The request arrives complete however slowly the registrar reads and in whatever pieces the kernel accepts it.
SCENARIO(reg_send, F_SHORT_SEND | F_SHORT_RECV)
{
	World w;
	Cfg c;
	c.regname = "Name";
	c.regcomment = "Some comment";
	c.slots = 2;
	Registrar R;
	int cap = choose(3, "buffer");
	u32 keep = g_faults;
	g_faults = 0;
	bool f0 = g_focus;
	g_focus = false;
	NC.capacity = cap == 0 ? 7 : cap == 1 ? 150 : 1 << 20;
	R.start();
	w.init(c);
	w.open();
	g_faults = keep;
	g_focus = f0;
	w.start();
	quiesce();
	g_focus = false;
	g_faults = 0;
	w.run_loop();
	quiesce();
	CHECK(R.got.size() >= 1, "reg-none", "nothing was reported");
	check_truth(c, R.got.back(), 0, "idle");
	for (auto &r : R.got)
		check_header(r);
	w.down();
	outcome("%d %zu", cap, R.got.size());
}
