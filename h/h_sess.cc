// Sessions and slots: C06, C07, C08, C09, C10.
#include "world.h"
extern "C" uint8_t pearson_get(const uint8_t *data, size_t data_len) __attribute__((weak));

// No external port may be bound twice, and no more sessions exist than there are slots.
static int g_slots;
static void watch_exclusive(int slots)
{
	g_slots = slots;
	mon_udp_bind = new std::function<void(u32, u16, int, int)>([](u32 a, u16 port, int d, int now) {
		CHECK(now <= 1, "exclusive", "%s:%u is bound %d times at once", ipstr(a).c_str(), port, now);
		int n = 0;
		for (auto &b : udp_bound())
			n += b.second == 5198;
		CHECK(n <= g_slots, "exclusive", "%d data ports are bound with %d slots", n, g_slots);
	});
}

// Once everybody is gone: exactly as many clients as slots fit.
static void check_capacity(World &w, int slots, const char *what)
{
	bool f = g_focus;
	g_focus = false;
	CHECK(slots_bound(slots) == 0 && sut_open().udp == 0, "not-released", "%s: external ports remain open: %s", what,
	      describe_live_socks().c_str());
	std::vector<Client *> v;
	static const char *calls[] = { "CAP1", "CAP2", "CAP3" };
	bool used[3] = {};
	for (int i = 0; i < slots; i++) {
		Client *c = new Client(w, "203.0.113.60", 52000 + i);
		int k = admit(*c, calls[i]);
		CHECK(k >= 0 && !used[k], "slot-lost", "%s: only %d of %d clients can be admitted", what, i, slots);
		used[k] = true;
		size_t n0 = udp_sent().size();
		c->send(mkmsg(T_UDATA, "198.51.100.90", "cap"));
		quiesce();
		CHECK(udp_sent().size() == n0 + 1 && udp_sent().back().saddr == ip(EXT[k]), "slot-dead",
		      "%s: a client admitted afterwards is not served", what);
		v.push_back(c);
	}
	Client x(w, "203.0.113.61", 52010);
	CHECK(x.connect(), "refused", "connect");
	quiesce();
	CHECK(peer_eof(x.s) && peer_pending(x.s) == 0, "too-many", "%s: one client too many is not turned away", what);
	x.close();
	for (auto c : v)
		c->close();
	quiesce();
	g_focus = f;
}

// ------------------------------------------------------- C06/C07 histories --
struct SlotModel {
	std::vector<int> pool; // oldest first
	std::vector<Bytes> last;
	std::vector<bool> ever;
	SlotModel(int n) : last(n), ever(n)
	{
		for (int i = 0; i < n; i++)
			pool.push_back(i);
	}
	// the slots a client with this callsign may get
	std::vector<int> allowed(const Bytes &call) const
	{
		std::vector<int> r;
		for (int s : pool)
			if (ever[s] && last[s] == call)
				r.push_back(s);
		if (r.empty() && !pool.empty())
			r.push_back(pool[0]);
		return r;
	}
	void take(int s, const Bytes &call)
	{
		for (size_t i = 0; i < pool.size(); i++)
			if (pool[i] == s)
				pool.erase(pool.begin() + i);
		last[s] = call;
		ever[s] = true;
	}
	void release(int s) { pool.push_back(s); }
};

static u8 hash_of(const Bytes &s) { return pearson_get ? pearson_get((const u8 *)s.data(), s.size()) : 0; }

static Bytes colliding(const Bytes &with, int skip)
{
	u8 h = hash_of(with);
	for (char a = 'A'; a <= 'Z'; a++)
		for (char b = 'A'; b <= 'Z'; b++)
			for (char d = '0'; d <= '9'; d++) {
				Bytes s = Bytes("K") + d + a + b;
				if (hash_of(s) == h && s != with && skip-- == 0)
					return s;
			}
	return "K9ZZ";
}
// callsigns of full length which start with `head`, share its hash bucket and differ in their last two characters only
static Bytes extending(const Bytes &head, int k)
{
	u8 h = hash_of(head);
	Bytes s = head;
	s.resize(7, 'X');
	for (char d = '0'; d <= '9'; d++) {
		std::vector<Bytes> v;
		for (char a = 'A'; a <= 'Z'; a++)
			for (char b = 'A'; b <= 'Z'; b++) {
				Bytes t = s + d + a + b;
				if (hash_of(t) == h)
					v.push_back(t);
			}
		if (v.size() > 1)
			return v[k];
	}
	return s + (k ? "9ZZ" : "9YZ");
}

SCENARIO(slots_hist, 0)
{
	World w;
	Cfg c;
	// 1xx, 2xx: long histories of two callsigns which never ask for more than there is, on two or three addresses
	bool lng = g_arg >= 100;
	c.slots = lng ? g_arg / 100 + 1 : g_arg >= 10 ? 3 : 2;
	int depth = lng ? g_arg % 100 : g_arg % 10 ? g_arg % 10 : 5;
	w.up(c);
	g_focus = false;
	watch_exclusive(c.slots);
	SlotModel m(c.slots);
	// two callsigns sharing a hash bucket, and a prefix of one of them
	Bytes calls[4] = { "W1AW", colliding("W1AW", 0), "W1A", "" };
	if (choose(2, "callsigns") == 1) {
		// all in one bucket: a short one, and two of full length which begin with it and differ at the end only
		calls[1] = extending("W1AW", 0);
		calls[2] = extending("W1AW", 1);
	} else if (lng)
		calls[1] = "K2A"; // another bucket
	int ncalls = lng ? 2 : c.slots == 3 ? 3 : 4;
	std::vector<std::pair<Client *, int>> act; // active sessions and their slots
	std::vector<Bytes> actcall;
	Bytes what;
	u16 port = 50001;
	for (int i = 0; i < depth; i++) {
		bool full = lng && m.pool.empty();
		int op = choose((full ? 0 : ncalls) + (int)act.size(), "op") + (full ? ncalls : 0);
		if (op < ncalls) {
			what += " +" + calls[op];
			Client *k = new Client(w, "203.0.113.5", port++);
			CHECK(k->connect(), "refused", "connect");
			quiesce();
			if (m.pool.empty()) {
				CHECK(peer_eof(k->s) && peer_pending(k->s) == 0, "too-many", "history%s: admitted beyond capacity",
				      what.c_str());
				k->close();
				quiesce();
				continue;
			}
			bool before[3];
			for (int j = 0; j < 3; j++)
				before[j] = slot_bound(j);
			CHECK(k->get_nonce(), "slot-lost", "history%s: turned away although a slot is free", what.c_str());
			k->send(calls[op] + "\n" + k->response(c.password));
			quiesce();
			int got = -1;
			for (int j = 0; j < 3; j++)
				if (slot_bound(j) && !before[j])
					got = j;
			CHECK(got >= 0, "slot-lost", "history%s: not admitted although a slot is free", what.c_str());
			auto al = m.allowed(calls[op]);
			bool ok = false;
			for (int s : al)
				ok |= s == got;
			CHECK(ok, "slot-choice", "history%s: given address %d, expected %d", what.c_str(), got, al[0]);
			m.take(got, calls[op]);
			act.push_back({ k, got });
		} else {
			int j = op - ncalls;
			what += " -" + std::to_string(act[j].second);
			int how = (i + j) % 3; // the way of leaving alternates
			if (how == 0)
				act[j].first->close();
			else if (how == 1)
				peer_abort(act[j].first->s);
			else
				act[j].first->send(mkmsg(77, nullptr, ""));
			quiesce();
			CHECK(!slot_bound(act[j].second), "not-released", "history%s: ports remain open", what.c_str());
			m.release(act[j].second);
			act.erase(act.begin() + j);
		}
		CHECK(slots_bound(c.slots) == (int)act.size(), "exclusive", "history%s: %d slots in use, %zu sessions", what.c_str(),
		      slots_bound(c.slots), act.size());
	}
	for (auto &a : act) {
		a.first->close();
		quiesce(); // one at a time
	}
	check_capacity(w, c.slots, what.c_str());
	count_case(hash_str(what.c_str()));
	outcome("%s", what.c_str());
	w.down();
}

// A callsign for every hash bucket, every byte value and every length, each coming, leaving and coming back, also after the
// proxy was closed and opened again (which makes it forget).
SCENARIO(slots_buckets, 0, false, 40000000)
{
	int kind = choose(2, "callsigns");
	World w;
	Cfg c;
	c.slots = 2 + choose(2, "slots");
	w.up(c);
	g_focus = false;
	watch_exclusive(c.slots);
	std::vector<Bytes> calls;
	if (kind == 0) {
		calls.resize(256);
		int left = 256;
		for (u32 i = 0; left && i < 4000000; i++) {
			// lengths 1 to 10
			Bytes s = std::to_string(i), t = Bytes("W") + (s.size() > 1 ? s : "");
			t.resize(std::min<size_t>(10, t.size() + i % 6), 'X');
			u8 h = pearson_get ? hash_of(t) : (u8)i;
			if (calls[h].empty())
				calls[h] = t, left--;
		}
	} else {
		for (int b = 0x21; b < 0x100; b++)
			if (b != 0x7f)
				calls.push_back(Bytes("W") + (char)b + "AW"), calls.push_back(Bytes(1, (char)b));
		for (int n = 1; n <= 10; n++)
			calls.push_back(Bytes("ABCDEFGHIJ").substr(0, n)), calls.push_back(Bytes(n, 'Q'));
	}
	u16 port = 50001;
	auto turn = [&](SlotModel &m, const Bytes &call, int round) {
		Client k(w, "203.0.113.5", port);
		port = port == 59000 ? 50001 : port + 1;
		int got = admit(k, call);
		CHECK(got >= 0, "slot-lost", "round %d: '%s' is not admitted although a slot is free", round, call.c_str());
		auto al = m.allowed(call);
		bool ok = false;
		for (int s : al)
			ok |= s == got;
		CHECK(ok, "slot-choice", "round %d: '%s' is given address %d, expected %d", round, call.c_str(), got, al[0]);
		m.take(got, call);
		k.close();
		quiesce();
		CHECK(!slot_bound(got), "not-released", "round %d: ports remain open after '%s'", round, call.c_str());
		m.release(got);
	};
	for (int r = 0; r < 2; r++) {
		SlotModel m(c.slots);
		for (size_t i = 0; i < calls.size(); i++) {
			const Bytes &a = calls[i], &b = calls[(i + 1) % calls.size()];
			turn(m, a, r);
			turn(m, b, r);
			turn(m, a, r);
			turn(m, a, r);
			turn(m, b, r);
			count_case(mix(r * 2 + kind, i * 4 + c.slots));
		}
		if (r)
			break;
		proxy_shutdown(&w.ph);
		join_fiber(w.loop);
		proxy_close(&w.ph);
		w.open();
		w.start();
		w.run_loop();
		quiesce();
	}
	check_capacity(w, c.slots, "callsigns");
	outcome("%d", kind);
	w.down();
}

// Clients which fail before or while being admitted, mixed with good ones (one resource failure each time).
SCENARIO(slots_fail, F_SOCK | F_SENDERR | F_RECVERR | F_PTHREAD | F_MALLOC | F_ACCEPT)
{
	World w;
	Cfg c;
	c.slots = 1 + choose(2, "slots");
	u32 keep = g_faults;
	g_faults = 0;
	w.retry = 3;
	w.up(c);
	watch_exclusive(c.slots);
	g_focus = false;
	int first = choose(2, "first used before");
	if (first) {
		Client z(w, "203.0.113.40", 50900);
		CHECK(admit(z, "W1AW") >= 0, "setup", "admit");
		z.close();
		quiesce();
	}
	g_faults = keep;
	std::vector<Client *> v;
	for (int i = 0; i < 2; i++) {
		int kind = choose(6, "client");
		Client *k = new Client(w, "203.0.113.5", 50010 + i);
		v.push_back(k);
		if (!k->connect()) {
			k->s = nullptr;
			continue;
		}
		quiesce();
		if (kind == 0) {
			k->close();
			k->s = nullptr;
			quiesce();
			continue;
		}
		if (peer_pending(k->s) < 8)
			continue;
		k->get_nonce();
		Bytes good = "W1AW\n" + k->response(c.password);
		switch (kind) {
		case 1: k->send("W1AW\n" + Bytes(16, 'x')); break;
		case 2: k->send(good); break;
		case 3: k->send(good + mkmsg(99, nullptr, "")); break;
		case 4: k->send(good.substr(0, 7)); peer_abort(k->s); k->s = nullptr; break;
		case 5: k->send("K2A\n" + k->response(c.password)); break;
		}
		quiesce();
	}
	g_faults = 0;
	for (auto k : v)
		if (k->s)
			k->close();
	quiesce();
	check_capacity(w, c.slots, "after failing clients");
	outcome("%d %d", c.slots, faults_taken());
	w.down();
}

// Several clients arrive at once on a proxy with room for all of them.
SCENARIO(slots_arrive, 0)
{
	World w;
	Cfg c;
	c.slots = g_arg == 3 ? 3 : 2;
	w.up(c);
	watch_exclusive(c.slots);
	g_focus = false;
	int history = choose(3, "history"); // who was here before
	if (history) {
		Client z(w, "203.0.113.40", 50900);
		CHECK(admit(z, history == 1 ? "W1AW" : "K2E") >= 0, "setup", "admit");
		z.close();
		quiesce();
	}
	int same = choose(2, "callsigns");
	g_focus = true;
	std::vector<Client> v;
	for (int i = 0; i < c.slots; i++)
		v.emplace_back(w, "203.0.113.6", 50002 + i);
	std::vector<Fiber *> fs;
	bool shaken[3] = {};
	for (int i = 0; i < c.slots; i++) {
		CHECK(v[i].connect(), "refused", "connect");
		fs.push_back(spawn("arrival", FK_PEER, [&, i] {
			if (!v[i].get_nonce())
				return;
			shaken[i] = true;
			v[i].send(Bytes(i && !same ? "K2E" : "W1AW") + "\n" + v[i].response(c.password));
		}));
	}
	for (auto f : fs)
		join_fiber(f);
	quiesce();
	g_focus = false;
	u32 used = 0;
	for (int i = 0; i < c.slots; i++) {
		CHECK(shaken[i], "slot-lost", "client %d was turned away although there is room", i);
		CHECK(!peer_eof(v[i].s), "not-admitted", "client %d gave the right response but was disconnected", i);
		size_t n0 = udp_sent().size();
		v[i].send(mkmsg(T_UDATA, "198.51.100.90", "x"));
		quiesce();
		CHECK(udp_sent().size() == n0 + 1, "slot-dead", "client %d is not served", i);
		for (int j = 0; j < 3; j++)
			if (udp_sent().back().saddr == ip(EXT[j])) {
				CHECK(!(used >> j & 1), "exclusive", "two sessions share address %d", j);
				used |= 1u << j;
			}
	}
	CHECK(slots_bound(c.slots) == c.slots, "exclusive", "%d slots in use for %d sessions", slots_bound(c.slots), c.slots);
	outcome("%d %d", history, same);
	for (auto &x : v)
		x.close();
	quiesce();
	check_capacity(w, c.slots, "after simultaneous arrivals");
	w.down();
}

// Leaving, reconnecting and arriving clients, in every interleaving.
SCENARIO(slots_race, 0)
{
	World w;
	Cfg c;
	c.slots = g_arg == 1 ? 1 : 2;
	w.up(c);
	watch_exclusive(c.slots);
	g_focus = false;
	Client a(w, "203.0.113.5", 50001), d(w, "203.0.113.9", 50009);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	int leave = choose(3, "leave");
	int two = choose(2, "arrivals");
	if (c.slots == 2 && choose(2, "second session"))
		CHECK(admit(d, "K2D") == 1, "setup", "not admitted");
	g_focus = true;
	bool admitted[2] = {}, shaken[2] = {};
	auto arrive = [&](Client &x, const char *call, int i) {
		if (!x.connect())
			return;
		if (!x.get_nonce())
			return;
		shaken[i] = true;
		x.send(Bytes(call) + "\n" + x.response(c.password));
	};
	Client b(w, "203.0.113.6", 50002), e(w, "203.0.113.7", 50003);
	Fiber *f1 = spawn("leaver", FK_PEER, [&] {
		if (leave == 0)
			a.close();
		else if (leave == 1)
			peer_abort(a.s);
		else
			a.send(mkmsg(99, nullptr, ""));
	});
	Fiber *f2 = spawn("reconnect", FK_PEER, [&] { arrive(b, "W1AW", 0); });
	Fiber *f3 = two ? spawn("other", FK_PEER, [&] { arrive(e, "K2E", 1); }) : nullptr;
	join_fiber(f1);
	join_fiber(f2);
	if (f3)
		join_fiber(f3);
	quiesce();
	g_focus = false;
	Client *cl[2] = { &b, &e };
	int nadm = 0;
	for (int i = 0; i < 1 + two; i++) {
		if (!cl[i]->s)
			continue;
		bool gone = peer_eof(cl[i]->s);
		if (shaken[i]) {
			CHECK(!gone && peer_pending(cl[i]->s) == 0, "not-admitted", "client %d gave the right response but was disconnected",
			      i);
			admitted[i] = true;
			nadm++;
			size_t n0 = udp_sent().size();
			cl[i]->send(mkmsg(T_UDATA, "198.51.100.90", i ? "e" : "b"));
			quiesce();
			CHECK(udp_sent().size() == n0 + 1 && udp_sent().back().data == (i ? "e" : "b"), "slot-dead",
			      "client %d is not served", i);
		} else
			CHECK(gone, "stuck", "client %d got no nonce and stays connected", i);
	}
	int others = d.s ? 1 : 0;
	CHECK(slots_bound(c.slots) == nadm + others, "exclusive", "%d slots in use for %d sessions", slots_bound(c.slots),
	      nadm + others);
	if (admitted[0] && admitted[1]) {
		// distinct addresses
		u32 x = udp_sent()[udp_sent().size() - 1].saddr, y = udp_sent()[udp_sent().size() - 2].saddr;
		CHECK(x != y, "exclusive", "two sessions share %s", ipstr(x).c_str());
	}
	outcome("%d%d%d %d%d", leave, two, others, admitted[0], admitted[1]);
	for (int i = 0; i < 2; i++)
		if (cl[i]->s)
			cl[i]->close();
	if (leave == 2)
		a.close();
	if (d.s)
		d.close();
	quiesce();
	check_capacity(w, c.slots, "after the race");
	w.down();
}

// ------------------------------------------------------------------- C08 --
static void only_tagged(Client &c, const char *tag, size_t want, const char *what)
{
	c.drain();
	CHECK(c.rx.empty(), "framing", "%s: incomplete message", what);
	for (auto &m : c.msgs) {
		if (m.type == T_TSTATUS || m.type == T_TCLOSE)
			continue;
		CHECK(m.data.compare(0, strlen(tag), tag) == 0, "isolation", "%s: received '%s', which belongs to another session",
		      what, show(m.data).c_str());
	}
	if (want != (size_t)-1)
		CHECK(c.msgs.size() == want, "isolation", "%s: received %s, %zu messages were due", what, show(c.msgs).c_str(), want);
}

SCENARIO(iso_concurrent, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	watch_exclusive(2);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w, "203.0.113.5", 50001), b(w, "203.0.113.6", 50002);
	CHECK(admit(a, "W1AW") == 0 && admit(b, "K2B") == 1, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *ta = peer_accept(l);
	quiesce();
	b.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *tb = peer_accept(l);
	quiesce();
	a.drain();
	b.drain();
	a.msgs.clear();
	b.msgs.clear();
	// how A behaves while B is served: leaves, is reset, misbehaves, stops reading
	int how = choose(5, "A");
	// which of the connections carry traffic towards the clients
	int ctrl = choose(2, "traffic");
	if (how == 4)
		NC.capacity = 64;
	g_focus = true;
	Fiber *fa = spawn("A", FK_PEER, [&] {
		a.send(mkmsg(T_UDATA, "198.51.100.50", "A-out"));
		if (how == 0)
			a.close();
		else if (how == 1)
			peer_abort(a.s);
		else if (how == 2)
			a.send(mkmsg(0, nullptr, ""));
		else if (how == 3)
			a.send(mkmsg(T_TCLOSE, nullptr, ""));
	});
	Fiber *fn = spawn("network", FK_PEER, [&] {
		Bytes big = "A" + Bytes(how == 4 ? 80 : 5, 'a');
		if (ctrl) {
			peer_sendto("198.51.100.51", 5199, ip(EXT[0]), 5199, big);
			peer_sendto("198.51.100.51", 5199, ip(EXT[1]), 5199, "B-ctrl");
			peer_sendto("198.51.100.51", 5198, ip(EXT[1]), 5198, "B-data");
		} else {
			peer_sendto("198.51.100.51", 5198, ip(EXT[0]), 5198, big);
			peer_sendto("198.51.100.51", 5198, ip(EXT[1]), 5198, "B-data");
			peer_send(ta, "A" + Bytes(how == 4 ? 60 : 3, 't'));
			peer_send(tb, "B-tcp");
		}
	});
	Fiber *fb = spawn("B", FK_PEER, [&] {
		b.send(mkmsg(T_UCTRL, "198.51.100.52", "B-out") + mkmsg(T_TDATA, nullptr, "B-to-tcp"));
	});
	Fiber *rb = spawn("B-rx", FK_PEER, [&] {
		while (b.msgs.size() < 2 && b.more())
			;
	});
	join_fiber(fb);
	join_fiber(rb);
	if (how != 4) {
		join_fiber(fa);
		join_fiber(fn);
	}
	quiesce();
	g_focus = false;
	only_tagged(b, "B", 2, "session B");
	CHECK(slot_bound(1) && !peer_eof(b.s) && !peer_eof(tb), "isolation", "session B was disturbed");
	Bytes gb = peer_drain(tb);
	CHECK(gb == "B-to-tcp", "isolation", "B's TCP peer received '%s'", show(gb).c_str());
	Bytes ga = peer_drain(ta);
	CHECK(ga.empty(), "isolation", "A's TCP peer received '%s'", show(ga).c_str());
	int nb = 0, na = 0;
	for (auto &d : udp_sent()) {
		bool isb = d.data == "B-out";
		CHECK(isb || d.data == "A-out", "isolation", "datagram '%s' sent", show(d.data).c_str());
		CHECK(d.saddr == ip(EXT[isb ? 1 : 0]), "isolation", "datagram '%s' sent from %s", show(d.data).c_str(),
		      ipstr(d.saddr).c_str());
		(isb ? nb : na)++;
	}
	CHECK(nb == 1, "isolation", "B's datagram was sent %d times", nb);
	CHECK(how < 2 ? na <= 1 : na == 1, "isolation", "A's datagram was sent %d times", na);
	if (how == 2 || how == 3)
		only_tagged(a, "A", (size_t)-1, "session A");
	outcome("%d %d", how, ctrl);
	NC.capacity = 1u << 20;
	peer_drain(a.s);
	if (how > 1)
		a.close();
	b.close();
	quiesce();
	CHECK(sut_open().tcp_conn == 0 && sut_open().udp == 0, "not-released", "sockets remain: %s", describe_live_socks().c_str());
	w.down();
}

// One address, one session after the other; what belonged to the first must not reach the second.
SCENARIO(iso_consecutive, 0)
{
	World w;
	Cfg c;
	w.up(c);
	watch_exclusive(1);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w, "203.0.113.5", 50001);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *ta = peer_accept(l);
	quiesce();
	a.drain();
	int how = choose(3, "end");
	int slow = choose(2, "A does not read");
	bool same = choose(2, "same callsign");
	if (slow)
		NC.capacity = 16;
	g_focus = true;
	Client b(w, "203.0.113.6", 50002), b2(w, "203.0.113.6", 50003);
	Client *bb = nullptr;
	Fiber *ft = spawn("tcp", FK_PEER, [&] {
		peer_send(ta, "A-tcp-data-1");
		peer_send(ta, "A-tcp-data-2");
	});
	Fiber *fa = spawn("A", FK_PEER, [&] {
		peer_sendto("198.51.100.51", 5198, ip(EXT[0]), 5198, "A-data-before-the-end");
		peer_sendto("198.51.100.51", 5199, ip(EXT[0]), 5199, "A-ctrl-before-the-end");
		if (how == 0)
			a.close();
		else if (how == 1)
			peer_abort(a.s);
		else
			peer_shutdown_wr(a.s);
	});
	Fiber *fb = spawn("B", FK_PEER, [&] {
		if (!b.connect())
			return;
		if (!b.get_nonce()) {
			// too early: try once more
			if (!b2.connect() || !b2.get_nonce())
				return;
			bb = &b2;
		} else
			bb = &b;
		bb->send(Bytes(same ? "W1AW" : "K2B") + "\n" + bb->response(c.password));
	});
	join_fiber(fa);
	join_fiber(fb);
	quiesce();
	g_focus = false;
	NC.capacity = 1u << 20;
	if (slow)
		peer_drain(a.s);
	quiesce();
	if (!bb || !bb->s || peer_eof(bb->s)) {
		CHECK(!bb, "not-admitted", "B gave the right response but was disconnected");
		bb = new Client(w, "203.0.113.6", 50009);
		CHECK(admit(*bb, "K2B") == 0, "slot-lost", "B is not admitted after A has gone");
	}
	join_fiber(ft);
	peer_sendto("198.51.100.51", 5198, ip(EXT[0]), 5198, "B-data");
	quiesce();
	only_tagged(*bb, "B-data", 1, "session B");
	if (how != 1) {
		a.drain();
		for (auto &m : a.msgs)
			CHECK(m.data.empty() || m.data[0] == 'A' || m.type == T_TSTATUS, "isolation", "A received '%s'",
			      show(m.data).c_str());
	}
	CHECK(peer_eof(ta) || peer_reset_seen(ta), "not-released", "A's TCP connection is still open");
	outcome("%d%d%d %d", how, slow, same, bb == &b ? 1 : bb == &b2 ? 2 : 3);
	bb->close();
	quiesce();
	check_capacity(w, 1, "after two sessions");
	w.down();
}

// Requests of two sessions worked on at the same time: connections to different hosts, datagrams to different addresses.
SCENARIO(iso_open, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	watch_exclusive(2);
	g_focus = false;
	static const char *TO[2] = { "198.51.100.9", "203.0.113.77" };
	Client cl[2] = { Client(w, "203.0.113.5", 50001), Client(w, "203.0.113.6", 50002) };
	CHECK(admit(cl[0], "W1AW") == 0 && admit(cl[1], "K2B") == 1, "setup", "not admitted");
	int other = choose(3, "host of B"); // accepts, refuses, unreachable
	int before = choose(2, "connected before");
	Sock *l[2] = { peer_listen(TO[0], 5200), nullptr }, *old = nullptr;
	if (other == 0)
		l[1] = peer_listen(TO[1], 5200);
	else
		peer_mode(TO[1], 5200, other == 1 ? CM_REFUSE : CM_UNREACH);
	if (before) {
		Sock *lo = peer_listen("198.51.100.8", 5200);
		cl[1].send(mkmsg(T_OPEN, "198.51.100.8", ""));
		old = peer_accept(lo);
		quiesce();
		cl[1].drain();
		cl[1].msgs.clear();
	}
	size_t c0 = tcp_connects().size();
	g_focus = true;
	Fiber *f[2];
	for (int i = 0; i < 2; i++)
		f[i] = spawn(i ? "B" : "A", FK_PEER, [&, i] {
			cl[i].send(mkmsg(T_OPEN, TO[i], "") + mkmsg(i ? T_UDATA : T_UCTRL, TO[i], i ? "B-out" : "A-out") +
				   mkmsg(T_TDATA, nullptr, i ? "B-tcp" : "A-tcp"));
		});
	join_fiber(f[0]);
	join_fiber(f[1]);
	quiesce();
	g_focus = false;
	int n[2] = {};
	for (size_t k = c0; k < tcp_connects().size(); k++) {
		auto &r = tcp_connects()[k];
		int i = r.from == ip(EXT[1]);
		n[i]++;
		CHECK(r.to == ip(TO[i]) && r.from == ip(EXT[i]), "isolation", "connection from %s to %s", ipstr(r.from).c_str(), ipstr(r.to).c_str());
	}
	CHECK(n[0] == 1 && n[1] == 1, "isolation", "%d and %d connection attempts", n[0], n[1]);
	int nd[2] = {};
	for (auto &d : udp_sent()) {
		int i = d.data == "B-out";
		CHECK(i || d.data == "A-out", "isolation", "datagram '%s'", show(d.data).c_str());
		CHECK(d.saddr == ip(EXT[i]) && d.daddr == ip(TO[i]), "isolation", "datagram '%s' from %s to %s", show(d.data).c_str(),
		      ipstr(d.saddr).c_str(), ipstr(d.daddr).c_str());
		nd[i]++;
	}
	CHECK(nd[0] == 1 && nd[1] == 1, "isolation", "%d and %d datagrams sent", nd[0], nd[1]);
	for (int i = 0; i < 2; i++) {
		Client &x = cl[i];
		x.drain();
		bool est = i == 0 || other == 0;
		std::vector<int> want, got;
		if (i && before)
			want.push_back(T_TCLOSE);
		want.push_back(T_TSTATUS);
		if (!est)
			want.push_back(T_TCLOSE); // data for no connection may be answered
		for (auto &m : x.msgs)
			got.push_back(m.type);
		if (!est && got.size() < want.size())
			want.pop_back();
		CHECK(got == want && x.rx.empty(), "isolation", "session %d received %s", i, show(x.msgs).c_str());
		for (auto &m : x.msgs)
			if (m.type == T_TSTATUS)
				CHECK(m.data.size() == 4 && (m.data == Bytes(4, 0)) == est, "isolation", "session %d: status %s", i,
				      show(m.data).c_str());
		CHECK(slot_bound(i) && !peer_eof(x.s), "isolation", "session %d was ended", i);
		if (est) {
			Sock *t = peer_accept(l[i]);
			quiesce();
			CHECK(peer_drain(t) == (i ? "B-tcp" : "A-tcp"), "isolation", "the TCP peer of session %d received something else", i);
			x.msgs.clear();
			peer_send(t, i ? "B-in" : "A-in");
			quiesce();
			only_tagged(x, i ? "B-in" : "A-in", 1, i ? "session B" : "session A");
		}
	}
	if (old)
		CHECK(peer_eof(old) || peer_reset_seen(old), "tcp-still-open", "the replaced connection stays open");
	outcome("%d %d", other, before);
	cl[0].close();
	cl[1].close();
	quiesce();
	CHECK(sut_open().tcp_conn == 0 && sut_open().udp == 0, "not-released", "sockets remain: %s", describe_live_socks().c_str());
	w.down();
}

// ------------------------------------------------------------------- C09 --
enum Phase { P_NONE, P_SILENT, P_HALF, P_IDLE, P_NOTREADING, P_MIDMSG, P_TCPIDLE, P_TCPBLACK, P_TCPSTALL, P_GONE, P_N };

struct Staged {
	World &w;
	Client c;
	int ph;
	Sock *t = nullptr;
	Staged(World &ww, int i, int p) : w(ww), c(ww, i ? "203.0.113.6" : "203.0.113.5", 50001 + i), ph(p) {}
	// bring the client into its phase; idle proxy before and after
	void stage(Sock *l, const Bytes &call, int slot)
	{
		if (ph == P_NONE)
			return;
		CHECK(c.connect(), "setup", "connect");
		if (ph == P_SILENT) {
			quiesce();
			return;
		}
		CHECK(c.get_nonce(), "setup", "nonce");
		Bytes cred = call + "\n" + c.response(w.cfg.password);
		if (ph == P_HALF) {
			c.send(cred.substr(0, 18));
			quiesce();
			return;
		}
		c.send(cred);
		quiesce();
		int k = -1;
		for (int i = 0; i < 3; i++)
			if (slot_bound(i) && i >= slot)
				k = k < 0 ? i : k;
		switch (ph) {
		case P_NOTREADING:
			// forwarders block while sending to the client
			peer_sendto("198.51.100.51", 5198, ip(EXT[slot]), 5198, Bytes(4000, 'd'));
			peer_sendto("198.51.100.51", 5199, ip(EXT[slot]), 5199, Bytes(4000, 'c'));
			break;
		case P_MIDMSG:
			c.send(mkmsg(T_UDATA, "198.51.100.7", "part", 4000));
			break;
		case P_TCPIDLE:
			c.send(mkmsg(T_OPEN, "198.51.100.9", ""));
			t = peer_accept(l);
			break;
		case P_TCPBLACK:
			c.send(mkmsg(T_OPEN, "198.51.100.66", ""));
			break;
		case P_TCPSTALL:
			// the TCP peer stops reading
			c.send(mkmsg(T_OPEN, "198.51.100.9", ""));
			t = peer_accept(l);
			c.send(mkmsg(T_TDATA, nullptr, Bytes(3000, 't')));
			break;
		case P_GONE:
			peer_abort(c.s);
			break;
		}
		quiesce();
	}
};

// Whatever one client, its hosts or the registrar leave undone, another client is served at once.
SCENARIO(iso_stall, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	int reg = choose(3, "registrar"); // none, not reachable, never answers
	if (reg)
		c.regname = "Reg";
	bool f0 = g_focus;
	g_focus = false;
	if (reg == 1)
		peer_mode("198.51.100.80", 80, CM_BLACKHOLE);
	else if (reg == 2)
		peer_listen("198.51.100.80", 80);
	peer_mode("198.51.100.66", 5200, CM_BLACKHOLE);
	Sock *l = peer_listen("198.51.100.9", 5200);
	w.up(c);
	watch_exclusive(2);
	int pa = choose(P_N, "phase of A");
	NC.capacity = 1000;
	Staged a(w, 0, pa);
	a.stage(l, "W1AW", 0);
	bool bound = pa >= P_IDLE && pa != P_GONE;
	quiesce();
	int slot = pa >= P_IDLE ? 1 : 0; // the longest free one
	u64 t0 = vnow();
	size_t n0 = udp_sent().size();
	g_focus = f0;
	Client b(w, "203.0.113.6", 50002);
	CHECK(b.connect(), "refused", "connect");
	quiesce();
	CHECK(peer_pending(b.s) == 8, "delayed", "B has to wait for its nonce");
	CHECK(b.get_nonce(), "delayed", "nonce");
	b.send("K2B\n" + b.response(c.password));
	quiesce();
	CHECK(slot_bound(slot) && slots_bound(2) == bound + 1, "delayed", "B has to wait for its admission");
	b.send(mkmsg(T_UDATA, "198.51.100.50", "B-out") + mkmsg(T_OPEN, "198.51.100.9", ""));
	peer_sendto("198.51.100.51", 5198, ip(EXT[slot]), 5198, "B-data");
	quiesce();
	CHECK(udp_sent().size() == n0 + 1 && udp_sent().back().data == "B-out", "delayed", "B's datagram is not sent");
	Sock *t = nullptr;
	CHECK(peer_acceptable(l), "delayed", "B's connection is not made");
	t = peer_accept(l);
	peer_send(t, "B-tcp");
	b.send(mkmsg(T_TDATA, nullptr, "B-to-tcp"));
	quiesce();
	CHECK(peer_drain(t) == "B-to-tcp", "delayed", "B's data does not reach its TCP peer");
	b.drain();
	only_tagged(b, "B", 3, "session B");
	b.close();
	quiesce();
	CHECK(!slot_bound(slot), "delayed", "B's address is not released");
	CHECK(peer_eof(t), "delayed", "B's TCP connection is not closed");
	CHECK(vnow() == t0, "delayed", "time has passed");
	g_focus = false;
	outcome("%d %d", reg, pa);
	NC.capacity = 1u << 20;
	w.shutdown();
	join_fiber(w.loop);
	w.loop = nullptr;
	proxy_close(&w.ph);
	proxy_free(&w.ph);
	check_no_leaks("leak");
}

SCENARIO(close_anytime, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	g_focus = false;
	peer_mode("198.51.100.66", 5200, CM_BLACKHOLE);
	Sock *l = peer_listen("198.51.100.9", 5200);
	int pa = choose(P_N, "phase of A"), pb = choose(g_arg ? 1 : P_N, "phase of B");
	NC.capacity = 1000;
	Staged a(w, 0, pa), b(w, 1, pb);
	a.stage(l, "W1AW", 0);
	b.stage(l, "K2B", pa >= P_IDLE ? 1 : 0); // the longest free address
	quiesce();
	// arg 2: A asks for a connection to a host which does not answer
	bool asks = g_arg == 2 && pa >= P_IDLE && pa != P_MIDMSG && pa != P_GONE;
	int racing = asks ? 2 : choose(2, "client acts meanwhile");
	bool answers = asks && choose(2, "the host answers");
	size_t tried = tcp_connects().size();
	g_focus = true;
	Fiber *f = nullptr;
	if (racing && pa != P_NONE && pa != P_GONE)
		f = spawn("A", FK_PEER, [&] {
			if (pa == P_NOTREADING && racing == 1)
				peer_recv_some(a.c.s);
			else if (pa == P_SILENT || pa == P_HALF)
				peer_abort(a.c.s);
			else if (racing == 2)
				a.c.send(mkmsg(T_OPEN, answers ? "198.51.100.9" : "198.51.100.66", ""));
			else if (pa == P_TCPIDLE)
				peer_send(a.t, "late");
			else
				a.c.send(mkmsg(T_UDATA, "198.51.100.7", "x"));
		});
	Fiber *g = racing ? spawn("late client", FK_PEER, [&] {
		Client x(w, "203.0.113.8", 50088);
		if (x.connect())
			x.get_nonce();
	}) : nullptr;
	u64 t0 = vnow();
	w.shutdown();
	join_fiber(w.loop);
	w.loop = nullptr;
	proxy_close(&w.ph);
	g_focus = false;
	if (racing == 2 && !answers && tcp_connects().size() == tried + 1 && vnow() - t0 == 127ull * 1000000000ull)
		fail("close-open-race", "closing waits for the attempt of a client to open a TCP connection to a host that does not "
		     "answer, if it begins just when the client is dropped");
	CHECK(vnow() - t0 <= 60ull * 1000000000ull, "slow-close", "closing took %lu s",
	      (unsigned long)((vnow() - t0) / 1000000000ull));
	CHECK(live_socks() == 0, "leak-socket", "descriptors open after proxy_close: %s", describe_live_socks().c_str());
	for (Staged *s : { &a, &b })
		if (s->ph != P_NONE && s->ph != P_GONE) {
			peer_drain(s->c.s);
			CHECK(peer_eof(s->c.s) || peer_reset_seen(s->c.s) || s->c.s == nullptr, "not-closed",
			      "a client is still connected after proxy_close");
		}
	if (f)
		join_fiber(f);
	if (g)
		join_fiber(g);
	quiesce();
	proxy_free(&w.ph);
	check_no_leaks("leak");
	outcome("%d %d %d", pa, pb, racing);
}

// Dropping all clients at any time, while they and others act; the proxy goes on.
SCENARIO(drop_anytime, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	watch_exclusive(2);
	g_focus = false;
	peer_mode("198.51.100.66", 5200, CM_BLACKHOLE);
	Sock *l = peer_listen("198.51.100.9", 5200);
	static const int bph[] = { P_NONE, P_IDLE, P_NOTREADING, P_SILENT, P_TCPIDLE };
	int pa = choose(P_N, "phase of A"), pb = bph[choose(g_arg ? 1 : 5, "phase of B")];
	NC.capacity = 1000;
	Staged a(w, 0, pa), b(w, 1, pb);
	if (pa >= P_IDLE && pb == P_NONE && choose(2, "an earlier client")) { // A has the second address, the first is free
		Client e(w, "203.0.113.7", 50077);
		CHECK(e.login("N0EAR") && (quiesce(), slot_bound(0)), "setup", "earlier client");
		a.stage(l, "W1AW", 1);
		e.close();
	} else {
		a.stage(l, "W1AW", 0);
		b.stage(l, "K2B", pa >= P_IDLE ? 1 : 0);
	}
	quiesce();
	// nothing, A acts, somebody arrives, two drops, after a shutdown, A asks for a connection to a host which does not answer
	int racing = g_arg == 2 ? 5 : choose(5, "meanwhile");
	bool answers = racing == 5 && choose(2, "the host answers");
	if (racing == 4) {
		w.shutdown();
		join_fiber(w.loop);
		w.loop = nullptr;
		quiesce();
	}
	g_focus = true;
	size_t tried = tcp_connects().size();
	std::vector<Fiber *> fs;
	Client x(w, "203.0.113.8", 50088);
	bool right = false;
	if (racing == 1 && pa != P_NONE && pa != P_GONE)
		fs.push_back(spawn("A", FK_PEER, [&] {
			if (pa == P_NOTREADING)
				peer_recv_some(a.c.s);
			else if (pa == P_SILENT)
				a.c.s && a.c.get_nonce() ? a.c.send("W1AW\n" + a.c.response(c.password)) : 0;
			else if (pa == P_HALF)
				a.c.send(("W1AW\n" + a.c.response(c.password)).substr(18));
			else if (pa == P_TCPIDLE)
				peer_send(a.t, "late");
			else if (pa == P_MIDMSG)
				a.c.send(Bytes(4000 - 4, 'z') + mkmsg(T_UDATA, "198.51.100.7", "x"));
			else {
				a.c.send(mkmsg(T_UDATA, "198.51.100.7", "x"));
				a.c.send(mkmsg(T_UDATA, "198.51.100.7", "y"));
			}
		}));
	if (racing == 5 && pa >= P_IDLE && pa != P_GONE && pa != P_MIDMSG)
		fs.push_back(spawn("A", FK_PEER, [&] { a.c.send(mkmsg(T_OPEN, answers ? "198.51.100.9" : "198.51.100.66", "")); }));
	if (racing == 2)
		fs.push_back(spawn("late client", FK_PEER, [&] {
			if (x.connect() && x.get_nonce()) {
				right = true;
				x.send("W1AW\n" + x.response(c.password));
			}
		}));
	for (int i = 0; i < (racing == 3 ? 2 : 1); i++)
		fs.push_back(spawn("dropper", FK_SUT, [&] { proxy_drop(&w.ph); }));
	for (auto f : fs)
		join_fiber(f);
	quiesce(); // without any time-out
	g_focus = false;
	if (racing == 5 && !answers && sut_open().tcp_connecting == 1 && tcp_connects().size() == tried + 1)
		fail("drop-open-race", "a session which begins to open a TCP connection to a host that does not answer just when it "
		     "is dropped keeps its address until the attempt times out");
	for (Staged *s : { &a, &b })
		if (s->ph != P_NONE && s->ph != P_GONE) {
			peer_drain(s->c.s);
			CHECK(peer_eof(s->c.s) || peer_reset_seen(s->c.s), "not-dropped", "a client is still connected after all were dropped");
		}
	int alive = x.s && right && !peer_eof(x.s);
	CHECK(!x.s || right || peer_eof(x.s), "stuck", "a client which was not given a nonce stays connected");
	NC.capacity = 1u << 20;
	CHECK(slots_bound(2) == alive, "not-released", "%d addresses are in use although %d clients are connected", slots_bound(2), alive);
	CHECK(sut_open().tcp_conn == alive, "not-released", "sockets remain: %s", describe_live_socks().c_str());
	if (alive) {
		size_t n0 = udp_sent().size();
		x.send(mkmsg(T_UDATA, "198.51.100.90", "x"));
		quiesce();
		CHECK(udp_sent().size() == n0 + 1, "not-served", "the client which arrived during the drop is connected but not served");
		proxy_drop(&w.ph);
		quiesce();
		CHECK(peer_eof(x.s) && slots_bound(2) == 0, "not-dropped", "the client which arrived during the drop survives the next one");
	}
	if (racing != 4)
		check_capacity(w, 2, "after dropping all clients");
	outcome("%d %d %d %d", pa, pb, racing, alive);
	for (Staged *s : { &a, &b })
		if (s->c.s && s->ph != P_GONE)
			s->c.close();
	if (x.s)
		x.close();
	quiesce();
	w.down();
}

// Closing while the registrar misbehaves
SCENARIO(close_registrar, 0)
{
	World w;
	Cfg c;
	c.regname = "Reg";
	int mode = choose(8, "registrar");
	bool f0 = g_focus;
	g_focus = false;
	Sock *l = nullptr;
	if (mode == 0)
		peer_mode("198.51.100.80", 80, CM_REFUSE);
	else if (mode == 1)
		peer_mode("198.51.100.80", 80, CM_BLACKHOLE);
	else
		l = peer_listen("198.51.100.80", 80);
	spawn("registrar", FK_PEER, [&] {
		if (!l)
			return;
		for (;;) {
			Sock *s = peer_accept(l);
			if (!s)
				return;
			switch (mode) {
			case 2: break;                                         // silent
			case 3: peer_recv_some(s); peer_send(s, "HTT"); break; // stops half-way
			case 4: peer_recv_some(s); peer_abort(s); break;
			case 5: peer_recv(s, 20); peer_send(s, "HTTP/1.1 200 OK\r\n\r\n"); break; // normal
			case 6:
			case 7: // never comes to an end, slowly
				spawn("trickle", FK_PEER, [&, s] {
					peer_recv(s, 20);
					if (mode == 7)
						peer_send(s, "HTTP/1.1 500 Internal error\r\n");
					for (int i = 0; i < 400; i++) {
						vsleep(9000000000ull);
						if (peer_send(s, mode == 7 ? "X: y\r\n" : "x"))
							return;
					}
				});
				break;
			}
		}
	});
	w.init(c);
	w.open();
	w.start();
	w.run_loop();
	int settle = choose(2, "registered before");
	if (settle)
		quiesce();
	Client a(w);
	int cl = choose(2, "client");
	if (cl)
		a.connect();
	g_focus = f0;
	u64 t0 = vnow();
	w.shutdown();
	join_fiber(w.loop);
	w.loop = nullptr;
	proxy_close(&w.ph);
	g_focus = false;
	CHECK(vnow() - t0 <= 600ull * 1000000000ull, "slow-close", "closing took %lu s",
	      (unsigned long)((vnow() - t0) / 1000000000ull));
	CHECK(live_socks() == 0, "leak-socket", "descriptors open after proxy_close: %s", describe_live_socks().c_str());
	proxy_free(&w.ph);
	check_no_leaks("leak");
	outcome("%d %d %d", mode, settle, cl);
	if (l)
		peer_close(l);
}

// ------------------------------------------------------------------- C10 --
SCENARIO(graceful, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	g_focus = false;
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	int arrivals = choose(3, "arrivals");
	Client b(w, "203.0.113.6", 50002), d(w, "203.0.113.7", 50003);
	bool shut = false, late[2] = {}, nonce[2] = {}, taken[2] = {};
	g_focus = true;
	auto arrive = [&](Client &x, int i) {
		point("look");
		touch(g_clock_obj, 1);
		late[i] = shut;
		absorb(shut);
		if (!x.connect())
			return;
		if (!x.get_nonce())
			return;
		nonce[i] = true;
		x.send("K2B\n" + x.response(c.password));
	};
	Fiber *fb = arrivals > 0 ? spawn("B", FK_PEER, [&] { arrive(b, 0); }) : nullptr;
	Fiber *fd = arrivals > 1 ? spawn("D", FK_PEER, [&] { arrive(d, 1); }) : nullptr;
	Fiber *fs = spawn("stopper", FK_SUT, [&] {
		proxy_shutdown(&w.ph);
		point("mark");
		touch(g_clock_obj, 2);
		shut = true;
		// a connection the proxy has done nothing with yet cannot have been admitted
		taken[0] = peer_taken(b.s);
		taken[1] = peer_taken(d.s);
		absorb(taken[0] + 2 * taken[1]);
	});
	Fiber *fn = spawn("network", FK_PEER, [&] {
		peer_sendto("198.51.100.51", 5198, ip(EXT[0]), 5198, "in-1");
		a.send(mkmsg(T_UDATA, "198.51.100.7", "out-1"));
	});
	join_fiber(fs);
	join_fiber(w.loop); // the waiting call returns (otherwise: deadlock)
	w.loop = nullptr;
	join_fiber(fn);
	if (fb)
		join_fiber(fb);
	if (fd)
		join_fiber(fd);
	quiesce();
	g_focus = false;
	CHECK(!w.rets.empty() && w.rets.back() < 0, "process", "proxy_process returned %d", w.rets.empty() ? 0 : w.rets.back());
	int r = proxy_process(&w.ph);
	CHECK(r < 0, "process", "proxy_process succeeds after the shutdown (%d)", r);
	Client *cl[2] = { &b, &d };
	int n = 0;
	for (int i = 0; i < arrivals; i++) {
		CHECK(!(late[i] && nonce[i]), "late-admission", "a client which connected after the shutdown was accepted");
		CHECK(taken[i] || !nonce[i], "late-admission",
		      "a client which the proxy had not begun to deal with when the shutdown completed was admitted");
		if (nonce[i]) {
			CHECK(!peer_eof(cl[i]->s), "not-admitted", "a client accepted before the shutdown was dropped");
			n++;
		} else if (cl[i]->s)
			CHECK(peer_eof(cl[i]->s), "stuck", "a client is neither served nor disconnected");
	}
	CHECK(slots_bound(2) == 1 + n, "sessions", "%d sessions, %d expected", slots_bound(2), 1 + n);
	// a client arriving now is not admitted
	Client e(w, "203.0.113.8", 50004);
	if (e.connect()) {
		quiesce();
		CHECK(peer_pending(e.s) == 0 && peer_eof(e.s), "late-admission", "a client arriving after the shutdown is not turned away");
	}
	r = proxy_process(&w.ph);
	CHECK(r < 0, "process", "proxy_process succeeds after the shutdown (%d)", r);
	// sessions go on
	a.drain();
	CHECK(a.msgs.size() == 1 && a.msgs[0].data == "in-1" && udp_sent().size() == 1 && udp_sent()[0].data == "out-1", "relay",
	      "the active session lost traffic around the shutdown");
	for (int k = 0; k < 1 + arrivals; k++) {
		Client *x = k == 0 ? &a : cl[k - 1];
		if (k > 0 && !nonce[k - 1])
			continue;
		size_t n0 = udp_sent().size();
		x->send(mkmsg(T_UCTRL, "198.51.100.7", "out-2"));
		quiesce();
		CHECK(udp_sent().size() == n0 + 1, "relay", "client %d is not served after the shutdown", k);
		u32 at = udp_sent().back().saddr;
		size_t m0 = x->msgs.size();
		peer_sendto("198.51.100.51", 5199, at, 5199, "in-2");
		quiesce();
		x->drain();
		CHECK(x->msgs.size() == m0 + 1, "relay", "client %d receives nothing after the shutdown", k);
	}
	outcome("%d%d%d%d%d", arrivals, late[0], late[1], nonce[0], nonce[1]);
	w.down();
}

// The same with a proxy which is full and whose clients leave meanwhile.
SCENARIO(graceful_full, 0)
{
	World w;
	Cfg c;
	c.slots = 1 + choose(2, "slots");
	w.up(c);
	g_focus = false;
	Client a(w), a2(w, "203.0.113.9", 50009);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	if (c.slots == 2)
		CHECK(admit(a2, "K9Z") == 1, "setup", "not admitted");
	int leave = choose(3, "leave");
	Client b(w, "203.0.113.6", 50002);
	bool shut = false, late = false, nonce = false, taken = false;
	g_focus = true;
	Fiber *fa = spawn("leaver", FK_PEER, [&] {
		if (leave == 0)
			a.close();
		else if (leave == 1)
			peer_abort(a.s);
		else
			a.send(mkmsg(99, nullptr, ""));
	});
	Fiber *fb = spawn("B", FK_PEER, [&] {
		point("look");
		touch(g_clock_obj, 1);
		late = shut;
		absorb(shut);
		if (!b.connect() || !b.get_nonce())
			return;
		nonce = true;
		b.send("K2B\n" + b.response(c.password));
	});
	Fiber *fs = spawn("stopper", FK_SUT, [&] {
		proxy_shutdown(&w.ph);
		point("mark");
		touch(g_clock_obj, 2);
		shut = true;
		taken = peer_taken(b.s);
		absorb(taken);
	});
	join_fiber(fs);
	join_fiber(w.loop);
	w.loop = nullptr;
	join_fiber(fa);
	join_fiber(fb);
	quiesce();
	g_focus = false;
	CHECK(!w.rets.empty() && w.rets.back() < 0, "process", "proxy_process returned %d", w.rets.empty() ? 0 : w.rets.back());
	CHECK(!(late && nonce), "late-admission", "a client which connected after the shutdown was accepted");
	CHECK(taken || !nonce, "late-admission",
	      "a client which the proxy had not begun to deal with when the shutdown completed was admitted");
	if (nonce)
		CHECK(!peer_eof(b.s), "not-admitted", "a client accepted before the shutdown was dropped");
	else if (b.s)
		CHECK(peer_eof(b.s), "stuck", "a client is neither served nor disconnected");
	int n = c.slots - 1 + nonce;
	CHECK(slots_bound(2) == n, "sessions", "%d sessions, %d expected", slots_bound(2), n);
	for (Client *x : { &a2, &b }) {
		if (x == &a2 ? c.slots == 1 : !nonce)
			continue;
		size_t n0 = udp_sent().size();
		x->send(mkmsg(T_UCTRL, "198.51.100.7", "out"));
		quiesce();
		CHECK(udp_sent().size() == n0 + 1, "relay", "a client is not served after the shutdown");
	}
	Client e(w, "203.0.113.8", 50004);
	if (e.connect()) {
		quiesce();
		CHECK(peer_pending(e.s) == 0 && peer_eof(e.s), "late-admission", "a client arriving after the shutdown is not turned away");
	}
	CHECK(proxy_process(&w.ph) < 0, "process", "proxy_process succeeds after the shutdown");
	outcome("%d%d %d%d", c.slots, leave, late, nonce);
	w.down();
}

// A client's host disappears from the network without a word.  The slot has to come back, after the hours which the
// system needs to notice; nobody else may suffer in the meantime.
SCENARIO(vanish, 0)
{
	enum { NONCE, HALF, IDLE, TRAFFIC, MIDDLE, TCP_IDLE, TCP_TRAFFIC, STUCK, NPHASE };
	static const char *NAMES[] = { "before its response", "half way through its response", "idle", "receiving datagrams",
				       "in the middle of a message", "with an idle TCP connection", "receiving TCP data",
				       "not reading" };
	int phase = choose(NPHASE, "phase");
	int end = choose(4, "end"); // wait; drop, shut down or close at once
	g_focus = false;
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	Sock *l = peer_listen("198.51.100.9", 5200), *t = nullptr;
	Client a(w), b(w, "203.0.113.6", 50002);
	int sa = -1;
	if (phase == NONCE || phase == HALF) {
		CHECK(a.connect() && a.get_nonce(), "setup", "no nonce");
		if (phase == HALF)
			a.send("W1AW\n" + a.response(w.cfg.password).substr(0, 7));
		quiesce();
	} else {
		sa = admit(a, "W1AW");
		CHECK(sa >= 0, "setup", "not admitted");
	}
	int sb = admit(b, "K2ABC");
	CHECK(sb >= 0, "setup", "not admitted");
	if (phase == MIDDLE)
		a.send(mkmsg(T_UDATA, "198.51.100.7", Bytes(300, 'p')).substr(0, 100));
	if (phase == TCP_IDLE || phase == TCP_TRAFFIC) {
		a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
		t = peer_accept(l);
		quiesce();
		a.drain();
	}
	if (phase == STUCK) {
		NC.capacity = 700;
		for (int i = 0; i < 4; i++) {
			peer_sendto("198.51.100.8", 5198, ip(EXT[sa]), 5198, Bytes(400, 'a' + i));
			quiesce();
		}
	}
	quiesce();
	size_t msgs = b.msgs.size();
	auto served = [&](int n) {
		Bytes x = "to you " + std::to_string(n);
		peer_sendto("198.51.100.8", 5199, ip(EXT[sb]), 5199, x);
		quiesce();
		b.drain();
		CHECK(b.msgs.size() == ++msgs && b.msgs.back().type == T_UCTRL && b.msgs.back().data == x, "disturbed",
		      "while a client has vanished %s: the other one received %s", NAMES[phase], show(b.msgs).c_str());
		size_t n0 = udp_sent().size();
		b.send(mkmsg(T_UDATA, "198.51.100.77", x));
		quiesce();
		CHECK(udp_sent().size() == n0 + 1 && udp_sent()[n0].data == x && udp_sent()[n0].saddr == ip(EXT[sb]), "disturbed",
		      "while a client has vanished %s: the other one's data is not sent", NAMES[phase]);
		CHECK(slot_bound(sb) && !peer_eof(b.s), "disturbed", "the other client was disconnected");
	};
	peer_vanish(a.s);
	served(0);
	if (end == 0) {
		bool gone = false;
		for (int n = 1; n <= 12; n++) {
			if (phase == TRAFFIC)
				peer_sendto("198.51.100.8", 5198, ip(EXT[sa]), 5198, "for the one who left");
			if (phase == TCP_TRAFFIC && !peer_eof(t))
				peer_send(t, "for the one who left");
			quiesce();
			served(2 * n);
			vsleep(900 * 1000000000ull);
			quiesce();
			served(2 * n + 1);
			gone = slots_bound(2) == 1 && sut_open().tcp_conn == 1;
			if (gone && n < 10)
				n = 10; // a little longer
		}
		CHECK(gone, "not-released", "3 hours after a client vanished %s its slot is still taken: %s", NAMES[phase],
		      describe_live_socks().c_str());
		CHECK(!t || peer_eof(t), "not-released", "the TCP connection of the vanished client is still open");
		NC.capacity = 1u << 20;
		Client d(w, "203.0.113.5", 50003);
		CHECK(admit(d, "W1AW") >= 0, "slot-lost", "a client which vanished %s cannot return", NAMES[phase]);
		d.close();
		b.close();
		quiesce();
		check_capacity(w, c.slots, "after a client vanished");
		w.down();
	} else {
		u64 t0 = vnow();
		if (end == 1) {
			proxy_drop(&w.ph);
			quiesce();
			CHECK(slots_bound(2) == 0 && peer_eof(b.s), "drop", "after proxy_drop: %s", describe_live_socks().c_str());
			NC.capacity = 1u << 20;
			b.close();
			check_capacity(w, c.slots, "after dropping a client which vanished");
		}
		if (end == 2) {
			w.shutdown();
			quiesce();
			served(1);
		}
		b.close();
		w.down();
		CHECK(vnow() == t0, "delayed", "a client which vanished %s delays the end by %llu s", NAMES[phase],
		      (unsigned long long)((vnow() - t0) / 1000000000ull));
	}
	outcome("%d %d", phase, end);
}
