// Admission: C01 (password), C02 (callsign policy), C11 (hostile input).
#include "world.h"

static int g_binds;
static void watch_binds()
{
	g_binds = 0;
	mon_udp_bind = new std::function<void(u32, u16, int, int)>([](u32, u16, int d, int) {
		if (d > 0)
			g_binds++;
	});
}
static void no_external(const char *why)
{
	CHECK(g_binds == 0, "admitted", "%s: external ports were opened", why);
	CHECK(udp_sent().empty(), "admitted", "%s: %zu datagrams were sent", why, udp_sent().size());
	CHECK(tcp_connects().empty(), "admitted", "%s: a TCP connection was made", why);
}

// Response computed for the wrong thing, corrupted at every byte.
static Bytes variant(int v, const Bytes &pw, const Bytes &nonce, const Bytes &old_nonce, const char **name)
{
	static char b[64];
	*name = b;
	Bytes r = pw_response(pw, nonce);
	if (v < 16 * 3) {
		static const u8 xm[] = { 0x01, 0x80, 0xff };
		int k = v / 3;
		snprintf(b, sizeof b, "response byte %d xor %02x", k, xm[v % 3]);
		r[k] ^= xm[v % 3];
		return r;
	}
	switch (v - 48) {
	case 0:
		*name = "all zero response";
		return Bytes(16, 0);
	case 1:
		*name = "response to the previous connection's nonce";
		return pw_response(pw, old_nonce);
	case 2:
		*name = "password without upper-casing";
		return ref::md5(pw + nonce);
	case 3: {
		*name = "nonce in upper case";
		Bytes n = nonce;
		for (auto &c : n)
			c = toupper(c);
		return ref::md5([&] {
			Bytes u;
			for (char c : pw)
				u.push_back(toupper(c));
			return u;
		}() + n);
	}
	case 4:
		*name = "empty password";
		return pw_response("", nonce);
	case 5:
		*name = "password PUBLIC";
		return pw_response("PUBLIC", nonce);
	case 6:
		*name = "password with a blank appended";
		return pw_response(pw + " ", nonce);
	case 7:
		*name = "password without its last letter";
		return pw_response(pw.substr(0, pw.size() - 1), nonce);
	case 8:
		*name = "hexadecimal response";
		return ref::hex(r, false).substr(0, 16);
	case 9:
		*name = "bytes rotated";
		return r.substr(1) + r[0];
	case 10:
		*name = "last two bytes swapped";
		return r.substr(0, 14) + r[15] + r[14];
	}
	return Bytes();
}
static const int NVARIANT = 48 + 11;

static Bytes good(World &w, const Bytes &nonce) { return pw_response(w.cfg.password, nonce); }

static const char *CALLS[] = { "W1AW", "", "A", "ABC-123", "*ABCDEFG*", "ABCDEFGHIJ" };

SCENARIO(auth_wrong, 0)
{
	World w;
	Cfg c;
	c.password = "Secret9z";
	// nonces with letters, so that the case matters; the second one differs in one digit only
	static const u32 nn[] = { 0xa0bc12df, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff };
	int in = choose(6, "nonce");
	SS->rand_script = { 0xa0bc12de, nn[in], 0x0000000b };
	w.up(c);
	watch_binds();
	// an earlier connection, whose nonce gets replayed
	Client o(w, "203.0.113.6", 50100);
	o.connect();
	CHECK(o.get_nonce(), "nonce", "no nonce");
	o.close();
	quiesce();
	int v = choose(NVARIANT, "variant");
	int cl = choose(in ? 1 : 6, "callsign");
	const char *name;
	Client a(w);
	CHECK(a.connect(), "refused", "refused");
	CHECK(a.get_nonce(), "nonce", "no nonce");
	CHECK(a.nonce == ref::hex8(SS->rand_given.back()), "nonce", "wrong nonce %s", show(a.nonce).c_str());
	CHECK(o.nonce != a.nonce, "nonce", "nonce reused");
	Bytes r = variant(v, c.password, a.nonce, o.nonce, &name);
	if (r == good(w, a.nonce)) { // a nonce without letters
		a.close();
		w.down();
		return;
	}
	int seg = choose(in ? 1 : 3, "segmentation");
	Bytes all = Bytes(CALLS[cl]) + "\n" + r;
	if (seg == 0)
		a.send(all);
	else if (seg == 1) {
		a.send(all.substr(0, 16));
		quiesce();
		no_external("after 16 bytes");
		a.send(all.substr(16));
	} else {
		a.send(all.substr(0, all.size() - 1));
		quiesce();
		no_external("before the last byte");
		CHECK(peer_pending(a.s) == 0 && !peer_eof(a.s), "early", "answered before the response was complete");
		a.send(all.substr(all.size() - 1));
	}
	quiesce();
	no_external(name);
	Bytes got = peer_drain(a.s);
	CHECK(got == BADPW, "notice", "%s: received '%s' instead of the bad-password notice", name, show(got).c_str());
	CHECK(peer_eof(a.s), "not-dropped", "%s: still connected", name);
	a.close();
	quiesce();
	CHECK(g_binds == 0, "admitted", "%s: external ports were opened", name);
	must_serve(w, name);
	count_case(mix(v, cl * 3 + seg));
	outcome("%s", name);
	w.down();
}

SCENARIO(auth_right, 0)
{
	World w;
	Cfg c;
	static const char *pws[] = { "Secret9z", "x", "@Az{`[z", "PUBLIC" };
	int ip_ = choose(4, "password");
	c.password = pws[ip_];
	static const u32 nn[] = { 0xa0bc12de, 0, 0x00000001, 0xffffffff };
	int in = choose(4, "nonce");
	SS->rand_script = { nn[in] };
	w.up(c);
	watch_binds();
	int cl = choose(6, "callsign");
	Client a(w);
	CHECK(a.connect() && a.get_nonce(), "nonce", "no nonce");
	CHECK(a.nonce == ref::hex8(SS->rand_given.back()), "nonce", "wrong nonce %s", show(a.nonce).c_str());
	Bytes all = Bytes(CALLS[cl]) + "\n" + good(w, a.nonce);
	int n = (int)all.size();
	// split position: none, each one, byte by byte; or followed by a message in the same piece
	int sp = choose(n + 2, "split");
	bool trailing = false;
	if (sp == 0)
		a.send(all);
	else if (sp < n) {
		a.send(all.substr(0, sp));
		quiesce();
		no_external("before the response is complete");
		CHECK(!peer_eof(a.s) && peer_pending(a.s) == 0, "early", "answered before the response was complete");
		a.send(all.substr(sp));
	} else if (sp == n) {
		for (int i = 0; i < n; i++) {
			no_external("before the response is complete");
			a.send(all.substr(i, 1));
			quiesce();
		}
	} else {
		trailing = true;
		a.send(all + mkmsg(T_UDATA, "198.51.100.7", "first"));
	}
	quiesce();
	CHECK(slot_bound(0), "not-admitted", "callsign '%s' split %d: the right response was not admitted", CALLS[cl], sp);
	CHECK(!peer_eof(a.s), "not-admitted", "disconnected");
	a.drain();
	CHECK(a.msgs.empty() && a.rx.empty(), "notice", "unexpected bytes after admission");
	if (trailing)
		CHECK(udp_sent().size() == 1 && udp_sent()[0].data == "first", "relay", "message following the handshake lost");
	else
		CHECK(udp_sent().empty(), "relay", "unexpected traffic");
	a.send(mkmsg(T_UCTRL, "198.51.100.8", "second"));
	quiesce();
	CHECK(udp_sent().size() == (trailing ? 2 : 1) && udp_sent().back().data == "second", "relay", "not relayed");
	a.close();
	count_case(mix(ip_ * 4 + in, cl * 64 + sp));
	outcome("admitted %s", CALLS[cl]);
	w.down();
}

// Responses whose bytes mean something to string functions: an early zero byte, a letter, a high byte at each position.
SCENARIO(auth_bytes, 0)
{
	World w;
	Cfg c;
	c.password = "Secret9z";
	int kind = choose(4, "kind");
	int pos = choose(16, "position");
	u32 n = 0x1000;
	Bytes r;
	for (;; n++) {
		r = pw_response(c.password, ref::hex8(n));
		u8 b = r[pos];
		if (kind == 0 ? b == 0 : kind == 1 ? isalpha(b) && b < 0x80 : kind == 2 ? b == '\n' : b >= 0x80)
			break;
	}
	SS->rand_script = { n };
	// the policy plays no part in judging responses
	int pol = choose(3, "policy");
	if (pol)
		c.allowed = "^[WN]";
	if (pol == 2)
		c.denied = "^K";
	w.up(c);
	watch_binds();
	Client a(w);
	CHECK(a.connect() && a.get_nonce(), "nonce", "no nonce");
	CHECK(a.nonce == ref::hex8(SS->rand_given.back()), "nonce", "wrong nonce %s", show(a.nonce).c_str());
	r = pw_response(c.password, a.nonce); // the same unless nonces are made in another way
	int how = choose(4, "how");
	Bytes x = r;
	switch (how) {
	case 1: // equal up to the special byte and different after it
		for (int i = pos + 1; i < 16; i++)
			x[i] ^= 0x5a;
		break;
	case 2: // different in case (in the top bit) only
		x[pos] ^= kind == 3 ? 0x80 : 0x20;
		break;
	case 3: // different before it only
		for (int i = 0; i < pos; i++)
			x[i] ^= 0x5a;
		break;
	}
	a.send("W1AW\n" + x);
	quiesce();
	Bytes got = peer_drain(a.s);
	if (x == r) {
		CHECK(slot_bound(0) && !peer_eof(a.s) && got.empty(), "not-admitted", "the right response %s was not admitted", ref::hex(r, true).c_str());
	} else {
		no_external("wrong response");
		CHECK(got == BADPW && peer_eof(a.s), "notice", "response %s instead of %s: received '%s'", ref::hex(x, true).c_str(),
		      ref::hex(r, true).c_str(), show(got).c_str());
	}
	a.close();
	quiesce();
	must_serve(w, "after");
	count_case(mix(kind * 16 + pos, how * 3 + pol));
	outcome("%d %d %d", kind, how, pol);
	w.down();
}

// What was sent on one connection is worth nothing on another, whenever that one comes.
SCENARIO(auth_replay, 0)
{
	World w;
	Cfg c;
	c.password = "Secret9z";
	c.slots = 2;
	int logged = choose(3, "the recorded client"); // still to be judged, served, gone
	int between = choose(4, "connections between");
	static const u64 S = 1000000000ull;
	static const u64 W[] = { 0, S / 2, S, 3600 * S };
	u64 wait = W[choose(4, "wait")];
	bool reopen = choose(2, "closed and opened again");
	w.up(c);
	g_focus = false;
	watch_binds();
	std::vector<Bytes> seen;
	auto fresh = [&](const Bytes &n) {
		for (auto &o : seen)
			CHECK(o != n, "nonce", "nonce %s is issued again (%zu nonces so far)", show(n).c_str(), seen.size());
		seen.push_back(n);
	};
	Client a(w, "203.0.113.6", 50100);
	CHECK(a.connect() && a.get_nonce(), "nonce", "no nonce");
	fresh(a.nonce);
	Bytes record = "W1AW\n" + a.response(c.password);
	int served = 0;
	if (logged) {
		a.send(record);
		quiesce();
		CHECK(slots_bound(2) == 1, "not-admitted", "the recorded client is not admitted");
		served = 1;
	}
	if (logged == 2) {
		a.close();
		quiesce();
		served = 0;
	}
	if (reopen) {
		w.shutdown();
		join_fiber(w.loop);
		w.loop = nullptr;
		proxy_close(&w.ph);
		served = 0;
		if (wait)
			vsleep(wait);
		proxy_log_select_medium(&w.ph, LOG_MEDIUM_NONE, nullptr);
		w.open();
		w.start();
		w.run_loop();
		quiesce();
	} else if (wait)
		vsleep(wait);
	for (int i = 0; i < between; i++) {
		Client b(w, "203.0.113.7", 50200 + i);
		CHECK(b.connect() && b.get_nonce(), "nonce", "no nonce");
		fresh(b.nonce);
		b.close();
		quiesce();
	}
	int n0 = g_binds;
	Client r(w, "203.0.113.8", 50300);
	CHECK(r.connect(), "refused", "refused");
	int early = choose(2, "before the nonce");
	if (early)
		r.send(record);
	CHECK(r.get_nonce(), "nonce", "no nonce");
	fresh(r.nonce);
	if (!early)
		r.send(record);
	quiesce();
	Bytes got = peer_drain(r.s);
	CHECK(slots_bound(2) == served && g_binds == n0 && udp_sent().empty(), "admitted", "a response recorded on an earlier connection is admitted");
	CHECK(got == BADPW && peer_eof(r.s), "notice", "recorded response: received '%s'", show(got).c_str());
	r.close();
	quiesce();
	must_serve(w, "after a recorded response");
	count_case(mix(logged * 4 + between, wait + reopen * 2 + early));
	outcome("%d %d", logged, reopen);
	if (logged != 2)
		a.close();
	w.down();
}

// Failures while a client is being judged never let it in: earlier responses, left-over buffers and guesses are tried.
SCENARIO(auth_fault, F_MALLOC | F_SHORT_RECV | F_SHORT_SEND | F_RECVERR | F_SENDERR | F_PTHREAD | F_SOCK)
{
	World w;
	Cfg c;
	c.password = "Secret9z";
	u32 keep = g_faults;
	g_faults = 0;
	w.retry = 3;
	w.up(c);
	g_focus = false;
	int before = choose(3, "before");
	Bytes old(16, 'o'), oldnonce = "00000000";
	if (before) {
		Client o(w, "203.0.113.6", 50100);
		CHECK(o.connect() && o.get_nonce(), "nonce", "no nonce");
		oldnonce = o.nonce;
		old = o.response(c.password);
		Bytes r = old;
		if (before == 2)
			r[15] ^= 1;
		o.send("W1AW\n" + r);
		quiesce();
		CHECK(slot_bound(0) == (before == 1), "not-admitted", "the first client");
		o.close();
		quiesce();
	}
	watch_binds();
	g_faults = keep;
	int how = choose(7, "response");
	Client a(w);
	bool conn = a.connect();
	quiesce();
	Bytes r;
	bool right = false;
	if (conn && peer_pending(a.s) >= 8 && a.get_nonce()) {
		switch (how) {
		case 0: r = a.response(c.password); right = true; break;
		case 1: r = old; break;
		case 2: r = Bytes(16, 0); break;
		case 3: r = a.response(c.password).substr(0, 15) + old[15]; break;
		case 4: r = pw_response("", a.nonce); break;
		case 5: r = pw_response(c.password, "00000000"); break;
		case 6: r = Bytes(16, (char)0xfe); break; // what locals hold before they are set (-ftrivial-auto-var-init)
		}
		if (r == a.response(c.password))
			right = true;
		a.send("W1AW\n" + r);
	} else if (conn) {
		// the nonce was not (entirely) sent
		a.send("W1AW\n" + (how == 1 ? old : Bytes(16, 0)));
	}
	quiesce();
	g_faults = 0;
	if (!right) {
		no_external("a wrong response during failures");
		if (conn) {
			Bytes got = peer_drain(a.s);
			CHECK(faults_taken() || got == BADPW, "notice", "received '%s'", show(got).c_str());
			CHECK(BADPW.compare(0, got.size(), got) == 0 || a.nonce.size() < 8, "notice", "received '%s'", show(got).c_str());
		}
	} else {
		CHECK(slot_bound(0) || faults_taken(), "not-admitted", "the right response is refused although nothing failed");
		if (conn)
			peer_drain(a.s);
		CHECK(slot_bound(0) || !conn || peer_eof(a.s), "not-dropped", "neither admitted nor disconnected");
	}
	if (conn)
		a.close();
	quiesce();
	must_serve(w, "after the failures");
	count_case(mix(before, how));
	outcome("%d %d %d %d", before, how, right, faults_taken());
	w.down();
}

// Overlong callsigns, missing newlines, truncated handshakes: disconnected without a notice.
SCENARIO(auth_malformed, 0)
{
	World w;
	Cfg c;
	w.up(c);
	watch_binds();
	Client a(w);
	CHECK(a.connect() && a.get_nonce(), "nonce", "no nonce");
	int kind = choose(2, "kind");
	Bytes what;
	if (kind == 0) {
		// callsign of 11 to 27 bytes before the newline, or none at all
		int l = 11 + choose(18, "length");
		Bytes call(l, 'A');
		Bytes all = call + (l < 28 ? "\n" : "") + good(w, a.nonce);
		a.send(all);
		quiesce();
		what = "callsign of " + std::to_string(l);
	} else {
		// truncated at each byte, ended in each way
		int cl = choose(3, "callsign");
		static const char *cs[] = { "W1AW", "ABCDEFGHIJ", "" };
		Bytes all = Bytes(cs[cl]) + "\n" + good(w, a.nonce);
		int n = choose((int)all.size(), "length");
		int end = choose(3, "end");
		if (n)
			a.send(all.substr(0, n));
		quiesce();
		no_external("truncated");
		CHECK(!peer_eof(a.s) && peer_pending(a.s) == 0, "early", "answered an incomplete handshake (%d bytes)", n);
		if (end == 0)
			peer_shutdown_wr(a.s);
		else if (end == 1)
			a.close();
		else
			peer_abort(a.s);
		quiesce();
		what = "truncated to " + std::to_string(n);
		if (end) {
			a.s = nullptr;
		}
	}
	no_external(what.c_str());
	if (a.s) {
		Bytes got = peer_drain(a.s);
		CHECK(got.empty(), "notice", "%s: received '%s'", what.c_str(), show(got).c_str());
		CHECK(peer_eof(a.s), "not-dropped", "%s: still connected", what.c_str());
		a.close();
	}
	quiesce();
	CHECK(g_binds == 0, "admitted", "external ports opened");
	must_serve(w, what.c_str());
	count_case(hash_str(what.c_str()));
	outcome("%s", what.c_str());
	w.down();
}

// Concurrent handshakes: each connection is judged by its own nonce, in every interleaving.
SCENARIO(auth_race, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	SS->rand_script = { 0x11111111, 0x22222222 };
	w.up(c);
	// what each client answers: 0 own response, 1 the other connection's, 2 garbage
	int ka = choose(3, "a answers"), kb = choose(3, "b answers");
	Client a(w, "203.0.113.5", 50001), b(w, "203.0.113.6", 50002);
	a.connect();
	b.connect();
	Bytes got[2];
	bool up[2];
	auto script = [&](Client &me, Client &other, int k) {
		if (!me.get_nonce())
			return;
		Bytes r = me.response(c.password);
		if (k == 1) {
			// learn the other connection's nonce
			static const char *nn[] = { "11111111", "22222222" };
			Bytes on = me.nonce == nn[0] ? nn[1] : nn[0];
			r = pw_response(c.password, on);
		} else if (k == 2)
			r = Bytes(16, 'x');
		me.send("W1AW\n" + r);
	};
	Fiber *fa = spawn("clientA", FK_PEER, [&] { script(a, b, ka); });
	Fiber *fb = spawn("clientB", FK_PEER, [&] { script(b, a, kb); });
	join_fiber(fa);
	join_fiber(fb);
	quiesce();
	g_focus = false;
	CHECK(a.nonce != b.nonce, "nonce", "both connections got the same nonce");
	int n = (ka == 0) + (kb == 0);
	CHECK(slots_bound(2) == n && sut_open().udp == 2 * n, "admitted", "%d sessions exist, %d clients gave the right response",
	      slots_bound(2), n);
	Client *cl[] = { &a, &b };
	int kk[] = { ka, kb };
	for (int i = 0; i < 2; i++) {
		Bytes g = peer_drain(cl[i]->s);
		bool e = peer_eof(cl[i]->s);
		if (kk[i] == 0)
			CHECK(g.empty() && !e, "not-admitted", "client %d with the right response: '%s' %s", i, show(g).c_str(),
			      e ? "disconnected" : "");
		else
			CHECK(g == BADPW && e, "notice", "client %d with a wrong response: '%s' %s", i, show(g).c_str(),
			      e ? "disconnected" : "still connected");
		if (kk[i] == 0) {
			size_t n0 = udp_sent().size();
			cl[i]->send(mkmsg(T_UDATA, "198.51.100.7", i ? "from b" : "from a"));
			quiesce();
			CHECK(udp_sent().size() == n0 + 1 && udp_sent().back().data == (i ? "from b" : "from a"), "relay",
			      "client %d is not served", i);
		}
		cl[i]->close();
	}
	outcome("%d%d", ka, kb);
	w.down();
}

// ------------------------------------------------------------------- C02 --
// Patterns with hand-written meaning (the oracle does not use the library under test).
struct Pat {
	const char *re;
	bool (*m)(const Bytes &);
};
static bool has(const Bytes &s, const char *x) { return s.find(x) != Bytes::npos; }
static const Pat PATS[] = {
	{ "", nullptr },
	{ "^W1AW$", [](const Bytes &s) { return s == "W1AW"; } },
	{ "W1", [](const Bytes &s) { return has(s, "W1"); } },
	{ ".*", [](const Bytes &) { return true; } },
	{ "-L$", [](const Bytes &s) { return s.size() >= 2 && s.substr(s.size() - 2) == "-L"; } },
	{ "^(W1AW|K2[A-C])$", [](const Bytes &s) { return s == "W1AW" || s == "K2A" || s == "K2B" || s == "K2C"; } },
	{ "^[^-]+$", [](const Bytes &s) { return !s.empty() && s.find('-') == Bytes::npos; } },
	{ "^$", [](const Bytes &s) { return s.empty(); } },
	{ "^.{10}", [](const Bytes &s) { return s.size() >= 10; } },
	{ "W1 AW", [](const Bytes &s) { return has(s, "W1 AW"); } },
	{ "^A#1", [](const Bytes &s) { return s.compare(0, 3, "A#1") == 0; } },
	{ "=|^K2", [](const Bytes &s) { return has(s, "=") || s.compare(0, 2, "K2") == 0; } },
	{ "^[A-Z]+[0-9]", [](const Bytes &s) {
		 size_t i = 0;
		 while (i < s.size() && s[i] >= 'A' && s[i] <= 'Z')
			 i++;
		 return i > 0 && i < s.size() && s[i] >= '0' && s[i] <= '9';
	 } },
	{ "\\d{2}$", [](const Bytes &s) { return s.size() >= 2 && isdigit(s[s.size() - 1]) && isdigit(s[s.size() - 2]); } },
	{ "^(?!W1)", [](const Bytes &s) { return s.compare(0, 2, "W1") != 0; } },
};
static const char *PCALLS[] = { "W1AW", "W1AW-L", "K2A", "K2AB", "", "w1aw", "XXXXXXW1AW", "A", "W1 AW", "xW1 AWx", "A#1", "A#22", "A=K2", "A" };

static bool allowed(const Bytes &call, int allow, int deny)
{
	if (deny && PATS[deny].m(call))
		return false;
	return !allow || PATS[allow].m(call);
}
// Try one callsign; the proxy must be idle.
static bool policy_try(World &w, const Bytes &call, bool expect, const char *what)
{
	Client a(w);
	int b0 = g_binds;
	CHECK(a.connect() && a.get_nonce(), "nonce", "no nonce");
	a.send(call + "\n" + a.response(w.cfg.password));
	quiesce();
	Bytes got = peer_drain(a.s);
	bool e = peer_eof(a.s);
	if (expect) {
		CHECK(slot_bound(0) && !e && got.empty(), "policy", "%s: callsign '%s' was refused ('%s')", what, call.c_str(),
		      show(got).c_str());
	} else {
		CHECK(g_binds == b0, "policy", "%s: callsign '%s' was given external ports", what, call.c_str());
		CHECK(got == BADAUTH && e, "policy", "%s: callsign '%s': received '%s'%s instead of the refusal", what,
		      call.c_str(), show(got).c_str(), e ? "" : ", still connected");
	}
	a.close();
	quiesce();
	return true;
}

SCENARIO(policy_inputs, 0)
{
	World w;
	Cfg c;
	int np = sizeof PATS / sizeof *PATS;
	int al = choose(np, "allow"), de = choose(np, "deny");
	c.allowed = PATS[al].re;
	c.denied = PATS[de].re;
	w.up(c);
	watch_binds();
	for (const char *call : PCALLS) {
		Bytes what = Bytes("allow '") + PATS[al].re + "' deny '" + PATS[de].re + "'";
		bool x = allowed(call, al, de);
		policy_try(w, call, x, what.c_str());
		// a wrong password is always answered as such, whatever the callsign
		count_case(mix(hash_str(call), al * 64 + de));
	}
	Client a(w);
	CHECK(a.connect() && a.get_nonce(), "nonce", "no nonce");
	a.send(Bytes("W1AW\n") + Bytes(16, 'q'));
	quiesce();
	CHECK(peer_drain(a.s) == BADPW, "notice", "wrong password is not reported as such");
	a.close();
	outcome("%d %d", al, de);
	w.down();
}

// Two clients are judged at the same time.
SCENARIO(policy_race, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	c.allowed = "^W1";
	c.denied = "-L$";
	static const char *cs[] = { "W1AW", "W1AW-L", "K2A" };
	static const char *what[] = { "both patterns let pass", "is denied", "is not allowed" };
	int k[2] = { choose(3, "a"), choose(3, "b") };
	w.up(c);
	Client a(w, "203.0.113.5", 50001), b(w, "203.0.113.6", 50002);
	Client *cl[] = { &a, &b };
	for (int i = 0; i < 2; i++) {
		cl[i]->connect();
		CHECK(cl[i]->get_nonce(), "nonce", "no nonce");
	}
	g_focus = true;
	for (int i = 0; i < 2; i++)
		cl[i]->send(Bytes(cs[k[i]]) + "\n" + cl[i]->response(c.password));
	quiesce();
	g_focus = false;
	int n = (k[0] == 0) + (k[1] == 0);
	CHECK(slots_bound(2) == n && sut_open().udp == 2 * n, "policy", "%d sessions exist, %d clients are acceptable", slots_bound(2), n);
	for (int i = 0; i < 2; i++) {
		Bytes g = peer_drain(cl[i]->s);
		bool e = peer_eof(cl[i]->s);
		if (k[i] == 0)
			CHECK(g.empty() && !e, "policy", "callsign '%s', which %s, was refused ('%s')", cs[k[i]], what[k[i]], show(g).c_str());
		else
			CHECK(g == BADAUTH && e, "policy", "callsign '%s', which %s: received '%s'%s instead of the refusal", cs[k[i]],
			      what[k[i]], show(g).c_str(), e ? "" : ", still connected");
	}
	a.close();
	b.close();
	quiesce();
	outcome("%d %d", k[0], k[1]);
	w.down();
}

// Two or three opens with different policies; the latest one decides.
SCENARIO(policy_reopen, 0)
{
	World w;
	Cfg c;
	int np = 4;
	static const int pi[] = { 0, 1, 4, 2 };
	int rounds = g_tier ? 3 : 2;
	int al = pi[choose(np, "allow")], de = pi[choose(np, "deny")];
	// asked about last before the policy changes and first after it
	static const char *PIVOT[] = { "W1AW", "W1AW-L", "K2A" };
	const char *pivot = g_arg ? PIVOT[choose(3, "pivot")] : nullptr;
	auto lines = [&](int a, int d) {
		return Bytes("CallsignsAllowed=") + PATS[a].re + "\nCallsignsDenied=" + PATS[d].re + "\n";
	};
	c.extra = lines(al, de);
	w.up(c);
	watch_binds();
	for (int r = 0; r < rounds; r++) {
		Bytes what = "open " + std::to_string(r + 1) + " allow '" + PATS[al].re + "' deny '" + PATS[de].re + "'";
		if (pivot)
			policy_try(w, pivot, allowed(pivot, al, de), what.c_str());
		else
			for (const char *call : PCALLS)
				policy_try(w, call, allowed(call, al, de), what.c_str());
		if (r + 1 == rounds)
			break;
		proxy_shutdown(&w.ph);
		join_fiber(w.loop);
		proxy_close(&w.ph);
		al = pi[choose(np, "allow")];
		de = pi[choose(np, "deny")];
		SS->files["/elp.conf"] = c.text() + lines(al, de);
		CHECK(proxy_load_conf(&w.ph, "/elp.conf") >= 0, "setup", "reload");
		w.open();
		w.start();
		w.run_loop();
		quiesce();
		count_case(mix(r, al * 16 + de));
	}
	w.down();
	outcome("%d %d", al, de);
}

// A failed evaluation refuses the client (and nothing else).
SCENARIO(policy_fault, F_PCRE)
{
	World w;
	Cfg c;
	c.allowed = "W1";
	c.denied = "-L$";
	u32 keep = g_faults;
	g_faults = 0;
	w.retry = 1;
	w.up(c);
	watch_binds();
	g_faults = keep;
	g_focus = false;
	int k = choose(3, "call");
	static const char *cs[] = { "W1AW", "W1AW-L", "K2A" };
	Client a(w);
	a.connect();
	quiesce();
	if (!peer_pending(a.s) && faults_taken() && !peer_eof(a.s)) {
		g_faults = 0;
		a.close();
		quiesce();
		must_serve(w, "after a failure", "203.0.113.99", "W1AW");
		outcome("no nonce");
		w.down();
		return;
	}
	CHECK(a.get_nonce() || faults_taken(), "nonce", "no nonce");
	if (a.nonce.size() == 8)
		a.send(Bytes(cs[k]) + "\n" + a.response(c.password));
	quiesce();
	g_faults = 0;
	Bytes got = peer_drain(a.s);
	bool e = peer_eof(a.s);
	if (slot_bound(0))
		CHECK(k == 0 && !e && got.empty() && faults_taken() == 0, "policy", "callsign '%s' admitted although %s", cs[k],
		      faults_taken() ? "its evaluation failed" : "the policy refuses it");
	else
		CHECK(e && (got == BADAUTH || (faults_taken() && got.empty())), "policy", "callsign '%s': '%s'%s", cs[k],
		      show(got).c_str(), e ? "" : " still connected");
	CHECK(faults_taken() || slot_bound(0) == (k == 0), "policy", "wrong decision");
	a.close();
	quiesce();
	must_serve(w, "after a failed evaluation", "203.0.113.99", "W1AW");
	outcome("%s %zu", cs[k], got.size());
	w.down();
}

// Wherever a client connects from, it is served, and the log names its whole address.
SCENARIO(client_addr, 0)
{
	static const char *A[] = { "203.0.113.5", "203.255.255.254", "2001:db8::5", "fe80:1234:5678:9abc:def0:1234:5678:9abc",
				   "2001:db8:1234:5678:9abc:def0:203.255.255.254", "::ffff:203.255.255.254" };
	static const u16 P[] = { 1, 50001, 65535 };
	World w;
	Cfg c;
	c.denied = "-L$";
	w.logging = true;
	w.up(c);
	Bytes from = A[choose(6, "address")];
	u16 port = P[choose(3, "port")];
	int k = choose(4, "client");
	{
		Client a(w, from.c_str(), port);
		CHECK(a.connect() && a.get_nonce(), "nonce", "no nonce for a client at %s", from.c_str());
		if (k < 2)
			a.send(Bytes(k ? "W1AW-L" : "W1AW") + "\n" + a.response(c.password));
		else if (k == 2)
			a.send("W1AW\n" + Bytes(16, 'x'));
		else
			a.send("W1AW");
		quiesce();
		CHECK(slot_bound(0) == (k == 0), "addr", "a client at %s, %s", from.c_str(), k ? "admitted although it must not be" : "not admitted");
		a.close();
		quiesce();
	}
	in6_addr x;
	char t[64];
	bool six = inet_pton(AF_INET6, from.c_str(), &x) == 1;
	if (six)
		inet_ntop(AF_INET6, &x, t, sizeof t);
	Bytes want = (six ? "[" + Bytes(t) + "]" : from) + ":" + std::to_string(port);
	CHECK(SS->files["/log"].find(want) != Bytes::npos, "addr", "the log doesn't name the client's address '%s'", want.c_str());
	must_serve(w, "afterwards");
	count_case(hash_str(want.c_str()) + k);
	outcome("%d", k);
	w.down();
}

// ------------------------------------------------------------------- C11 --
// Message sequences of an alphabet of valid and malformed headers, truncated, next to an innocent session.
static const int NHOST = 16;
static Bytes hostile_msg(int i)
{
	switch (i) {
	case 0: return mkmsg(0, "198.51.100.7", "");
	case 1: return mkmsg(7, "198.51.100.7", Bytes("\0\0\0\1", 4));
	case 2: return mkmsg(255, "255.255.255.255", "zz", 0xffffffffu);
	case 3: return mkmsg(T_UDATA, "198.51.100.7", "abc", 0xffffffffu);
	case 4: return mkmsg(T_UCTRL, "255.255.255.255", "abc", 0x80000000u);
	case 5: return mkmsg(T_TDATA, "0.0.0.0", "abc", 0xffffffffu);
	case 6: return mkmsg(T_TDATA, nullptr, Bytes(5000, 'q'));
	case 7: return mkmsg(T_TCLOSE, nullptr, "");
	case 8: return mkmsg(T_TCLOSE, nullptr, "tail-that-is-not-expected");
	case 9: return mkmsg(T_OPEN, "255.255.255.255", "");
	case 10: return mkmsg(T_OPEN, "0.0.0.0", "");
	case 11: return mkmsg(T_TSTATUS, nullptr, Bytes(4, 0));
	case 12: return mkmsg(T_UDATA, "0.0.0.0", Bytes(9000, 'u'));
	case 13: return mkmsg(T_UCTRL, "10.0.0.1", "to the neighbour");
	case 14: return Bytes("\x05\x01", 2); // truncated header
	case 15: return mkmsg(T_OPEN, "198.51.100.9", Bytes(4095, 'o'));
	}
	return "";
}

// An innocent session next to the attacker: everything due to it must arrive, and nothing else.
struct Neighbour {
	World &w;
	Client c;
	int slot = -1;
	std::vector<Bytes> due;
	size_t sent = 0;
	Neighbour(World &ww) : w(ww), c(ww, "203.0.113.77", 51000) {}
	void up()
	{
		slot = admit(c, "N8BR");
		CHECK(slot >= 0, "setup", "neighbour not admitted");
	}
	// both directions still work (proxy idle before and after)
	void check(const char *what)
	{
		CHECK(slot_bound(slot) && !peer_eof(c.s), "neighbour", "%s: another session was ended", what);
		size_t n0 = udp_sent().size();
		c.send(mkmsg(T_UDATA, "198.51.100.200", "neighbour-out"));
		quiesce();
		CHECK(udp_sent().size() == n0 + 1 && udp_sent().back().data == "neighbour-out" &&
			      udp_sent().back().saddr == ip(EXT[slot]),
		      "neighbour", "%s: another session's data is not relayed", what);
		peer_sendto("198.51.100.200", 5198, ip(EXT[slot]), 5198, "neighbour-in");
		quiesce();
		due.push_back("neighbour-in");
		c.drain();
		CHECK(c.rx.empty(), "neighbour", "%s: partial message for another session", what);
		CHECK(c.msgs.size() == due.size(), "neighbour", "%s: another session received %s", what, show(c.msgs).c_str());
		for (size_t i = 0; i < due.size(); i++)
			CHECK(c.msgs[i].data == due[i], "neighbour", "%s: another session received %s", what,
			      show(c.msgs).c_str());
	}
};

static void hostile_end(Client &a, int end)
{
	if (end == 1)
		peer_shutdown_wr(a.s);
	else if (end == 2)
		a.close();
	else if (end == 3)
		peer_abort(a.s);
}

SCENARIO(hostile, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.logging = true;
	w.up(c);
	g_focus = false;
	peer_listen("198.51.100.9", 5200);
	Neighbour nb(w);
	nb.up();
	Client a(w);
	int sl = admit(a, "H4X");
	CHECK(sl == 1, "setup", "attacker not admitted");
	int depth = 1 + choose(g_tier ? 3 : 2, "messages");
	Bytes what, all;
	bool ends = false;
	int idx[3];
	for (int i = 0; i < depth; i++) {
		idx[i] = choose(NHOST, "message");
		what += (i ? "," : "") + std::to_string(idx[i]);
		all += hostile_msg(idx[i]);
	}
	// cut: nothing, one byte off, in the middle
	int cut = choose(3, "cut");
	if (cut)
		all.resize(cut == 1 ? all.size() - 1 : all.size() / 2);
	what = "messages " + what + " cut " + std::to_string(cut);
	// what a correct proxy makes of it: only whether the session must end, and what reaches the neighbour
	size_t p = 0;
	while (all.size() - p >= 9 && !ends) {
		u8 t = all[p];
		u32 n;
		memcpy(&n, &all[p + 5], 4);
		if (t == 0 || t > T_UCTRL || t == T_TSTATUS) {
			ends = true;
			break;
		}
		if (t == T_OPEN || t == T_TCLOSE)
			n = 0;
		bool whole = all.size() - p - 9 >= n;
		u32 to;
		memcpy(&to, &all[p + 1], 4);
		if (t == T_UCTRL && to == ip(EXT[0])) {
			size_t have = std::min<size_t>(n, all.size() - p - 9);
			if (whole && have)
				nb.due.push_back(all.substr(p + 9, n));
		}
		if (!whole)
			break;
		p += 9 + n;
	}
	a.send(all);
	quiesce();
	CHECK(!ends || peer_eof(a.s) || peer_reset_seen(a.s) || a.s == nullptr || !slot_bound(1), "not-dropped",
	      "%s: the session survives an invalid message", what.c_str());
	if (!ends)
		CHECK(slot_bound(1), "dropped", "%s: the session was ended although everything sent so far is permitted",
		      what.c_str());
	int end = choose(4, "end");
	hostile_end(a, end);
	quiesce();
	nb.check(what.c_str());
	if (end == 0 && !ends)
		a.close();
	quiesce();
	CHECK(slots_bound(2) == 1, "slot", "%s: the attacker's address was not released", what.c_str());
	CHECK(SS->max_alloc < 65536, "alloc", "%s: a single allocation of %zu bytes", what.c_str(), SS->max_alloc);
	must_serve(w, what.c_str());
	nb.check(what.c_str());
	count_case(hash_str(what.c_str()) + end);
	outcome("%d %d", ends, end);
	w.down();
}

// Garbage before and instead of the credentials
SCENARIO(hostile_preauth, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.logging = true;
	w.up(c);
	g_focus = false;
	Neighbour nb(w);
	nb.up();
	Client a(w);
	CHECK(a.connect(), "refused", "refused");
	Bytes g;
	bool wait = choose(2, "wait for the nonce");
	if (wait)
		a.get_nonce();
	int k = choose(wait ? 12 + 6 : 12, "garbage");
	static const char *odd[] = { "%n%s%n%s%n", "%s%s%s%s%s", "%99999999s", "%1$n%2$n\x80", "\\\"';`$()<>", "\x1b[2J\r\t\a" };
	bool right = k >= 12;
	switch (k) {
	default: g = Bytes(odd[k - 12]) + "\n" + a.response(c.password); break;
	case 0: g = Bytes(28, 0); break;
	case 1: g = Bytes(10000, (char)0xff); break;
	case 2: g = Bytes(28, '\n'); break;
	case 3: g = "%n%s%n%s\n" + Bytes(16, '%'); break;
	case 4: g = Bytes("A\0B\n", 4) + Bytes(16, 1); break;
	case 5: g = Bytes(16, 'A') + "\n" + Bytes(16, 'B'); break;
	case 6: g = Bytes(10, (char)0x80) + "\n" + Bytes(16, 'B'); break;
	case 7: g = "GET / HTTP/1.1\r\nHost: x\r\n\r\n"; break;
	case 8: g = mkmsg(T_OPEN, "198.51.100.9", ""); break;
	case 9: g = Bytes("ABCDEFGHIJ\n") + Bytes(4000, 'C'); break;
	case 10: g = Bytes("ABCDEFGHIJK\n") + Bytes(16, 'C'); break;
	case 11: g = Bytes(1, '\n') + Bytes(16, '\n'); break;
	}
	int cut = right ? 0 : choose(4, "cut");
	static const int cc[] = { 1 << 20, 27, 16, 5 };
	g = g.substr(0, cc[cut]);
	a.send(g);
	quiesce();
	if (right) {
		// strange, but within the rules
		CHECK(slots_bound(2) == 2 && !peer_eof(a.s), "not-served", "callsign '%s' with the right response is not served", show(odd[k - 12]).c_str());
		a.send(mkmsg(T_UDATA, "198.51.100.7", "odd"));
		quiesce();
		CHECK(udp_sent().size() && udp_sent().back().data == "odd", "not-served", "callsign '%s' is not served", show(odd[k - 12]).c_str());
		nb.check("odd callsign");
	}
	int end = choose(4, "end");
	if (right && end == 0) {
		a.close();
		a.s = nullptr;
	}
	hostile_end(a, end);
	quiesce();
	CHECK(slots_bound(2) == 1, "admitted", "garbage %d was admitted", k);
	nb.check("garbage before authorization");
	if (end == 0 && a.s)
		a.close();
	quiesce();
	CHECK(SS->max_alloc < 65536, "alloc", "a single allocation of %zu bytes", SS->max_alloc);
	must_serve(w, "garbage before authorization");
	count_case(k * 64 + cut * 16 + end * 2 + wait);
	outcome("%d", k);
	w.down();
}

// Malformed input racing with traffic for both sessions.
SCENARIO(hostile_race, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	g_focus = false;
	peer_listen("198.51.100.9", 5200);
	Neighbour nb(w);
	nb.up();
	Client a(w);
	CHECK(admit(a, "H4X") == 1, "setup", "attacker not admitted");
	static const Bytes *seq[6];
	static const int pick[] = { 0, 3, 5, 9, 14, 2 };
	int k = choose(6, "message");
	(void)seq;
	Bytes m = hostile_msg(pick[k]);
	if (pick[k] == 9)
		m = mkmsg(T_OPEN, "198.51.100.9", "") + mkmsg(99, nullptr, "x");
	g_focus = true;
	Fiber *fa = spawn("attacker", FK_PEER, [&] {
		a.send(m);
		peer_abort(a.s);
	});
	Fiber *fn = spawn("network", FK_PEER, [&] {
		peer_sendto("198.51.100.1", 5198, ip(EXT[1]), 5198, "to the attacker");
		peer_sendto("198.51.100.1", 5198, ip(EXT[0]), 5198, "to the neighbour");
	});
	nb.due.push_back("to the neighbour");
	join_fiber(fa);
	join_fiber(fn);
	quiesce();
	g_focus = false;
	CHECK(slots_bound(2) == 1, "slot", "the attacker's address was not released");
	nb.check("attack");
	must_serve(w, "after the attack");
	outcome("%d", k);
	w.down();
}
