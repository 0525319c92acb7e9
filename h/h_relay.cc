// Relaying: C03 (client to network), C04 (network to client), C05 (TCP life cycle).
#include "world.h"

static Bytes pattern(int tag, size_t n)
{
	Bytes b(n, 0);
	for (size_t i = 0; i < n; i++)
		b[i] = (char)(tag * 37 + i * 11 + (i >> 8) * 7 + 1);
	return b;
}

static const char *ADDRS[] = { "198.51.100.7", "203.0.113.250", "1.2.3.4", "255.254.253.252" };

// One expected outgoing message
struct Out {
	u8 type;
	const char *to;
	Bytes data;
};

// Every datagram sent must be accounted for by the messages, in order.
static void check_out(const std::vector<Out> &v, u32 from, const char *what)
{
	auto &s = udp_sent();
	size_t k = 0;
	for (auto &o : v) {
		if (o.type != T_UDATA && o.type != T_UCTRL)
			continue;
		u16 port = o.type == T_UDATA ? 5198 : 5199;
		Bytes got;
		size_t first = k;
		while (got.size() < o.data.size() || (o.data.empty() && false)) {
			CHECK(k < s.size(), "c2n-lost", "%s: message of %zu bytes to %s: only %zu bytes left the proxy", what,
			      o.data.size(), o.to, got.size());
			CHECK(s[k].daddr == ip(o.to) && s[k].dport == port, "c2n-dest", "%s: datagram sent to %s:%u instead of %s:%u",
			      what, ipstr(s[k].daddr).c_str(), s[k].dport, o.to, port);
			CHECK(s[k].saddr == from && s[k].sport == port, "c2n-source",
			      "%s: datagram sent from %s:%u instead of %s:%u", what, ipstr(s[k].saddr).c_str(), s[k].sport,
			      ipstr(from).c_str(), port);
			CHECK(!s[k].data.empty(), "c2n-empty", "%s: empty datagram sent", what);
			got += s[k].data;
			k++;
		}
		CHECK(got == o.data, "c2n-content", "%s: payload of %zu bytes left as %zu bytes or with other content", what,
		      o.data.size(), got.size());
		if (o.data.size() <= 4096 && o.data.size())
			CHECK(k == first + 1, "c2n-split", "%s: message of %zu bytes left as %zu datagrams", what, o.data.size(),
			      k - first);
	}
	CHECK(k == s.size(), "c2n-extra", "%s: %zu datagrams sent, %zu expected", what, s.size(), k);
}

static const size_t SZ[] = { 1, 0, 2, 4095, 4096, 4097, 8192, 8193, 10000, 9 };

// Message sequences, split in two at every interesting point, with short reads and writes.
SCENARIO(c2n_seq, F_SHORT_RECV | F_SHORT_SEND)
{
	World w;
	Cfg c;
	u32 keep = g_faults;
	g_faults = 0;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *t = peer_accept(l);
	quiesce();
	a.drain();
	CHECK(a.msgs.size() == 1 && a.msgs[0].type == T_TSTATUS && a.msgs[0].data == Bytes(4, 0), "setup", "tcp open");
	CHECK(sock_raddr(t) == ip(EXT[0]) && sock_laddr(t) == ip("198.51.100.9") && sock_lport(t) == 5200, "c2n-tcp-addr",
	      "TCP connection from %s to %s:%u", ipstr(sock_raddr(t)).c_str(), ipstr(sock_laddr(t)).c_str(), sock_lport(t));
	g_faults = keep;
	int depth = 1 + choose(g_arg == 2 ? 3 : 2, "messages");
	int nsz = g_arg == 2 ? 6 : sizeof SZ / sizeof *SZ;
	std::vector<Out> exp;
	Bytes all, tcp, what;
	for (int i = 0; i < depth; i++) {
		static const u8 ty[] = { T_UDATA, T_UCTRL, T_TDATA };
		u8 type = ty[choose(3, "type")];
		size_t n = SZ[choose(nsz, "size")];
		Bytes p = pattern(i + 1, n);
		const char *to = ADDRS[(i + (type == T_UCTRL)) % 4];
		all += mkmsg(type, to, p);
		if (type == T_TDATA)
			tcp += p;
		else
			exp.push_back(Out{ type, to, p });
		what += std::to_string(type) + "/" + std::to_string(n) + " ";
	}
	// where the stream is cut in two
	static const int cut[] = { 0, 1, 5, 8, 9, 10, -1, -2 };
	int k = faults_on(F_SHORT_RECV) && g_arg == 1 ? 0 : choose(8, "cut");
	int at = cut[k] < 0 ? (int)all.size() + cut[k] : cut[k];
	if (at > 0 && at < (int)all.size()) {
		a.send(all.substr(0, at));
		quiesce();
		a.send(all.substr(at));
	} else
		a.send(all);
	quiesce();
	CHECK(!peer_eof(a.s) && slot_bound(0), "dropped", "%s: the session ended", what.c_str());
	check_out(exp, ip(EXT[0]), what.c_str());
	Bytes got = peer_drain(t);
	CHECK(got == tcp, "c2n-tcp", "%s: the TCP peer received %zu bytes instead of %zu, or other content", what.c_str(), got.size(),
	      tcp.size());
	CHECK(!peer_eof(t), "c2n-tcp-closed", "%s: the TCP connection was closed", what.c_str());
	a.drain();
	CHECK(a.msgs.size() == 1 && a.rx.empty(), "unexpected", "%s: the client received %s", what.c_str(), show(a.msgs).c_str());
	CHECK(tcp_connects().size() == 1, "c2n-extra", "unexpected TCP connection");
	count_case(mix(hash_str(what.c_str()), k));
	outcome("%zu %zu", udp_sent().size(), got.size());
	g_faults = 0;
	a.close();
	w.down();
}

// Large messages and payloads whose bytes could be mistaken for something else, each followed by a small message.
SCENARIO(c2n_size, F_SHORT_RECV)
{
	World w;
	Cfg c;
	u32 keep = g_faults;
	g_faults = 0;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *t = peer_accept(l);
	quiesce();
	a.drain();
	g_faults = keep;
	static const u8 ty[] = { T_UDATA, T_UCTRL, T_TDATA };
	static const size_t big[] = { 3, 4, 5, 20, 4096, 4100, 32767, 32769, 65535, 65536, 65537, 69632, 131072, 131077, 200003 };
	u8 type = ty[choose(3, "type")];
	size_t n = big[choose(15, "size")];
	int fill = choose(4, "fill");
	Bytes p = pattern(1, n);
	if (fill == 1)
		p.assign(n, '\0');
	else if (fill == 2)
		p.assign(n, '\xff');
	else if (fill == 3) { // looks like messages itself
		Bytes m = mkmsg(T_TCLOSE, nullptr, "") + mkmsg(T_UDATA, "1.2.3.4", "abc");
		p.clear();
		while (p.size() < n)
			p += m;
		p.resize(n);
	}
	const char *to = choose(2, "to") ? "0.0.0.1" : ADDRS[0];
	std::vector<Out> exp;
	Bytes tcp, all = mkmsg(type, to, p) + mkmsg(T_UDATA, ADDRS[1], "after") + mkmsg(T_TDATA, nullptr, "end");
	if (type == T_TDATA)
		tcp = p;
	else
		exp.push_back(Out{ type, to, p });
	exp.push_back(Out{ T_UDATA, ADDRS[1], "after" });
	tcp += "end";
	a.send(all);
	quiesce();
	Bytes what = std::to_string(type) + "/" + std::to_string(n) + " fill " + std::to_string(fill);
	CHECK(!peer_eof(a.s) && slot_bound(0), "dropped", "%s: the session ended", what.c_str());
	check_out(exp, ip(EXT[0]), what.c_str());
	Bytes got = peer_drain(t);
	CHECK(got == tcp, "c2n-tcp", "%s: the TCP peer received %zu bytes instead of %zu, or other content", what.c_str(), got.size(),
	      tcp.size());
	a.drain();
	CHECK(a.msgs.size() == 1 && a.rx.empty(), "unexpected", "%s: the client received %s", what.c_str(), show(a.msgs).c_str());
	count_case(mix(n, type * 8 + fill));
	outcome("%d %zu", type, n);
	g_faults = 0;
	a.close();
	w.down();
}

// Every address byte matters
SCENARIO(c2n_addr, 0)
{
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	g_focus = false;
	Client a(w), b(w, "203.0.113.6", 50007);
	CHECK(admit(a, "W1AW") == 0 && admit(b, "K2A") == 1, "setup", "not admitted");
	int who = choose(2, "client");
	static const u8 bv[] = { 0, 1, 9, 10, 99, 100, 127, 128, 199, 255 };
	u8 ad[4] = { 198, 51, 100, 7 };
	int pos = choose(4, "byte");
	ad[pos] = bv[choose(10, "value")];
	u32 au;
	memcpy(&au, ad, 4);
	Bytes as = ipstr(au);
	static const u8 ty[] = { T_UDATA, T_UCTRL, T_OPEN };
	u8 type = ty[choose(3, "type")];
	Client &x = who ? b : a;
	Sock *l = nullptr;
	if (type == T_OPEN)
		l = peer_listen(as.c_str(), 5200);
	x.send(mkmsg(type, as.c_str(), type == T_OPEN ? "" : "payload"));
	quiesce();
	if (type == T_OPEN) {
		CHECK(tcp_connects().size() == 1, "c2n-tcp-addr", "%zu connections", tcp_connects().size());
		ConnectRec r = tcp_connects()[0];
		CHECK(r.to == au && r.port == 5200, "c2n-tcp-addr", "TCP connection to %s:%u instead of %s:5200", ipstr(r.to).c_str(),
		      r.port, as.c_str());
		CHECK(r.from == ip(EXT[who]), "c2n-tcp-addr", "TCP connection from %s", ipstr(r.from).c_str());
		x.drain();
		CHECK(x.msgs.size() == 1 && x.msgs[0].type == T_TSTATUS, "status", "no status");
		CHECK((x.msgs[0].data == Bytes(4, 0)) == (r.result == 0), "status", "wrong status");
	} else {
		std::vector<Out> e{ Out{ type, as.c_str(), "payload" } };
		check_out(e, ip(EXT[who]), as.c_str());
	}
	count_case(mix(au, who * 8 + type));
	outcome("%d", type);
	a.close();
	b.close();
	w.down();
}

// Outgoing traffic of all kinds while incoming traffic of all kinds arrives; small buffers everywhere.
SCENARIO(c2n_race, F_SHORT_SEND | F_SHORT_RECV)
{
	World w;
	Cfg c;
	u32 keep = g_faults;
	g_faults = 0;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *t = peer_accept(l);
	quiesce();
	a.drain();
	a.msgs.clear();
	NC.capacity = 20;
	g_faults = keep;
	g_focus = true;
	int order = choose(3, "order");
	Bytes d1 = pattern(1, 30), c1 = pattern(2, 5), t1 = pattern(3, 41), t2 = pattern(4, 3);
	std::vector<Out> exp;
	Bytes m[4] = { mkmsg(T_TDATA, nullptr, t1), mkmsg(T_UDATA, ADDRS[0], d1), mkmsg(T_UCTRL, ADDRS[1], c1),
		       mkmsg(T_TDATA, nullptr, t2) };
	Out od{ T_UDATA, ADDRS[0], d1 }, oc{ T_UCTRL, ADDRS[1], c1 };
	static const int ord[3][4] = { { 0, 1, 2, 3 }, { 1, 0, 3, 2 }, { 2, 0, 1, 3 } };
	Bytes all;
	for (int i = 0; i < 4; i++) {
		all += m[ord[order][i]];
		if (ord[order][i] == 1)
			exp.push_back(od);
		if (ord[order][i] == 2)
			exp.push_back(oc);
	}
	Bytes gott;
	Fiber *fs = spawn("client-tx", FK_PEER, [&] { a.send(all); });
	auto incoming = [&] { // datagrams, TCP bytes
		size_t n = 0;
		Bytes tcp;
		for (auto &x : a.msgs)
			x.type == T_TDATA ? (void)(tcp += x.data) : (void)n++;
		return std::make_pair(n, tcp);
	};
	Fiber *fr = spawn("client-rx", FK_PEER, [&] {
		while ((incoming().first < 2 || incoming().second.size() < 8) && a.more())
			;
	});
	Fiber *ft = spawn("tcp-peer", FK_PEER, [&] {
		peer_send(t, "from-tcp");
		gott = peer_recv(t, t1.size() + t2.size());
	});
	Fiber *fn = spawn("network", FK_PEER, [&] {
		peer_sendto("198.51.100.20", 5198, ip(EXT[0]), 5198, "in-data");
		peer_sendto("198.51.100.21", 5199, ip(EXT[0]), 5199, "in-ctrl");
	});
	join_fiber(fs);
	join_fiber(fr);
	join_fiber(ft);
	join_fiber(fn);
	quiesce();
	g_focus = false;
	check_out(exp, ip(EXT[0]), "race");
	gott += peer_drain(t);
	CHECK(gott == (order == 1 ? t1 + t2 : t1 + t2), "c2n-tcp", "the TCP peer received %zu bytes, %zu expected", gott.size(),
	      t1.size() + t2.size());
	CHECK(incoming() == std::make_pair((size_t)2, Bytes("from-tcp")) && a.rx.empty(), "n2c", "the client received %s", show(a.msgs).c_str());
	CHECK(!peer_eof(a.s) && !peer_eof(t), "dropped", "a connection ended");
	outcome("%d", order);
	g_faults = 0;
	a.close();
	w.down();
}

// ------------------------------------------------------------------- C04 --
struct In {
	u8 type;
	u32 from;
	Bytes data;
};
// The client's messages of one UDP type must be exactly these.
static void check_in(const std::vector<Msg> &got, const std::vector<In> &v, u8 type, const char *what)
{
	size_t k = 0;
	std::vector<const Msg *> g;
	for (auto &m : got)
		if (m.type == type)
			g.push_back(&m);
	for (auto &i : v) {
		if (i.type != type || i.data.empty())
			continue;
		CHECK(k < g.size(), "n2c-lost", "%s: a datagram of %zu bytes was not delivered (client has %s)", what,
		      i.data.size(), show(got).c_str());
		if (i.data.size() > 4087) {
			// too large for one message: what happens to it is not specified, except that framing survives
			if (g[k]->addr == i.from && i.data.compare(0, g[k]->data.size(), g[k]->data) == 0)
				k++;
			continue;
		}
		CHECK(g[k]->data == i.data, "n2c-content", "%s: datagram of %zu bytes delivered as %zu bytes or with other content",
		      what, i.data.size(), g[k]->data.size());
		CHECK(g[k]->addr == i.from, "n2c-addr", "%s: sender given as %s instead of %s", what, ipstr(g[k]->addr).c_str(),
		      ipstr(i.from).c_str());
		k++;
	}
	CHECK(k == g.size(), "n2c-extra", "%s: %zu messages of type %d instead of %zu: %s", what, g.size(), type, k,
	      show(got).c_str());
}
static Bytes tcp_in(const std::vector<Msg> &got)
{
	Bytes r;
	for (auto &m : got)
		if (m.type == T_TDATA) {
			CHECK(!m.data.empty(), "n2c-empty", "empty TCP data message");
			r += m.data;
		}
	return r;
}

static const size_t DSZ[] = { 3, 0, 1, 4086, 4087, 4088, 6000 };

// Messages of a megabyte and more.
SCENARIO(c2n_huge, 0, false, 4000000)
{
	World w;
	Cfg c;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *t = peer_accept(l);
	quiesce();
	a.drain();
	int k = choose(6, "message");
	static const u8 ty[] = { T_UDATA, T_UCTRL, T_TDATA };
	u8 type = ty[k % 3];
	size_t n = k >= 3 ? (16u << 20) + 5 : (1u << 20) + 3;
	Bytes p = pattern(1, n), m = mkmsg(type, ADDRS[0], p), got;
	for (size_t i = 0; i < m.size(); i += 256u << 10) {
		a.send(m.substr(i, 256u << 10));
		quiesce();
		CHECK(!peer_eof(a.s) && slot_bound(0), "dropped", "%u/%zu: the session ended after %zu bytes", type, n, i);
		got += peer_drain(t);
	}
	a.send(mkmsg(T_UDATA, ADDRS[1], "after") + mkmsg(T_TDATA, nullptr, "end"));
	quiesce();
	got += peer_drain(t);
	std::vector<Out> exp;
	if (type != T_TDATA)
		exp.push_back(Out{ type, ADDRS[0], p });
	exp.push_back(Out{ T_UDATA, ADDRS[1], "after" });
	check_out(exp, ip(EXT[0]), "huge message");
	CHECK(got == (type == T_TDATA ? p : Bytes()) + "end", "c2n-tcp", "%zu bytes: the TCP peer received %zu bytes, or other content", n,
	      got.size());
	count_case(k);
	outcome("%u %zu", type, n);
	a.close();
	w.down();
}

// Datagrams from every kind of address and port.
SCENARIO(n2c_addr, 0, false, 4000000)
{
	World w;
	Cfg c;
	w.up(c);
	g_focus = false;
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.drain();
	int src = choose(2, "socket");
	static const u16 ports[] = { 1, 53, 1023, 1024, 5197, 5198, 5199, 5200, 8100, 32767, 32768, 65535 };
	u16 from_port = ports[choose(12, "port")];
	static const u8 first[] = { 1, 10, 100, 127, 128, 192, 203, 223 }, rest[] = { 0, 1, 2, 127, 128, 254, 255 };
	u8 ad[4];
	ad[0] = first[choose(8, "network")];
	u16 port = src ? 5199 : 5198;
	u8 type = src ? T_UCTRL : T_UDATA;
	for (int i = 0; i < 7 * 7 * 7; i++) {
		ad[1] = rest[i / 49];
		ad[2] = rest[i / 7 % 7];
		ad[3] = rest[i % 7];
		u32 au;
		memcpy(&au, ad, 4);
		Bytes as = ipstr(au), p = pattern(1 + i % 7, 1 + i % 5);
		a.msgs.clear();
		peer_sendto(as.c_str(), from_port, ip(EXT[0]), port, p);
		quiesce();
		a.drain();
		CHECK(!peer_eof(a.s), "dropped", "datagram from %s:%u: the session ended", as.c_str(), from_port);
		CHECK(a.rx.empty() && a.msgs.size() == 1, "n2c-lost", "datagram from %s:%u: the client received %s", as.c_str(), from_port,
		      show(a.msgs).c_str());
		CHECK(a.msgs[0].type == type && a.msgs[0].addr == au && a.msgs[0].data == p, "n2c-content",
		      "datagram from %s:%u: the client received %s", as.c_str(), from_port, show(a.msgs).c_str());
		count_case(mix(au, from_port * 2 + src));
	}
	outcome("%d %u %u", src, from_port, ad[0]);
	a.close();
	w.down();
}

SCENARIO(n2c_seq, F_SHORT_SEND)
{
	World w;
	Cfg c;
	u32 keep = g_faults;
	g_faults = 0;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *t = peer_accept(l);
	quiesce();
	a.drain();
	a.msgs.clear();
	g_faults = keep;
	int depth = 1 + choose(g_arg == 2 ? 3 : 2, "arrivals");
	std::vector<In> v;
	Bytes tcp, what;
	// how much of the client's stream fits; whether the proxy works off each arrival before the next
	static const size_t caps[] = { 1u << 20, 16, 9, 4000 };
	int cap = choose(g_arg == 1 ? 1 : 4, "capacity");
	int burst = choose(2, "burst");
	NC.capacity = caps[cap];
	Fiber *rd = cap ? spawn("client-rx", FK_PEER, [&] {
		while (a.more())
			;
	}) : nullptr;
	for (int i = 0; i < depth; i++) {
		int src = choose(3, "source");
		size_t n = DSZ[choose(7, "size")];
		Bytes p = pattern(i + 1, n);
		const char *from = ADDRS[(i * 3 + src) % 4];
		what += (src == 0 ? "data/" : src == 1 ? "control/" : "tcp/") + std::to_string(n) + " ";
		if (src == 2) {
			tcp += p;
			size_t cc = NC.capacity;
			NC.capacity = 1u << 20; // only the client is slow
			if (n)
				peer_send(t, p);
			NC.capacity = cc;
		} else {
			u16 port = src == 0 ? 5198 : 5199;
			// the source port is not part of the message
			peer_sendto(from, i ? 40000 + i : port, ip(EXT[0]), port, p);
			v.push_back(In{ (u8)(src == 0 ? T_UDATA : T_UCTRL), ip(from), p });
		}
		if (!burst)
			quiesce();
	}
	quiesce();
	if (!rd)
		a.drain();
	CHECK(a.rx.empty(), "framing", "%s: incomplete message at the end", what.c_str());
	for (auto &m : a.msgs)
		CHECK(m.type == T_UDATA || m.type == T_UCTRL || m.type == T_TDATA, "n2c-extra", "%s: unexpected message %s",
		      what.c_str(), show(a.msgs).c_str());
	check_in(a.msgs, v, T_UDATA, what.c_str());
	check_in(a.msgs, v, T_UCTRL, what.c_str());
	Bytes ti = tcp_in(a.msgs);
	CHECK(ti == tcp, "n2c-tcp", "%s: %zu bytes from the TCP connection delivered instead of %zu, or other content", what.c_str(),
	      ti.size(), tcp.size());
	CHECK(slot_bound(0) && !peer_eof(a.s), "dropped", "%s: the session ended", what.c_str());
	// still alive in every direction
	NC.capacity = 1u << 20;
	g_faults = 0;
	size_t k = a.msgs.size();
	peer_sendto("198.51.100.33", 5198, ip(EXT[0]), 5198, "more");
	quiesce();
	if (!rd)
		a.drain();
	CHECK(a.msgs.size() == k + 1 && a.msgs[k].data == "more", "n2c-stuck", "%s: later data is not delivered", what.c_str());
	peer_sendto("198.51.100.33", 5199, ip(EXT[0]), 5199, "more");
	quiesce();
	if (!rd)
		a.drain();
	CHECK(a.msgs.size() == k + 2 && a.msgs[k + 1].data == "more", "n2c-stuck", "%s: later control data is not delivered",
	      what.c_str());
	CHECK(udp_sent().empty(), "c2n-extra", "%s: datagrams were sent", what.c_str());
	count_case(mix(hash_str(what.c_str()), cap * 2 + burst));
	outcome("%zu", a.msgs.size());
	a.close();
	w.down();
}

// Everything at once
SCENARIO(n2c_race, F_SHORT_SEND)
{
	World w;
	Cfg c;
	u32 keep = g_faults;
	g_faults = 0;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	Sock *t = peer_accept(l);
	quiesce();
	a.drain();
	a.msgs.clear();
	g_faults = keep;
	int cap = choose(2, "capacity");
	int reopen = choose(2, "client requests");
	NC.capacity = cap ? 12 : 1u << 20;
	g_focus = true;
	std::vector<In> v{ In{ T_UDATA, ip(ADDRS[0]), "data-one" }, In{ T_UDATA, ip(ADDRS[1]), "data-two!" },
			   In{ T_UCTRL, ip(ADDRS[2]), "control" } };
	size_t want = 4 + reopen;
	Fiber *f1 = spawn("data", FK_PEER, [&] {
		peer_sendto(ADDRS[0], 5198, ip(EXT[0]), 5198, v[0].data);
		peer_sendto(ADDRS[1], 5198, ip(EXT[0]), 5198, v[1].data);
	});
	Fiber *f2 = spawn("control", FK_PEER, [&] { peer_sendto(ADDRS[2], 5199, ip(EXT[0]), 5199, v[2].data); });
	Fiber *f3 = spawn("tcp-peer", FK_PEER, [&] { peer_send(t, "tcp-bytes"); });
	Fiber *f4 = spawn("client-rx", FK_PEER, [&] {
		for (;;) {
			size_t n = 0;
			Bytes tt;
			for (auto &m : a.msgs)
				if (m.type == T_TDATA)
					tt += m.data;
				else
					n++;
			if (n >= want - 1 && tt.size() >= 9)
				break;
			if (!a.more())
				break;
		}
	});
	Fiber *f5 = reopen ? spawn("client-tx", FK_PEER, [&] { a.send(mkmsg(T_TDATA, nullptr, "to-tcp") + mkmsg(T_OPEN, "198.51.100.44", "")); }) :
			     nullptr;
	join_fiber(f1);
	join_fiber(f2);
	join_fiber(f3);
	if (f5)
		join_fiber(f5);
	if (!reopen)
		join_fiber(f4);
	quiesce();
	g_focus = false;
	if (reopen) {
		// the connection is replaced: its bytes are a prefix, then close and a failing status
		NC.capacity = 1u << 20;
		quiesce();
	}
	a.drain();
	CHECK(a.rx.empty(), "framing", "incomplete message at the end");
	check_in(a.msgs, v, T_UDATA, "race");
	check_in(a.msgs, v, T_UCTRL, "race");
	Bytes ti = tcp_in(a.msgs);
	if (!reopen)
		CHECK(ti == "tcp-bytes", "n2c-tcp", "TCP bytes '%s'", show(ti).c_str());
	else
		CHECK(Bytes("tcp-bytes").compare(0, ti.size(), ti) == 0, "n2c-tcp", "TCP bytes '%s'", show(ti).c_str());
	for (auto &m : a.msgs)
		CHECK(m.type == T_UDATA || m.type == T_UCTRL || m.type == T_TDATA || (reopen && (m.type == T_TSTATUS || m.type == T_TCLOSE)),
		      "n2c-extra", "unexpected message: %s", show(a.msgs).c_str());
	Bytes ord;
	for (auto &m : a.msgs)
		ord += (char)('0' + m.type);
	outcome("%d%d %s", cap, reopen, ord.c_str());
	g_faults = 0;
	a.close();
	if (reopen)
		quiesce();
	w.down();
}

// ------------------------------------------------------------------- C05 --
enum TOp { O_OPEN, O_OPENBAD, O_DATA, O_CLOSE, O_NOPS };
enum TBeh { B_SILENT, B_SEND, B_SENDFIN, B_SENDRST, B_FIN, B_RST, B_HALF, B_ECHO, B_N };

struct TcpRun {
	std::vector<int> ops;
	std::vector<int> beh;              // per connection
	std::vector<Sock *> conns;         // accepted, in order
	std::vector<Bytes> sent;           // by the peer of each connection
	std::vector<bool> fin;             // ended its stream by itself
	std::vector<bool> rst;
};

static void tcp_peer(TcpRun &r, Sock *l)
{
	for (size_t k = 0;; k++) {
		Sock *s = peer_accept(l);
		if (!s)
			return;
		absorb(k);
		int b = k < r.beh.size() ? r.beh[k] : B_SILENT;
		Bytes p = "c" + std::to_string(k) + "-data";
		r.conns.push_back(s);
		bool snd = b == B_SEND || b == B_SENDFIN || b == B_SENDRST || b == B_HALF;
		r.sent.push_back(snd ? p : "");
		r.fin.push_back(b == B_SENDFIN || b == B_FIN || b == B_HALF || b == B_ECHO);
		r.rst.push_back(b == B_SENDRST || b == B_RST);
		if (snd)
			peer_send(s, p);
		switch (b) {
		case B_SENDFIN:
		case B_FIN:
			peer_close(s);
			break;
		case B_SENDRST:
		case B_RST:
			peer_abort(s);
			break;
		case B_HALF:
			peer_shutdown_wr(s);
			break;
		case B_ECHO:
			if (!peer_recv_some(s).empty()) {
				r.sent[k] = "echo" + std::to_string(k);
				peer_send(s, r.sent[k]);
			}
			peer_close(s);
			break;
		}
	}
}

// Judges the client's view of one session's TCP messages.  `alive`: nothing but the script ended anything.
static void judge_tcp(const std::vector<Msg> &ms, TcpRun &r, const char *what)
{
	// statuses expected: one per open request, zero iff established
	std::vector<bool> est;
	size_t nconn = 0;
	for (auto &cr : tcp_connects())
		est.push_back(cr.result == 0);
	size_t nopen = 0;
	for (int o : r.ops)
		nopen += o == O_OPEN || o == O_OPENBAD;
	CHECK(est.size() == nopen, "tcp-connects", "%s: %zu connection attempts for %zu requests", what, est.size(), nopen);
	size_t k = 0; // statuses seen
	bool closed = false, dataseen = false;
	Bytes acc;
	size_t nclose = 0;
	// ops belonging to the interval after open k (k=0: before the first)
	auto interval_has = [&](size_t idx, int op) {
		size_t n = 0;
		for (int o : r.ops) {
			if (o == O_OPEN || o == O_OPENBAD)
				n++;
			else if (n == idx && o == op)
				return true;
		}
		return false;
	};
	auto end_interval = [&](bool last) {
		if (k == 0) {
			CHECK(acc.empty(), "tcp-stale", "%s: data before the first status: %s", what, show(ms).c_str());
			CHECK(nclose == 0 || interval_has(0, O_DATA), "tcp-stale", "%s: close before the first status: %s", what,
			      show(ms).c_str());
			return;
		}
		if (!est[k - 1]) {
			CHECK(acc.empty(), "tcp-stale", "%s: data without a connection: %s", what, show(ms).c_str());
			CHECK(nclose == 0 || interval_has(k, O_DATA), "tcp-stale", "%s: close without a connection: %s", what,
			      show(ms).c_str());
			return;
		}
		size_t ci = nconn++;
		Bytes sent = ci < r.sent.size() ? r.sent[ci] : "";
		CHECK(sent.compare(0, acc.size(), acc) == 0, "tcp-content", "%s: connection %zu sent '%s', delivered '%s'", what, ci,
		      show(sent).c_str(), show(acc).c_str());
		bool ended = !last || interval_has(k, O_CLOSE) || (ci < r.fin.size() && (r.fin[ci] || r.rst[ci]) &&
								    (r.beh[ci] != B_ECHO || interval_has(k, O_DATA)));
		CHECK(!ended || nclose > 0, "tcp-no-close", "%s: the end of connection %zu was not reported: %s", what, ci,
		      show(ms).c_str());
		CHECK(ended || nclose == 0, "tcp-early-close", "%s: close reported, but connection %zu did not end: %s", what, ci,
		      show(ms).c_str());
		// complete if the peer ended the stream and nobody else interfered
		if (last && ci < r.fin.size() && r.fin[ci] && !interval_has(k, O_CLOSE) && !interval_has(k, O_DATA))
			CHECK(acc == sent, "tcp-truncated", "%s: connection %zu sent '%s' and ended, delivered '%s'", what, ci,
			      show(sent).c_str(), show(acc).c_str());
		if (last && !ended)
			CHECK(acc == sent, "tcp-truncated", "%s: connection %zu sent '%s', delivered '%s'", what, ci,
			      show(sent).c_str(), show(acc).c_str());
	};
	for (auto &m : ms) {
		switch (m.type) {
		case T_TSTATUS: {
			end_interval(false);
			CHECK(m.data.size() == 4, "tcp-status", "%s: status of %zu bytes", what, m.data.size());
			CHECK(k < nopen, "tcp-status", "%s: more statuses than requests: %s", what, show(ms).c_str());
			bool zero = m.data == Bytes(4, 0);
			CHECK(zero == est[k], "tcp-status", "%s: status %s for a connection that was %sestablished", what,
			      show(m.data).c_str(), est[k] ? "" : "not ");
			k++;
			closed = dataseen = false;
			acc.clear();
			nclose = 0;
			break;
		}
		case T_TDATA:
			CHECK(!closed, "tcp-data-after-close", "%s: data after the close: %s", what, show(ms).c_str());
			CHECK(!m.data.empty(), "tcp-empty", "%s: empty data message", what);
			acc += m.data;
			break;
		case T_TCLOSE:
			CHECK(m.data.empty(), "tcp-close-data", "%s: close with %zu bytes", what, m.data.size());
			closed = true;
			nclose++;
			break;
		}
	}
	CHECK(k == nopen, "tcp-status", "%s: %zu statuses for %zu requests: %s", what, k, nopen, show(ms).c_str());
	end_interval(true);
	// replaced or closed connections are really closed
	for (size_t i = 0; i + 1 < r.conns.size(); i++)
		CHECK(peer_eof(r.conns[i]) || peer_reset_seen(r.conns[i]) || r.fin[i] || r.rst[i] || peer_pending(r.conns[i]),
		      "tcp-still-open", "%s: replaced connection %zu stays open", what, i);
}

// Script sequences against peer behaviours.
SCENARIO(tcp_life, 0)
{
	World w;
	Cfg c;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	TcpRun r;
	int maxlen = g_arg == 1 ? 4 : g_arg == 2 ? 2 : 3;
	int len = 1 + choose(maxlen, "length");
	int nopen = 0;
	for (int i = 0; i < len; i++) {
		int o = choose(O_NOPS, "op");
		r.ops.push_back(o);
		nopen += o == O_OPEN;
	}
	for (int i = 0; i < std::min(nopen, 2); i++)
		r.beh.push_back(choose(B_N, "peer"));
	int paced = choose(2, "pace"); // let each request be worked off first
	Fiber *lp = spawn("tcp-peer", FK_PEER, [&] { tcp_peer(r, l); });
	Bytes what = "ops";
	for (int o : r.ops)
		what += Bytes(" ") + (o == O_OPEN ? "open" : o == O_OPENBAD ? "open-refused" : o == O_DATA ? "data" : "close");
	what += " peers";
	for (int b : r.beh)
		what += " " + std::to_string(b);
	g_focus = g_arg != 1;
	for (int o : r.ops) {
		if (paced)
			quiesce();
		Bytes m = o == O_OPEN	 ? mkmsg(T_OPEN, "198.51.100.9", "") :
			  o == O_OPENBAD ? mkmsg(T_OPEN, "198.51.100.10", "") :
			  o == O_DATA	 ? mkmsg(T_TDATA, nullptr, "client-data") :
					   mkmsg(T_TCLOSE, nullptr, "");
		a.send(m);
	}
	quiesce();
	g_focus = false;
	a.drain();
	CHECK(a.rx.empty(), "framing", "incomplete message");
	CHECK(slot_bound(0) && !peer_eof(a.s), "dropped", "%s: the session ended", what.c_str());
	judge_tcp(a.msgs, r, what.c_str());
	Bytes ord;
	for (auto &m : a.msgs)
		ord += (char)('0' + m.type);
	count_case(hash_str(what.c_str()) + paced);
	outcome("%s", ord.c_str());
	a.close();
	quiesce();
	for (size_t i = 0; i < r.conns.size(); i++)
		CHECK(peer_eof(r.conns[i]) || peer_reset_seen(r.conns[i]) || peer_pending(r.conns[i]) || r.rst[i] || r.fin[i],
		      "tcp-still-open", "%s: connection %zu stays open after the session", what.c_str(), i);
	CHECK(sut_open().tcp_conn == 0, "tcp-still-open", "%s: sockets remain after the session: %s", what.c_str(),
	      describe_live_socks().c_str());
	peer_close(l);
	join_fiber(lp);
	w.down();
}

// Requests for unusual destinations while a connection exists or not, then an ordinary one again.
SCENARIO(tcp_addr, 0)
{
	World w;
	Cfg c;
	w.up(c);
	g_focus = false;
	static const char *AD[] = { "0.0.0.0", "255.255.255.255", "127.0.0.1", "224.0.0.1", "0.0.0.1", "198.51.100.9", "198.51.100.0", "10.0.0.1" };
	const char *odd = AD[choose(8, "address")];
	int before = choose(3, "before"); // nothing, a connection, a connection which the peer has ended
	int mode = choose(4, "answer");	  // listening, refused, unreachable, resets at once
	bool same = !strcmp(odd, "198.51.100.9");
	Sock *l = peer_listen("198.51.100.9", 5200);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	Sock *t = nullptr;
	size_t n = 0;
	auto expect = [&](std::vector<int> types, const char *when, Bytes data = "") {
		quiesce();
		a.drain();
		std::vector<int> got;
		for (; n < a.msgs.size(); n++)
			got.push_back(a.msgs[n].type);
		CHECK(got == types && a.rx.empty(), "tcp-report", "%s, to %s: the client received %s", when, odd, show(a.msgs).c_str());
		if (!data.empty())
			CHECK(a.msgs.back().data == data, "tcp-content", "%s: the client received %s", when, show(a.msgs).c_str());
	};
	if (before) {
		a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
		t = peer_accept(l);
		expect({ T_TSTATUS }, "first request");
		if (before == 2) {
			peer_close(t);
			expect({ T_TCLOSE }, "end of the first connection");
		}
	}
	Sock *l2 = same ? l : nullptr;
	if (!same) {
		if (mode == 0 || mode == 3)
			l2 = peer_listen(odd, 5200);
		else
			peer_mode(odd, 5200, mode == 1 ? CM_REFUSE : CM_UNREACH);
	}
	bool ok = l2 != nullptr;
	size_t c0 = tcp_connects().size();
	a.send(mkmsg(T_OPEN, odd, ""));
	std::vector<int> exp;
	if (before == 1)
		exp.push_back(T_TCLOSE);
	exp.push_back(T_TSTATUS);
	expect(exp, "second request");
	CHECK(tcp_connects().size() == c0 + 1 && tcp_connects()[c0].to == ip(odd), "tcp-connects", "to %s: wrong connection attempts", odd);
	CHECK((a.msgs.back().data == Bytes(4, 0)) == ok, "tcp-status", "to %s: status %s", odd, show(a.msgs.back().data).c_str());
	if (before == 1)
		CHECK(peer_eof(t) || peer_reset_seen(t), "tcp-still-open", "the replaced connection stays open (new: %s)", odd);
	CHECK(sut_open().tcp_conn == 1 + (int)ok, "tcp-still-open", "to %s: sockets: %s", odd, describe_live_socks().c_str());
	Sock *t2 = nullptr;
	if (ok) {
		t2 = peer_accept(l2);
		if (mode == 3) {
			peer_abort(t2);
			expect({ T_TCLOSE }, "reset of the second connection");
			t2 = nullptr;
		} else {
			peer_send(t2, "hello");
			expect({ T_TDATA }, "data of the second connection", "hello");
		}
	}
	a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
	exp.clear();
	if (t2)
		exp.push_back(T_TCLOSE);
	exp.push_back(T_TSTATUS);
	expect(exp, "third request");
	Sock *t3 = peer_accept(l);
	a.send(mkmsg(T_TDATA, nullptr, "ping"));
	quiesce();
	CHECK(peer_drain(t3) == "ping", "c2n-tcp", "data did not reach the third connection");
	count_case(mix(ip(odd), before * 4 + mode));
	outcome("%d %d", ok, before);
	a.close();
	quiesce();
	CHECK(sut_open().tcp_conn == 0, "tcp-still-open", "sockets remain after the session: %s", describe_live_socks().c_str());
	w.down();
}

// Histories of requests and network events on one or two sessions, compared with a model after every step.
enum HOp {
	H_OPEN, H_OPENBAD, H_CLOSE, H_TDATA, H_TBIG, H_UDATA, H_UBIG, H_UCTRL, H_NDATA, H_NCTRL, H_PSEND, H_PFIN, H_PRST, H_TZERO,
	H_NEMPTY, H_OPEN2, H_N
};
static const char *hop_name[] = { "open", "open-refused", "close", "tcp-data", "tcp-data-6000", "udp-data", "udp-data-4097", "udp-control",
				  "datagram", "control-datagram", "peer-sends", "peer-closes", "peer-resets", "tcp-data-0",
				  "empty-datagram", "open-other" };

SCENARIO(relay_hist, 0)
{
	World w;
	Cfg c;
	int ncl = g_arg >= 10 ? 2 : 1;
	int depth = g_arg % 10;
	c.slots = ncl;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200), *l2 = peer_listen("198.51.100.11", 5200);
	std::vector<Client> cl;
	for (int i = 0; i < ncl; i++)
		cl.emplace_back(w, i ? "203.0.113.6" : "203.0.113.5", 50001 + i);
	for (int i = 0; i < ncl; i++)
		CHECK(admit(cl[i], i ? "K1AA" : "W1AW") == i, "setup", "not admitted");
	struct Model {
		Sock *t = nullptr;
		Bytes in; // the peer has received
	} md[2];
	static const int two[] = { H_OPEN, H_OPENBAD, H_CLOSE, H_TBIG, H_UDATA, H_NDATA, H_PSEND, H_PFIN, H_PRST, H_NCTRL };
	int cut = choose(2, "segmentation");
	Bytes what = cut ? "[header apart]" : "[whole]";
	size_t conns = 0;
	for (int step = 0; step < depth; step++) {
		int who = ncl == 2 ? choose(2, "session") : 0;
		Client &a = cl[who];
		Model &m = md[who];
		std::vector<int> can;
		for (int i = 0; i < (ncl == 2 ? (int)(sizeof two / sizeof *two) : (int)H_N); i++) {
			int o = ncl == 2 ? two[i] : i;
			if (m.t || (o != H_PSEND && o != H_PFIN && o != H_PRST))
				can.push_back(o);
		}
		int op = can[choose((int)can.size(), "op")];
		what += Bytes(" ") + (ncl == 2 ? (who ? "B:" : "A:") : "") + hop_name[op];
		size_t u0 = udp_sent().size();
		std::vector<Msg> exp;
		bool maybe_close = false;
		Bytes msg;
		std::vector<Out> out;
		auto want = [&](u8 type, u32 addr, const Bytes &d) { exp.push_back(Msg{ type, addr, d, (u32)d.size() }); };
		auto ended = [&] {
			if (m.t)
				want(T_TCLOSE, 0, "");
		};
		Bytes p;
		Sock *old = m.t;
		switch (op) {
		case H_OPEN:
		case H_OPEN2:
			msg = mkmsg(T_OPEN, op == H_OPEN ? "198.51.100.9" : "198.51.100.11", "");
			ended();
			want(T_TSTATUS, 0, Bytes(4, 0));
			m.t = nullptr;
			break;
		case H_OPENBAD:
			msg = mkmsg(T_OPEN, "198.51.100.10", "");
			ended();
			want(T_TSTATUS, 0, "bad!");
			m.t = nullptr;
			break;
		case H_CLOSE:
			msg = mkmsg(T_TCLOSE, nullptr, "");
			ended();
			maybe_close = !m.t;
			m.t = nullptr;
			break;
		case H_TDATA:
		case H_TBIG:
		case H_TZERO:
			p = pattern(step + 7 * who + 1, op == H_TDATA ? 5 : op == H_TZERO ? 0 : 6000);
			msg = mkmsg(T_TDATA, nullptr, p);
			maybe_close = !m.t;
			break;
		case H_UDATA:
		case H_UBIG:
		case H_UCTRL:
			p = pattern(step + 7 * who + 1, op == H_UBIG ? 4097 : 6);
			msg = mkmsg(op == H_UCTRL ? T_UCTRL : T_UDATA, ADDRS[step % 4], p);
			out.push_back(Out{ (u8)(op == H_UCTRL ? T_UCTRL : T_UDATA), ADDRS[step % 4], p });
			break;
		case H_NDATA:
		case H_NCTRL:
		case H_NEMPTY:
			p = op == H_NEMPTY ? "" : pattern(step + 7 * who + 1, 11);
			peer_sendto(ADDRS[(step + 1) % 4], 5198, ip(EXT[who]), op == H_NCTRL ? 5199 : 5198, p);
			if (op != H_NEMPTY)
				want(op == H_NCTRL ? T_UCTRL : T_UDATA, ip(ADDRS[(step + 1) % 4]), p);
			break;
		case H_PSEND:
			p = pattern(step + 7 * who + 1, 13);
			peer_send(m.t, p);
			want(T_TDATA, 0, p);
			break;
		case H_PFIN:
			peer_close(m.t);
			ended();
			m.t = nullptr;
			break;
		case H_PRST:
			peer_abort(m.t);
			ended();
			m.t = nullptr;
			break;
		}
		if (!msg.empty()) {
			if (cut && msg.size() > 9) {
				a.send(msg.substr(0, 9));
				quiesce();
				a.send(msg.substr(9));
			} else
				a.send(msg);
		}
		quiesce();
		if (op == H_OPEN || op == H_OPEN2 || op == H_OPENBAD) {
			auto &tc = tcp_connects();
			CHECK(tc.size() == ++conns, "tcp-connects", "%s: %zu connection attempts", what.c_str(), tc.size());
			CHECK(tc.back().from == ip(EXT[who]) && tc.back().port == 5200 &&
				      tc.back().to == ip(op == H_OPEN ? "198.51.100.9" : op == H_OPEN2 ? "198.51.100.11" : "198.51.100.10"),
			      "c2n-tcp-addr", "%s: TCP connection from %s to %s", what.c_str(), ipstr(tc.back().from).c_str(),
			      ipstr(tc.back().to).c_str());
			if (op != H_OPENBAD) {
				m.t = peer_accept(op == H_OPEN ? l : l2);
				CHECK(sock_raddr(m.t) == ip(EXT[who]), "c2n-tcp-addr", "%s: from %s", what.c_str(), ipstr(sock_raddr(m.t)).c_str());
			}
		}
		if (old && old != m.t && op != H_PFIN && op != H_PRST)
			CHECK(peer_eof(old) || peer_reset_seen(old), "tcp-still-open", "%s: the old connection stays open", what.c_str());
		if ((op == H_TDATA || op == H_TBIG || op == H_TZERO) && m.t) {
			Bytes got = peer_drain(m.t);
			CHECK(got == p, "c2n-tcp", "%s: the remote host received %zu bytes instead of %zu, or other content", what.c_str(),
			      got.size(), p.size());
		}
		// what left as datagrams
		{
			std::vector<Dgram> now(udp_sent().begin() + u0, udp_sent().end());
			Bytes got;
			for (auto &d : now) {
				u16 port = op == H_UCTRL ? 5199 : 5198;
				CHECK(out.size() && d.saddr == ip(EXT[who]) && d.sport == port && d.daddr == ip(out[0].to) && d.dport == port,
				      "c2n-dest", "%s: datagram from %s:%u to %s:%u", what.c_str(), ipstr(d.saddr).c_str(), d.sport,
				      ipstr(d.daddr).c_str(), d.dport);
				got += d.data;
			}
			CHECK(got == (out.size() ? out[0].data : ""), "c2n-content", "%s: %zu bytes left instead of %zu, or other content",
			      what.c_str(), got.size(), out.size() ? out[0].data.size() : 0);
		}
		// what every client received
		for (int i = 0; i < ncl; i++) {
			Client &x = cl[i];
			x.drain();
			CHECK(x.rx.empty(), "framing", "%s: incomplete message", what.c_str());
			CHECK(slot_bound(i) && !peer_eof(x.s), "dropped", "%s: session %d ended", what.c_str(), i);
			if (i != who) {
				CHECK(x.msgs.empty(), "isolation", "%s: the other session's client received %s", what.c_str(), show(x.msgs).c_str());
				continue;
			}
			size_t k = 0;
			Bytes td;
			for (auto &g : x.msgs) {
				if (g.type == T_TDATA && k < exp.size() && exp[k].type == T_TDATA) {
					td += g.data;
					if (td.size() >= exp[k].data.size()) {
						CHECK(td == exp[k].data, "n2c-tcp", "%s: TCP bytes %s", what.c_str(), show(td).c_str());
						k++;
					}
					continue;
				}
				if (k == exp.size() && maybe_close && g.type == T_TCLOSE)
					continue;
				CHECK(k < exp.size() && g.type == exp[k].type, "hist-order", "%s: the client received %s, expected %s", what.c_str(),
				      show(x.msgs).c_str(), show(exp).c_str());
				if (g.type == T_TSTATUS)
					CHECK(g.data.size() == 4 && (g.data == Bytes(4, 0)) == (exp[k].data == Bytes(4, 0)), "tcp-status", "%s: status %s",
					      what.c_str(), show(g.data).c_str());
				else
					CHECK(g.data == exp[k].data, "n2c-content", "%s: the client received %s, expected %s", what.c_str(),
					      show(x.msgs).c_str(), show(exp).c_str());
				if (g.type == T_UDATA || g.type == T_UCTRL)
					CHECK(g.addr == exp[k].addr, "n2c-addr", "%s: sender %s", what.c_str(), ipstr(g.addr).c_str());
				k++;
			}
			CHECK(k == exp.size(), "hist-missing", "%s: the client received %s, expected %s", what.c_str(), show(x.msgs).c_str(),
			      show(exp).c_str());
			x.msgs.clear();
		}
	}
	count_case(hash_str(what.c_str()));
	outcome("%zu %d", conns, md[0].t != nullptr);
	for (auto &x : cl)
		x.close();
	quiesce();
	for (int i = 0; i < ncl; i++)
		CHECK(!md[i].t || peer_eof(md[i].t) || peer_reset_seen(md[i].t), "tcp-still-open", "%s: the connection stays open after the session",
		      what.c_str());
	w.down();
}

// Opens which fail in every way, at every call they make; the same for datagrams.  One request at a time.
SCENARIO(relay_fail, F_CONNECT | F_SOCK | F_SENDTO)
{
	World w;
	Cfg c;
	u32 keep = g_faults;
	g_faults = 0;
	w.up(c);
	g_focus = false;
	Sock *l = peer_listen("198.51.100.9", 5200);
	peer_mode("198.51.100.20", 5200, CM_UNREACH);
	peer_mode("198.51.100.21", 5200, CM_BLACKHOLE);
	Client a(w);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	enum { E_OPEN, E_REFUSED, E_UNREACH, E_HOLE, E_TDATA, E_CLOSE, E_UDATA, E_UCTRL, E_UBIG, E_N };
	static const char *nm[] = { "open", "open-refused", "open-unreachable", "open-unanswered", "tcp-data", "close", "udp-data", "udp-control",
				    "udp-data-9000" };
	static const char *to[] = { "198.51.100.9", "198.51.100.10", "198.51.100.20", "198.51.100.21" };
	int n = g_arg ? g_arg : 3;
	Sock *t = nullptr;
	size_t accepted = 0;
	Bytes what;
	g_faults = keep;
	for (int i = 0; i < n; i++) {
		int op = choose(E_N, "op");
		what += Bytes(" ") + nm[op];
		size_t u0 = udp_sent().size();
		int f0 = faults_taken();
		Bytes p = pattern(i + 1, op == E_UBIG ? 9000 : 7);
		bool open = op <= E_HOLE;
		a.send(open ? mkmsg(T_OPEN, to[op], "") :
		       op == E_TDATA ? mkmsg(T_TDATA, nullptr, p) :
		       op == E_CLOSE ? mkmsg(T_TCLOSE, nullptr, "") :
				       mkmsg(op == E_UCTRL ? T_UCTRL : T_UDATA, "198.51.100.7", p));
		if (op == E_HOLE)
			while (a.more() && a.msgs.back().type != T_TSTATUS)
				; // takes minutes
		quiesce();
		int f = faults_taken() - f0;
		what += Bytes(f, '!');
		CHECK(slot_bound(0) && !peer_eof(a.s), "dropped", "%s: the session ended", what.c_str());
		a.drain();
		CHECK(a.rx.empty(), "framing", "%s: incomplete message", what.c_str());
		if (open) {
			size_t k = 0;
			if (t) {
				CHECK(k < a.msgs.size() && a.msgs[k].type == T_TCLOSE, "tcp-no-close", "%s: the client received %s", what.c_str(),
				      show(a.msgs).c_str());
				k++;
				CHECK(peer_eof(t) || peer_reset_seen(t), "tcp-still-open", "%s: the old connection stays open", what.c_str());
				t = nullptr;
			}
			CHECK(k + 1 == a.msgs.size() && a.msgs[k].type == T_TSTATUS && a.msgs[k].data.size() == 4, "tcp-status",
			      "%s: the client received %s", what.c_str(), show(a.msgs).c_str());
			bool zero = a.msgs[k].data == Bytes(4, 0);
			bool have = peer_acceptable(l);
			if (have) {
				Sock *s = peer_accept(l);
				accepted++;
				if (!peer_eof(s) && !peer_reset_seen(s))
					t = s;
			}
			CHECK(op == E_OPEN || !have, "tcp-connects", "%s: connected to somebody else", what.c_str());
			CHECK(zero == (t != nullptr), "tcp-status", "%s: status %s although the connection was %sestablished", what.c_str(),
			      show(a.msgs[k].data).c_str(), t ? "" : "not ");
			CHECK(t || op != E_OPEN || f, "tcp-status", "%s: no connection although nothing failed", what.c_str());
			CHECK(sut_open().tcp_conn == 1 + (t != nullptr), "tcp-still-open", "%s: sockets: %s", what.c_str(),
			      describe_live_socks().c_str());
		} else if (op == E_CLOSE || op == E_TDATA) {
			if (t && op == E_CLOSE) {
				CHECK(a.msgs.size() == 1 && a.msgs[0].type == T_TCLOSE, "tcp-no-close", "%s: the client received %s", what.c_str(),
				      show(a.msgs).c_str());
				CHECK(peer_eof(t) || peer_reset_seen(t), "tcp-still-open", "%s: the connection stays open", what.c_str());
				t = nullptr;
			} else if (t) {
				CHECK(peer_drain(t) == p, "c2n-tcp", "%s: TCP payload", what.c_str());
				CHECK(a.msgs.empty(), "tcp-stale", "%s: the client received %s", what.c_str(), show(a.msgs).c_str());
			}
			for (auto &m : a.msgs)
				CHECK(m.type == T_TCLOSE, "tcp-stale", "%s: the client received %s", what.c_str(), show(a.msgs).c_str());
		} else {
			CHECK(a.msgs.empty(), "unexpected", "%s: the client received %s", what.c_str(), show(a.msgs).c_str());
			// a refused datagram is lost as a whole; the others are not affected
			Bytes got;
			u16 port = op == E_UCTRL ? 5199 : 5198;
			for (size_t k = u0; k < udp_sent().size(); k++) {
				auto &d = udp_sent()[k];
				CHECK(d.saddr == ip(EXT[0]) && d.sport == port && d.daddr == ip("198.51.100.7") && d.dport == port, "c2n-dest",
				      "%s: datagram from port %u to %s:%u", what.c_str(), d.sport, ipstr(d.daddr).c_str(), d.dport);
				got += d.data;
			}
			if (!f)
				CHECK(got == p, "c2n-content", "%s: %zu bytes left instead of %zu, or other content", what.c_str(), got.size(),
				      p.size());
			else {
				size_t n0 = op == E_UBIG ? 3 : 1, at = 0;
				CHECK(udp_sent().size() - u0 == n0 - f, "c2n-lost", "%s: %zu datagrams left", what.c_str(), udp_sent().size() - u0);
				for (size_t k = u0; k < udp_sent().size(); k++) {
					at = p.find(udp_sent()[k].data, at);
					CHECK(at != Bytes::npos && at % 4096 == 0, "c2n-content", "%s: other content", what.c_str());
					at += udp_sent()[k].data.size();
				}
			}
		}
		a.msgs.clear();
	}
	g_faults = 0;
	count_case(hash_str(what.c_str()));
	outcome("%s", what.c_str());
	a.close();
	quiesce();
	CHECK(!t || peer_eof(t) || peer_reset_seen(t), "tcp-still-open", "%s: the connection stays open after the session", what.c_str());
	CHECK(sut_open().tcp_conn == 0, "tcp-still-open", "%s: sockets remain after the session: %s", what.c_str(), describe_live_socks().c_str());
	must_serve(w, what.c_str());
	w.down();
}

// Nothing happens for a long time, at any point of a session; then it goes on as if no time had passed.
SCENARIO(idle_long, 0)
{
	static const int SECS[] = { 31, 11 * 60, 65 * 60, 25 * 3600 };
	int secs = SECS[choose(4, "seconds")];
	int tcp = choose(3, "TCP connection"); // none, open, stalled (the remote host does not read)
	int part = choose(5, "in the middle of"); // nothing, a header, UDP data, UDP data of two datagrams, TCP data
	bool other = choose(2, "another client");
	bool stopping = choose(2, "shut down");
	if (tcp == 0 && part == 4)
		part = 0;
	g_focus = false;
	World w;
	Cfg c;
	c.slots = 2;
	w.up(c);
	Sock *l = peer_listen("198.51.100.9", 5200), *t = nullptr;
	Client a(w), b(w, "203.0.113.6", 50002);
	CHECK(admit(a, "W1AW") == 0, "setup", "not admitted");
	if (other)
		CHECK(admit(b, "K2ABC") == 1, "setup", "not admitted");
	auto got = [&](Client &k, std::vector<Msg> want, const char *what) {
		quiesce();
		k.drain();
		bool same = k.msgs.size() == want.size() && k.rx.empty();
		for (size_t j = 0; same && j < want.size(); j++)
			same = k.msgs[j].type == want[j].type && k.msgs[j].data == want[j].data;
		CHECK(same, "relay", "%s after %d s: the client received %s", what, secs, show(k.msgs).c_str());
		k.msgs.clear();
	};
	Bytes toserver;
	if (tcp) {
		a.send(mkmsg(T_OPEN, "198.51.100.9", ""));
		t = peer_accept(l);
		got(a, { Msg{ T_TSTATUS, 0, Bytes(4, 0) } }, "open");
		peer_send(t, "hello");
		a.send(mkmsg(T_TDATA, nullptr, "hallo"));
		got(a, { Msg{ T_TDATA, 0, "hello" } }, "TCP data");
		toserver = "hallo";
	}
	if (tcp == 2) {
		// more than the remote host takes
		Bytes big(4000, 't');
		NC.capacity = 3000;
		a.send(mkmsg(T_TDATA, nullptr, big));
		quiesce();
		toserver += big;
		if (part)
			part = 0; // the proxy is waiting for the remote host
	}
	if (stopping)
		w.shutdown();
	Bytes pay = part == 3 ? pattern(1, 6000) : pattern(1, 300);
	Bytes m = part ? mkmsg(part == 4 ? T_TDATA : T_UDATA, "198.51.100.7", pay) : Bytes();
	size_t cut = part == 0 ? 0 : part == 1 ? 5 : part == 3 ? 9 + 4096 + 7 : 9 + 100;
	size_t n0 = udp_sent().size();
	if (part)
		a.send(m.substr(0, cut));
	quiesce();
	vsleep((u64)secs * 1000000000ull);
	quiesce();
	CHECK(slot_bound(0) && !peer_eof(a.s), "dropped", "the session was ended within %d idle seconds", secs);
	CHECK(!t || !peer_eof(t), "tcp", "the TCP connection was ended within %d idle seconds", secs);
	// the way in
	peer_sendto("198.51.100.8", 5198, ip(EXT[0]), 5198, "data");
	quiesce();
	peer_sendto("198.51.100.8", 5199, ip(EXT[0]), 5199, "control");
	quiesce();
	if (t)
		peer_send(t, "more");
	got(a, t ? std::vector<Msg>{ Msg{ T_UDATA, 0, "data" }, Msg{ T_UCTRL, 0, "control" }, Msg{ T_TDATA, 0, "more" } }
		 : std::vector<Msg>{ Msg{ T_UDATA, 0, "data" }, Msg{ T_UCTRL, 0, "control" } }, "traffic");
	// the way out
	if (part) {
		a.send(m.substr(cut));
		quiesce();
		if (part == 4)
			toserver += pay;
	}
	if (tcp == 2) {
		NC.capacity = 1u << 20;
		Bytes x;
		for (int i = 0; i < 100 && x.size() < toserver.size(); i++) {
			x += peer_drain(t);
			quiesce();
		}
		x += peer_drain(t);
		CHECK(x == toserver, "relay", "%zu of %zu bytes reached the remote host", x.size(), toserver.size());
		toserver.clear();
	}
	a.send(mkmsg(T_UCTRL, "198.51.100.7", "after"));
	quiesce();
	Bytes all;
	for (size_t j = n0; j + 1 < udp_sent().size(); j++)
		all += udp_sent()[j].data;
	CHECK(udp_sent().size() > n0 && udp_sent().back().data == "after" && all == (part && part != 4 ? pay : Bytes()), "relay",
	      "after %d idle seconds: %zu bytes of UDP data were sent", secs, all.size());
	if (t) {
		a.send(mkmsg(T_TDATA, nullptr, "end"));
		toserver += "end";
		quiesce();
		CHECK(peer_drain(t) == toserver, "relay", "TCP data is not relayed after %d idle seconds", secs);
		peer_close(t);
		got(a, { Msg{ T_TCLOSE, 0, "" } }, "the remote host ending");
	}
	if (other) {
		CHECK(slot_bound(1) && !peer_eof(b.s), "dropped", "the other session was ended");
		peer_sendto("198.51.100.8", 5198, ip(EXT[1]), 5198, "other");
		got(b, { Msg{ T_UDATA, 0, "other" } }, "traffic of the other session");
	}
	a.close();
	if (other)
		b.close();
	quiesce();
	CHECK(slots_bound(2) == 0, "not-released", "ports remain bound");
	w.down();
	outcome("%d %d %d", secs, tcp, part);
}
