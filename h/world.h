// A complete proxy under the controlled scheduler, plus scripted parties.
#pragma once
#include "ref.h"
#include "sim.h"
#include <arpa/inet.h>
extern "C" {
#include "openelp/openelp.h"
}

using namespace mc;
using ref::hex;
using ref::pw_response;

static const Bytes BADPW("\x07\x00\x00\x00\x00\x01\x00\x00\x00\x01", 10);
static const Bytes BADAUTH("\x07\x00\x00\x00\x00\x01\x00\x00\x00\x02", 10);

enum { T_OPEN = 1, T_TDATA, T_TCLOSE, T_TSTATUS, T_UDATA, T_UCTRL };

struct Msg {
	u8 type;
	u32 addr; // network order
	Bytes data;
	u32 size;
};

static inline Bytes le32(u32 v)
{
	Bytes r;
	for (int i = 0; i < 4; i++)
		r.push_back((char)(v >> (8 * i)));
	return r;
}
static inline Bytes mkmsg(u8 type, const char *addr, const Bytes &d, long claimed = -1)
{
	Bytes r(1, (char)type);
	u32 a = addr ? ip(addr) : 0;
	r.append((const char *)&a, 4);
	r += le32(claimed >= 0 ? (u32)claimed : (u32)d.size());
	return r + d;
}

static const char *EXT[] = { "10.0.0.1", "10.0.0.2", "10.0.0.3" };

struct Cfg {
	int slots = 1;
	Bytes password = "PUBLIC";
	bool has_pw = true;
	Bytes allowed, denied;
	Bytes regname, regcomment, pubaddr;
	Bytes bind;
	int port = 8100;
	bool ext_wild = false; // no external address configured (one slot)
	Bytes extra;
	Bytes text() const
	{
		Bytes t;
		if (has_pw)
			t += "Password=" + password + "\n";
		t += "Port=" + std::to_string(port) + "\n";
		if (!bind.empty())
			t += "BindAddress=" + bind + "\n";
		if (!ext_wild) {
			t += Bytes("ExternalBindAddress=") + EXT[0] + "\n";
			if (slots > 1) {
				t += Bytes("AdditionalExternalBindAddresses=") + EXT[1];
				for (int i = 2; i < slots; i++)
					t += Bytes(",") + EXT[i];
				t += "\n";
			}
		}
		if (!allowed.empty())
			t += "CallsignsAllowed=" + allowed + "\n";
		if (!denied.empty())
			t += "CallsignsDenied=" + denied + "\n";
		if (!regname.empty())
			t += "RegistrationName=" + regname + "\n";
		if (!regcomment.empty())
			t += "RegistrationComment=" + regcomment + "\n";
		if (!pubaddr.empty())
			t += "PublicAddress=" + pubaddr + "\n";
		return t + extra;
	}
};

// Runs the proxy the way openelpd's main() does.
struct World {
	proxy_handle ph;
	Cfg cfg;
	Fiber *loop = nullptr;
	bool loop_done = false;
	bool started = false;
	std::vector<int> rets; // what proxy_process returned
	int retry = 0; // how many failures of proxy_process to tolerate
	bool logging = false; // everything is logged to a file

	World() { memset(&ph, 0, sizeof ph); }

	void init(const Cfg &c)
	{
		cfg = c;
		SS->files["/elp.conf"] = c.text();
		int r = proxy_init(&ph);
		CHECK(r >= 0, "setup", "proxy_init failed (%d)", r);
		r = logging ? proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, "/log") : proxy_log_select_medium(&ph, LOG_MEDIUM_NONE, nullptr);
		CHECK(r >= 0, "setup", "selecting the log failed (%d)", r);
		if (logging)
			proxy_log_level(&ph, LOG_LEVEL_DEBUG);
		r = proxy_load_conf(&ph, "/elp.conf");
		CHECK(r >= 0, "setup", "proxy_load_conf failed (%d)", r);
	}
	void open()
	{
		int r = proxy_open(&ph);
		CHECK(r >= 0, "setup", "proxy_open failed (%d)", r);
	}
	void start()
	{
		int r = proxy_start(&ph);
		CHECK(r >= 0, "setup", "proxy_start failed (%d)", r);
		started = true;
	}
	void run_loop()
	{
		loop_done = false;
		loop = spawn("mainloop", FK_SUT, [this] {
			int left = retry;
			for (;;) {
				int r = proxy_process(&ph);
				rets.push_back(r);
				if (r < 0 && left-- <= 0)
					break;
			}
			loop_done = true;
		});
	}
	// everything up to the point where clients are accepted
	void up(const Cfg &c)
	{
		bool f = g_focus;
		g_focus = false;
		init(c);
		open();
		start();
		run_loop();
		quiesce();
		g_focus = f;
	}
	void shutdown() { proxy_shutdown(&ph); }
	// stop accepting, close, and check that nothing is left behind
	void down(bool check = true)
	{
		proxy_shutdown(&ph);
		if (loop) {
			join_fiber(loop);
			loop = nullptr;
		}
		proxy_close(&ph);
		if (check)
			CHECK(live_socks() == 0, "leak-socket", "descriptors open after proxy_close: %s",
			      describe_live_socks().c_str());
		proxy_free(&ph);
		if (check)
			check_no_leaks("leak");
	}
};

// A scripted client.  All its operations run on the calling fiber.
struct Client {
	Sock *s = nullptr;
	Bytes from = "203.0.113.5";
	u16 fport = 50001;
	Bytes nonce;
	Bytes rx; // undecoded
	std::vector<Msg> msgs;
	bool eof = false;
	World *w;

	Client(World &ww, const char *f = "203.0.113.5", u16 p = 50001) : from(f), fport(p), w(&ww) {}

	bool connect(const char *to = "127.0.0.1")
	{
		s = peer_connect(from.c_str(), fport, to, w->cfg.port);
		return s != nullptr;
	}
	bool get_nonce()
	{
		nonce = peer_recv(s, 8);
		return nonce.size() == 8;
	}
	Bytes response(const Bytes &pw) const { return pw_response(pw, nonce); }
	// true if the nonce arrived and the credentials were sent
	bool login(const Bytes &call, const Bytes *pw = nullptr)
	{
		if (!s && !connect())
			return false;
		if (!get_nonce())
			return false;
		return peer_send(s, call + "\n" + response(pw ? *pw : w->cfg.password)) == 0;
	}
	int send(const Bytes &b) { return peer_send(s, b); }
	// decode whatever is complete in rx
	void decode()
	{
		while (rx.size() >= 9) {
			u32 n;
			memcpy(&n, rx.data() + 5, 4);
			CHECK(n <= 4096 - 9, "framing", "message to the client declares %u bytes (type %u)", n, (u8)rx[0]);
			if (rx.size() < 9 + (size_t)n)
				break;
			Msg m;
			m.type = rx[0];
			memcpy(&m.addr, rx.data() + 1, 4);
			m.size = n;
			m.data = rx.substr(9, n);
			rx.erase(0, 9 + n);
			msgs.push_back(m);
		}
	}
	// block until one more message is complete; false at EOF
	bool more()
	{
		size_t k = msgs.size();
		while (msgs.size() == k) {
			Bytes b = peer_recv_some(s);
			if (b.empty()) {
				eof = true;
				return false;
			}
			rx += b;
			decode();
		}
		return true;
	}
	// harness-side: take everything delivered so far, without waiting
	void drain()
	{
		rx += peer_drain(s);
		decode();
	}
	void close() { peer_close(s); }
};

static inline bool slot_bound(int i) { return udp_bound_count(ip(EXT[i]), 5198) == 1 && udp_bound_count(ip(EXT[i]), 5199) == 1; }
static inline int slots_bound(int n)
{
	int k = 0;
	for (int i = 0; i < n; i++)
		k += slot_bound(i);
	return k;
}
// Log in on the calling fiber and wait until the proxy is idle; -1 if not admitted, else the slot.
static inline int admit(Client &c, const Bytes &call)
{
	bool before[3];
	for (int i = 0; i < 3; i++)
		before[i] = slot_bound(i);
	if (!c.login(call))
		return -1;
	quiesce();
	for (int i = 0; i < 3; i++)
		if (slot_bound(i) && !before[i])
			return i;
	return -1;
}
// The proxy serves a new client: it is admitted and traffic is relayed both ways.
static inline void must_serve(World &w, const char *when, const char *from = "203.0.113.99", const Bytes &call = "N0CALL")
{
	Client g(w, from, 59999);
	CHECK(g.connect(), "not-served", "%s: a new client cannot connect", when);
	CHECK(g.get_nonce(), "not-served", "%s: a new client gets no nonce", when);
	bool before[3];
	for (int i = 0; i < 3; i++)
		before[i] = slot_bound(i);
	g.send(call + "\n" + g.response(w.cfg.password));
	quiesce();
	int k = -1;
	for (int i = 0; i < 3; i++)
		if (slot_bound(i) && !before[i])
			k = i;
	if (w.cfg.ext_wild)
		k = udp_bound_count(0, 5198) == 1 ? 0 : -1;
	CHECK(k >= 0, "not-served", "%s: a new client with the right password is not admitted", when);
	u32 at = w.cfg.ext_wild ? ip("127.0.0.1") : ip(EXT[k]);
	size_t n0 = udp_sent().size();
	g.send(mkmsg(T_UDATA, "198.51.100.77", "ping!"));
	quiesce();
	CHECK(udp_sent().size() == n0 + 1 && udp_sent()[n0].data == "ping!", "not-served",
	      "%s: a new client's data is not relayed", when);
	peer_sendto("198.51.100.77", 5199, at, 5199, "pong");
	quiesce();
	g.drain();
	CHECK(g.msgs.size() == 1 && g.msgs[0].type == T_UCTRL && g.msgs[0].data == "pong", "not-served",
	      "%s: network traffic is not relayed to a new client", when);
	g.close();
	quiesce();
}

static inline Bytes show(const Bytes &b)
{
	Bytes r;
	for (unsigned char c : b.substr(0, 48)) {
		char t[8];
		if (c >= 33 && c < 127)
			snprintf(t, sizeof t, "%c", c);
		else
			snprintf(t, sizeof t, "\\x%02x", c);
		r += t;
	}
	if (b.size() > 48)
		r += "...(" + std::to_string(b.size()) + ")";
	return r;
}
static inline Bytes show(const std::vector<Msg> &v)
{
	Bytes r;
	for (auto &m : v) {
		r += (r.empty() ? "" : " ") + std::to_string(m.type) + "[" + ipstr(m.addr) + "," + show(m.data) + "]";
	}
	return r;
}
