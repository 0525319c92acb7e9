// The registrar as a scripted party, and what it should be told.
#pragma once
#include "world.h"

static const char *REG = "198.51.100.80";

struct Report {
	Bytes header, body;
	u64 t;
	int mode;
};

enum { RM_OK, RM_CLOSE, RM_BADSTATUS, RM_RESET, RM_SILENT, RM_PARTIAL, RM_N };

struct Registrar {
	Sock *l = nullptr;
	std::vector<Report> got;
	std::vector<int> modes; // how to treat the first connections; then RM_OK
	size_t conns = 0;
	bool checked = true;
	void start()
	{
		l = peer_listen(REG, 80);
		spawn("registrar", FK_PEER, [this] {
			for (;;) {
				Sock *s = peer_accept(l);
				if (!s)
					return;
				int mode = conns < modes.size() ? modes[conns] : RM_OK;
				conns++;
				if (mode == RM_RESET) {
					peer_abort(s);
					continue;
				}
				// several reports may share a connection
				Bytes rx;
				while (one(s, rx, mode))
					;
				peer_close(s);
			}
		});
	}
	bool one(Sock *s, Bytes &rx, int mode)
	{
		size_t e;
		while ((e = rx.find("\r\n\r\n")) == Bytes::npos) {
			Bytes b = peer_recv_some(s);
			if (b.empty()) {
				CHECK(rx.empty(), "reg-format", "an incomplete request header was sent: '%s'", show(rx).c_str());
				return false;
			}
			rx += b;
		}
		Bytes h = rx.substr(0, e + 4);
		rx.erase(0, e + 4);
		size_t p = h.find("\r\nContent-Length: ");
		CHECK(p != Bytes::npos, "reg-format", "no Content-Length");
		size_t n = strtoul(h.c_str() + p + 18, nullptr, 10);
		while (rx.size() < n) {
			Bytes b = peer_recv_some(s);
			CHECK(!b.empty(), "reg-format", "Content-Length says %zu, %zu bytes sent", n, rx.size());
			rx += b;
		}
		Report r;
		r.header = h;
		r.body = rx.substr(0, n);
		rx.erase(0, n);
		r.t = vnow();
		r.mode = mode;
		got.push_back(r);
		absorb(hash_bytes(r.body.data(), r.body.size()));
		switch (mode) {
		case RM_OK:
			peer_send(s, "HTTP/1.1 200 OK\r\n\r\n");
			break;
		case RM_CLOSE:
			return false;
		case RM_BADSTATUS:
			peer_send(s, "HTTP/1.1 500 No\r\n\r\n");
			break;
		case RM_SILENT:
			break;
		case RM_PARTIAL:
			peer_send(s, "HTTP/1.1");
			return false;
		}
		return true;
	}
};

static Bytes ref_body(const Cfg &c, const char *status, int used, int total)
{
	Bytes b = "name=" + c.regname + "&comment=" + c.regcomment;
	if (total != 1)
		b += " [" + std::to_string(used) + "/" + std::to_string(total) + "]";
	b += Bytes("&public=") + (c.password == "PUBLIC" ? "Y" : "N") + "&status=" + status;
	b += "&a=" + c.pubaddr + "&d=" + hex(ref::md5(c.regname + c.pubaddr + "#5A!zu"), true);
	return b + "&p=" + std::to_string(c.port) + "&v=1.2.3o";
}
static void check_header(const Report &r)
{
	CHECK(r.header.compare(0, 30, "POST /proxypost.jsp HTTP/1.1\r\n") == 0, "reg-format", "request line of '%s'", show(r.header).c_str());
	int hosts = 0, lens = 0;
	for (size_t p = r.header.find("\r\n") + 2; p < r.header.size() - 2;) {
		size_t e = r.header.find("\r\n", p), c = r.header.find(": ", p);
		CHECK(c != Bytes::npos && c < e && c > p, "reg-format", "malformed header line '%s'", show(r.header.substr(p, e - p)).c_str());
		Bytes k = r.header.substr(p, c - p), v = r.header.substr(c + 2, e - c - 2);
		if (k == "Host") {
			hosts++;
			CHECK(v == "www.echolink.org", "reg-format", "Host: %s", show(v).c_str());
		}
		if (k == "Content-Length") {
			lens++;
			CHECK(v == std::to_string(r.body.size()), "reg-format", "Content-Length: %s", show(v).c_str());
		}
		p = e + 2;
	}
	CHECK(hosts == 1 && lens == 1, "reg-format", "%d Host, %d Content-Length headers", hosts, lens);
}
static bool is_off(const Report &r) { return r.body.find("&status=Off&") != Bytes::npos; }

static void check_truth(const Cfg &c, const Report &r, int used, const char *when)
{
	Bytes e = ref_body(c, used >= c.slots ? "Busy" : "Ready", used, c.slots);
	CHECK(r.body == e, "reg-truth", "%s: the last report is '%s', the situation is '%s'", when, r.body.c_str(), e.c_str());
}
static int connects_to_reg()
{
	int n = 0;
	for (auto &x : tcp_connects())
		n += x.to == ip(REG);
	return n;
}
// let virtual time pass until cond, or the given number of seconds have passed
struct Until {
	std::function<bool()> f;
	static bool en(void *p) { return ((Until *)p)->f(); }
};
static bool wait_until(std::function<bool()> f, u64 sec)
{
	Until u{ f };
	return !point("wait", nullptr, Until::en, &u, vnow() + sec * 1000000000ull);
}
