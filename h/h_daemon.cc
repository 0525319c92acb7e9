// The daemon: its command line (C23), and signals, daemonizing and failures (C24).
#include "world.h"
#include <signal.h>
extern "C" {
int proxyd_main(int argc, const char *const argv[]);
int mc_kill(pid_t, int);
}

typedef std::vector<Bytes> Args;

static Bytes show_args(const Args &a)
{
	Bytes r = "openelpd";
	for (auto &x : a)
		r += " '" + x + "'";
	return r;
}

struct Daemon {
	Fiber *f = nullptr;
	void start(const Args &args)
	{
		SS->on_exit_allowed = true;
		SS->capture = true;
		sim_signals(nullptr, 0);
		f = spawn("daemon", FK_SUT, [args] {
			char **v = (char **)malloc((args.size() + 2) * sizeof(char *));
			v[0] = strdup("openelpd");
			for (size_t i = 0; i < args.size(); i++)
				v[i + 1] = strdup(args[i].c_str());
			v[args.size() + 1] = nullptr;
			int r = proxyd_main((int)args.size() + 1, v);
			if (!SS->proc.exited) {
				sim_flush_all();
				kill_sut();
				SS->proc.exited = true;
				SS->proc.code = r;
			}
		});
	}
	bool exited() const { return SS->proc.exited; }
	bool killed() const { return SS->proc.exited && SS->proc.code <= -1000; }
	int code() const { return SS->proc.code & 0xff; }
};

static std::vector<LogLine> taken()
{
	std::vector<LogLine> r;
	if (SS->log)
		r = *SS->log, SS->log->clear();
	return r;
}

// ------------------------------------------------------------------- C23 --
struct Ref {
	enum { RUN, HELP, VERSION, ERROR } kind = RUN;
	bool debug = false, quiet = false, fg = false, syslog = false, haslog = false, hasconf = false;
	Bytes log, conf;
};
static Ref interpret(const Args &a)
{
	Ref r;
	auto end = [&](int k) {
		r.kind = (decltype(r.kind))k;
		return r;
	};
	for (size_t i = 0; i < a.size(); i++) {
		const Bytes &s = a[i];
		if (s == "--help")
			return end(Ref::HELP);
		if (s == "--version")
			return end(Ref::VERSION);
		if (s == "--debug")
			r.debug = true;
		else if (s == "--quiet")
			r.quiet = true;
		else if (s.empty() || s.compare(0, 2, "--") == 0)
			return end(Ref::ERROR);
		else if (s[0] != '-' || s.size() == 1) {
			if (r.hasconf)
				return end(Ref::ERROR);
			r.hasconf = true;
			r.conf = s;
		} else
			for (size_t j = 1; j < s.size(); j++)
				switch (s[j]) {
				case 'd':
					r.debug = true;
					break;
				case 'q':
					r.quiet = true;
					break;
				case 'F':
					r.fg = true;
					break;
				case 'h':
					return end(Ref::HELP);
				case 'V':
					return end(Ref::VERSION);
				case 'S':
					if (r.haslog)
						return end(Ref::ERROR);
					r.syslog = true;
					break;
				case 'L':
					if (r.syslog)
						return end(Ref::ERROR);
					if (j + 1 < s.size())
						r.log = s.substr(j + 1);
					else if (i + 1 < a.size())
						r.log = a[++i];
					else
						return end(Ref::ERROR);
					r.haslog = true;
					j = s.size();
					break;
				default:
					return end(Ref::ERROR);
				}
	}
	return r;
}

static const char *HINT = "../etc/ELProxy.conf";
static Bytes conf_with_port(int port)
{
	return "Password=x\nExternalBindAddress=10.0.0.1\nPort=" + std::to_string(port) + "\n";
}
static void put_configs(bool cwd)
{
	if (cwd)
		SS->files["ELProxy.conf"] = conf_with_port(8101);
	SS->files[HINT] = conf_with_port(8102);
	SS->files["a.conf"] = conf_with_port(8103);
	SS->files["S"] = conf_with_port(8104);
	SS->files["-"] = conf_with_port(8105);
}
static int conf_port(const Bytes &name)
{
	return name == "ELProxy.conf" ? 8101 : name == HINT ? 8102 : name == "a.conf" ? 8103 : name == "S" ? 8104 : name == "-" ? 8105 : 0;
}

// Runs a daemon which is expected to start; returns the number of pieces of text logged to its final destination.
struct RunResult {
	size_t console = 0, dest = 0;
	bool ran = false;
};
static RunResult run_daemon(const Args &args, const Ref &ref, int port, const Bytes &what)
{
	RunResult rr;
	taken();
	Daemon d;
	d.start(args);
	quiesce();
	std::vector<LogLine> out = taken();
	bool daemonized = SS->proc.forks > 0;
	CHECK(daemonized == !ref.fg || (!daemonized && d.exited() && !port), "args-foreground", "%s %s", what.c_str(),
	      daemonized ? "forks" : "stays in the foreground");
	bool logok = ref.haslog && !SS->file_errs.count(ref.log);
	if (d.exited()) {
		if (daemonized && SS->proc.fork_result == 1)
			CHECK(d.code() == 0, "args-parent", "the parent of %s ends with status %d", what.c_str(), d.code());
		else {
			CHECK(SS->proc.fork_result == 2 || port == 0, "args-run", "%s ends with status %d", what.c_str(), d.code());
			CHECK(d.code() != 0, "args-status", "%s cannot start, but its exit status is 0", what.c_str());
			CHECK(!out.empty() || SS->proc.fork_result == 2, "args-message", "%s fails silently", what.c_str());
			CHECK(live_socks() == 0, "args-open", "%s leaves sockets open", what.c_str());
		}
		return rr;
	}
	CHECK(port != 0, "args-conf", "%s runs without a configuration", what.c_str());
	CHECK(!daemonized || SS->proc.fork_result == 0, "args-fork", "%s runs although forking failed", what.c_str());
	rr.ran = true;
	CHECK(tcp_listener_count(port) == 1 && sut_open().tcp_listen == 1, "args-conf", "%s does not use the configuration for port %d",
	      what.c_str(), port);
	for (auto &l : out) {
		if (l.medium <= 2)
			rr.console++;
		else {
			CHECK((l.medium == 4 && ref.syslog) || (l.medium == 3 && logok && l.target == ref.log), "args-log",
			      "%s logs to %d %s", what.c_str(), l.medium, l.target.c_str());
			rr.dest++;
		}
	}
	CHECK(!ref.quiet || rr.console == 0 || (ref.haslog && !logok), "args-quiet", "%s prints to the console: %s", what.c_str(),
	      show(out[0].text).c_str());
	CHECK(ref.quiet || rr.console > 0, "args-quiet", "%s prints nothing to the console", what.c_str());
	if (daemonized) {
		CHECK(SS->proc.detached, "args-detach", "%s keeps its controlling terminal", what.c_str());
		CHECK(SS->proc.cwd == "/", "args-detach", "%s keeps the working directory in use", what.c_str());
		for (int i = 0; i < 3; i++)
			CHECK((SS->proc.closed_std >> i & 1) || fd_is_null(i), "args-detach", "%s keeps descriptor %d of the terminal", what.c_str(), i);
	}
	// some activity
	Sock *s = peer_connect("203.0.113.5", 50001, "127.0.0.1", port);
	CHECK(s, "args-conf", "%s does not accept clients", what.c_str());
	Bytes nonce = peer_recv(s, 8);
	peer_send(s, "N0CALL\n" + pw_response("x", nonce));
	quiesce();
	CHECK(slot_bound(0), "args-run", "%s does not admit a client", what.c_str());
	peer_close(s);
	quiesce();
	out = taken();
	// where messages go from now on: 0 nowhere
	int dest = ref.syslog ? 4 : logok ? 3 : daemonized ? 0 : 1;
	bool silent = ref.quiet && !daemonized;
	size_t n = 0;
	for (auto &l : out) {
		int m = l.medium == 2 ? 1 : l.medium;
		CHECK(m == dest && (m != 3 || l.target == ref.log), "args-log", "%s logs to destination %d %s instead of %d: %s", what.c_str(), m,
		      l.target.c_str(), dest, show(l.text).c_str());
		if (m == 4)
			CHECK(ref.debug || (l.prio & 7) != 7, "args-debug", "%s logs debugging output", what.c_str());
		n++;
	}
	rr.dest += n;
	CHECK(dest == 0 || silent || n > 0, "args-log", "%s does not log to destination %d", what.c_str(), dest);
	CHECK(!silent || dest == 3 || dest == 4 || n == 0, "args-quiet", "%s prints to the console: %s", what.c_str(), show(out[0].text).c_str());
	if (dest == 1)
		rr.dest += rr.console;
	mc_kill(1, SIGTERM);
	join_fiber(d.f);
	CHECK(d.exited() && d.code() == 0, "args-exit", "%s ended with status %d when told to stop", what.c_str(), d.code());
	check_no_leaks("leak");
	return rr;
}

SCENARIO(daemon_args, 0)
{
	static const char *WORD[] = { "-d", "-q",  "-F",  "-S",  "-L",  "-h",	   "-V",      "a.conf",	 "S",	 "--debug", "--quiet", "--help",
				      "--version", "-L/log/a", "-FS", "-qF", "-dF", "-LS", "-FL", "-SL",  "-x", "-Fx",	    "",	       "-",
				      "--", "--debugx", "-E", "-hV", "-Vh", "-dqFS", "-L/bad", "--deb", "-FdL", "-F-", "-dL/log/a", "-qL/log/b" };
	const int NW = sizeof WORD / sizeof *WORD;
	g_focus = false;
	Args a;
	int depth = g_arg ? g_arg : 3;
	for (int i = 0; i < depth; i++) {
		int k = choose(NW + 1, "argument");
		if (k == NW)
			break;
		a.push_back(WORD[k]);
	}
	Bytes what = show_args(a);
	Ref ref = interpret(a);
	int avail = ref.kind == Ref::RUN && !ref.hasconf ? choose(3, "available configuration") : 0;
	put_configs(avail == 0);
	if (avail == 2)
		SS->files.erase(HINT);
	SS->file_errs["/bad"] = EACCES;
	SS->file_errs[""] = ENOENT;
	Bytes conf = ref.hasconf ? ref.conf : avail == 0 ? "ELProxy.conf" : HINT;
	if (ref.kind != Ref::RUN) {
		Daemon d;
		d.start(a);
		quiesce();
		CHECK(d.exited(), "args-kind", "%s does not end", what.c_str());
		Bytes out, err;
		for (auto &l : taken()) {
			CHECK(l.medium <= 2, "args-kind", "%s logs", what.c_str());
			(l.medium == 1 ? out : err) += l.text;
		}
		CHECK((d.code() == 0) == (ref.kind != Ref::ERROR), "args-status", "%s ends with status %d", what.c_str(), d.code());
		CHECK(out.empty() == (ref.kind == Ref::ERROR), "args-kind", "%s prints '%s' to standard output", what.c_str(), show(out).c_str());
		CHECK(err.empty() == (ref.kind != Ref::ERROR), "args-kind", "%s prints '%s' to standard error", what.c_str(), show(err).c_str());
		if (ref.kind == Ref::VERSION)
			CHECK(out.find("0.9.4") != Bytes::npos && out.find("-h") == Bytes::npos, "args-version", "%s prints '%s'", what.c_str(),
			      show(out).c_str());
		if (ref.kind == Ref::HELP)
			for (auto o : { "-d", "--debug", "-F", "-h", "--help", "-L", "-q", "--quiet", "-S", "-V", "--version" })
				CHECK(out.find(o) != Bytes::npos, "args-help", "the help text does not mention %s", o);
		CHECK(SS->proc.forks == 0 && live_socks() == 0 && live_files() == 0 && !SS->syslog_open, "args-kind", "%s opened something",
		      what.c_str());
		count_case(hash_str(what.c_str()));
		outcome("%d", ref.kind);
		return;
	}
	RunResult r = run_daemon(a, ref, SS->files.count(conf) ? conf_port(conf) : 0, what);
	count_case(mix(hash_str(what.c_str()), avail));
	bool shown = r.ran && ref.debug && (ref.fg ? !ref.quiet : ref.syslog || (ref.haslog && !SS->file_errs.count(ref.log)));
	if (shown) {
		// the same without debugging output
		Args b;
		if (ref.fg)
			b.push_back("-F");
		if (ref.quiet)
			b.push_back("-q");
		if (ref.syslog)
			b.push_back("-S");
		if (ref.haslog)
			b.push_back("-L"), b.push_back(ref.log);
		if (ref.hasconf)
			b.push_back(ref.conf);
		sim_new_process();
		if (ref.haslog)
			SS->files.erase(ref.log), put_configs(avail == 0);
		SS->proc.fork_result = 0;
		Ref rb = ref;
		rb.debug = false;
		RunResult q = run_daemon(b, rb, conf_port(conf), show_args(b));
		CHECK(q.ran && r.dest > q.dest, "args-debug", "%s logs nothing more than %s (%zu, %zu)", what.c_str(), show_args(b).c_str(), r.dest, q.dest);
	}
	outcome("%d %d %d %d %d %d", r.ran, ref.debug, ref.quiet, ref.fg, ref.syslog, ref.haslog);
}

// ------------------------------------------------------------------- C24 --
struct Reg {
	void start(bool answers)
	{
		Sock *l = peer_listen("198.51.100.80", 80);
		spawn("registrar", FK_PEER, [l, answers] {
			for (;;) {
				Sock *s = peer_accept(l);
				if (!s)
					return;
				if (!answers)
					continue;
				Bytes b;
				while (b.find("v=1.2.3o") == Bytes::npos) {
					Bytes x = peer_recv_some(s);
					if (x.empty())
						break;
					b += x;
				}
				peer_send(s, "HTTP/1.1 200 OK\r\n\r\n");
				peer_close(s);
			}
		});
	}
};

static const Args MODES[] = { { "-F", "/c" }, { "-S", "/c" }, { "-q", "-L", "/log", "/c" }, { "/c" }, { "-d", "/c" } };

static Bytes daemon_conf(int slots, bool reg)
{
	Cfg c;
	c.slots = slots;
	c.password = "x";
	if (reg) {
		c.regname = "N0REG";
		c.pubaddr = "192.0.2.1";
	}
	return c.text();
}

struct Cl {
	Sock *s = nullptr;
	bool sent = false;
};
static void client(Cl *c, int i)
{
	c->s = peer_connect("203.0.113.5", 50001 + i, "127.0.0.1", 8100);
	if (!c->s)
		return;
	Bytes nonce = peer_recv(c->s, 8);
	if (nonce.size() < 8)
		return;
	c->sent = peer_send(c->s, "N0CALL\n" + pw_response("x", nonce)) == 0;
}

// the daemon ended because it was told to
static void check_stopped(Daemon &d, u64 t0, Cl *c, int n)
{
	CHECK(d.exited(), "stop", "the daemon did not exit");
	CHECK(d.code() == 0 && !d.killed(), "stop-status", "the daemon exited with status %d when told to stop", d.killed() ? -1 : d.code());
	CHECK(vnow() - t0 < 60000000000ull, "stop-time", "stopping took %llu s", (unsigned long long)((vnow() - t0) / 1000000000));
	check_no_leaks("leak");
	for (int i = 0; i < n; i++)
		if (c[i].s) {
			peer_drain(c[i].s);
			CHECK(peer_eof(c[i].s) || peer_reset_seen(c[i].s), "stop-session", "the session of client %d was not ended", i);
		}
	CHECK(udp_bound().empty(), "stop-session", "UDP ports are still bound");
}

// A signal which has to end the daemon arrives at any moment.
SCENARIO(daemon_stop, 0)
{
	g_focus = false;
	// arg 0: one signal; 1: two
	int mode = choose(g_arg ? 2 : 5, "mode"), slots = 1 + choose(2, "slots"), reg = choose(g_arg ? 2 : 3, "registrar");
	SS->files["/c"] = daemon_conf(slots, reg > 0);
	if (reg)
		Reg().start(reg == 1);
	if (!MODES[mode][0].compare("-F"))
		;
	else
		SS->proc.fork_result = 0;
	Daemon d;
	d.start(MODES[mode]);
	static const int SIGS[] = { SIGTERM, SIGINT };
	sim_signals(SIGS, 2);
	g_focus = true;
	Cl c[2];
	quiesce();
	Fiber *cf[2] = {};
	for (int i = 0; i < slots && !d.exited(); i++) {
		cf[i] = spawn("client", FK_PEER, [&, i] { client(&c[i], i); });
		quiesce();
	}
	if (d.killed()) {
		// before it took notice of signals
		CHECK(sut_open().tcp_listen == 0 && udp_sent().empty(), "killed", "a signal killed the daemon while it was working");
		outcome("early");
		return;
	}
	bool told = faults_taken() > SS->proc.faults_at_fork;
	u64 t0 = vnow();
	g_focus = g_arg != 0;
	if (!told) {
		CHECK(!d.exited(), "stop-self", "the daemon exited without being told to");
		for (int i = 0; i < slots; i++)
			CHECK(slot_bound(i), "not-served", "client %d is not served", i);
		mc_kill(1, SIGTERM);
	}
	join_fiber(d.f);
	g_focus = false;
	quiesce();
	check_stopped(d, t0, c, 2);
	outcome("%d %d %d", mode, slots, told);
}

// SIGUSR1 arrives at any moment: no new clients, sessions continue, until a signal ends it.
SCENARIO(daemon_drain, 0)
{
	g_focus = false;
	int mode = choose(2, "mode"), reg = choose(2, "registrar");
	SS->files["/c"] = daemon_conf(2, reg > 0);
	if (reg)
		Reg().start(true);
	if (mode)
		SS->proc.fork_result = 0;
	Daemon d;
	d.start(MODES[mode]);
	static const int SIGS[] = { SIGUSR1 };
	sim_signals(SIGS, 1);
	g_focus = true;
	Cl c[2];
	quiesce();
	int n_before = 0;
	for (int i = 0; i < 2 && !d.exited(); i++) {
		spawn("client", FK_PEER, [&, i] { client(&c[i], i); });
		quiesce();
	}
	if (d.killed()) {
		CHECK(sut_open().tcp_listen == 0 && udp_sent().empty(), "killed", "a signal killed the daemon while it was working");
		outcome("early");
		return;
	}
	g_focus = false;
	CHECK(!d.exited(), "drain-exit", "the daemon exits while draining");
	bool told = faults_taken() > SS->proc.faults_at_fork;
	int served = slots_bound(2);
	if (!told) {
		CHECK(served == 2, "not-served", "%d of two clients are served", served);
		mc_kill(1, SIGUSR1);
		quiesce();
	}
	for (int round = 0; round < 2; round++) {
		// the listening socket is gone, the sessions are not
		CHECK(!peer_connect("203.0.113.9", 51000, "127.0.0.1", 8100), "drain-accept", "clients can still connect while draining");
		CHECK(slots_bound(2) == served, "drain-session", "%d of %d sessions remain while draining", slots_bound(2), served);
		int k = 0;
		for (int i = 0; i < 2; i++) {
			if (!c[i].s)
				continue;
			size_t n0 = udp_sent().size();
			peer_send(c[i].s, mkmsg(T_UDATA, "198.51.100.7", "go on"));
			quiesce();
			k += udp_sent().size() - n0;
		}
		CHECK(k == served, "drain-session", "%d of %d sessions work while draining", k, served);
		if (round == 0) {
			mc_kill(1, SIGUSR1); // saying it again changes nothing
			quiesce();
			vsleep(1000000000ull); // the main loop looks at it now and then
			quiesce();
			CHECK(!d.exited(), "drain-exit", "the daemon exits while draining");
		}
	}
	int how = choose(3, "end");
	u64 t0 = vnow();
	if (how < 2) {
		mc_kill(1, how ? SIGINT : SIGTERM);
	} else {
		for (int i = 0; i < 2; i++)
			if (c[i].s)
				peer_close(c[i].s), c[i].s = nullptr;
		quiesce();
		CHECK(!d.exited(), "drain-exit", "the daemon exits without a signal");
		CHECK(udp_bound().empty(), "drain-session", "the slots of clients which left remain in use");
		mc_kill(1, SIGTERM);
	}
	join_fiber(d.f);
	quiesce();
	check_stopped(d, t0, c, 2);
	outcome("%d %d %d %d", mode, told, served, how);
}

// SIGUSR1 and a terminating signal in any order at any moments.
SCENARIO(daemon_two, 0)
{
	g_focus = false;
	int mode = choose(2, "mode");
	SS->files["/c"] = daemon_conf(1, false);
	if (mode)
		SS->proc.fork_result = 0;
	Daemon d;
	d.start(MODES[mode]);
	static const int SIGS[] = { SIGUSR1, SIGTERM };
	sim_signals(SIGS, 2);
	g_focus = true;
	Cl c[2];
	spawn("client", FK_PEER, [&] { client(&c[0], 0); });
	quiesce();
	if (d.killed()) {
		CHECK(sut_open().tcp_listen == 0 && udp_sent().empty(), "killed", "a signal killed the daemon while it was working");
		outcome("early");
		return;
	}
	g_focus = false;
	u64 t0 = vnow();
	bool over = d.exited();
	if (!over)
		mc_kill(1, SIGTERM);
	join_fiber(d.f);
	quiesce();
	check_stopped(d, t0, c, 1);
	outcome("%d %d", mode, over);
}

// Serving clients fails while signals arrive: whichever comes first, the daemon comes to an end.
SCENARIO(daemon_die, F_ACCEPT | F_MALLOC)
{
	u32 flt = g_faults;
	g_faults = 0;
	g_focus = false;
	int mode = choose(2, "mode");
	SS->files["/c"] = daemon_conf(1, false);
	if (mode)
		SS->proc.fork_result = 0;
	Daemon d;
	d.start(MODES[mode]);
	quiesce();
	Cl c[2];
	spawn("client", FK_PEER, [&] { client(&c[0], 0); });
	quiesce();
	CHECK(!d.exited() && slot_bound(0), "not-served", "the client is not served");
	g_faults = flt;
	g_focus = true;
	static const int SIGS[] = { SIGUSR1, SIGTERM };
	sim_signals(SIGS, g_arg ? 2 : 1);
	spawn("client", FK_PEER, [&] { client(&c[1], 1); });
	quiesce();
	g_focus = false;
	g_faults = 0;
	bool over = d.exited();
	u64 t0 = vnow();
	if (!over)
		mc_kill(1, SIGTERM);
	join_fiber(d.f);
	quiesce();
	CHECK(!d.killed(), "killed", "a signal killed the daemon while it was working");
	CHECK(!over || faults_taken() || g_arg, "stop-self", "the daemon exits without being told to");
	if (over && d.code() != 0)
		CHECK(faults_taken(), "stop-status", "the daemon failed although nothing happened");
	else
		CHECK(d.code() == 0, "stop-status", "the daemon exited with status %d when told to stop", d.code());
	CHECK(vnow() - t0 < 60000000000ull, "stop-time", "stopping took too long");
	check_no_leaks("leak");
	for (auto &x : c)
		if (x.s) {
			peer_drain(x.s);
			CHECK(peer_eof(x.s) || peer_reset_seen(x.s), "stop-session", "a session was not ended");
		}
	CHECK(udp_bound().empty(), "stop-session", "UDP ports are still bound");
	outcome("%d %d %d", mode, over, d.code() != 0);
}

// Configurations the daemon cannot start with.
SCENARIO(daemon_bad, 0)
{
	g_focus = false;
	static const char *BAD[] = { nullptr,
				     "Password=notset\nPort=8100\n",
				     "Port=8100\n",
				     "Password=x\nPort=eighty\n",
				     "Password=x\nPort=65536\n",
				     "Password=x\nConnectionTimeout=x\n",
				     "Password=x\nCallsignsAllowed=(\n",
				     "Password=x\nCallsignsDenied=[\n",
				     "Password=x\nBindAddress=192.0.2.7\n" };
	int k = choose(9, "problem"), mode = choose(4, "mode");
	if (BAD[k])
		SS->files["/c"] = BAD[k];
	Daemon d;
	d.start(MODES[mode]);
	quiesce();
	CHECK(d.exited(), "bad-start", "the daemon starts with a bad configuration (%d)", k);
	CHECK(d.code() != 0, "bad-status", "the daemon's exit status is zero although it cannot start (%d)", k);
	CHECK(SS->proc.forks == 0, "bad-fork", "the daemon forks before it reports that it cannot start (%d)", k);
	int n = 0;
	for (auto &l : taken()) {
		CHECK(l.medium <= 2, "bad-message", "the problem is reported to destination %d", l.medium);
		n++;
	}
	CHECK(n > 0, "bad-message", "the daemon does not say why it cannot start (%d)", k);
	check_no_leaks("leak");
	outcome("%d", k);
}

// Any single failure (or two) while starting and running.
SCENARIO(daemon_fault, F_MALLOC | F_PTHREAD | F_SOCK | F_FILE | F_PCRE | F_PROC, false)
{
	g_focus = false;
	int mode = choose(5, "mode"), reg = choose(2, "registrar");
	g_faults = 0;
	SS->files["/c"] = daemon_conf(2, reg > 0) + "CallsignsAllowed=.*\nCallsignsDenied=Q.*\n";
	if (reg)
		Reg().start(true);
	bool nofork = mode && choose(2, "fork fails");
	if (mode)
		SS->proc.fork_result = nofork ? 2 : 0;
	g_faults = F_MALLOC | F_PTHREAD | F_SOCK | F_FILE | F_PCRE | F_PROC;
	Daemon d;
	d.start(MODES[mode]);
	quiesce();
	CHECK(!nofork || d.exited(), "fault-start", "the daemon runs although it could not fork");
	if (d.exited()) {
		CHECK(nofork || faults_taken() > 0, "start", "the daemon ends with status %d although nothing failed", d.code());
		CHECK(d.code() != 0 && !d.killed(), "fault-status", "the daemon could not start but its exit status is zero");
		check_no_leaks("leak");
		outcome("failed");
		return;
	}
	CHECK(sut_open().tcp_listen == 1, "fault-start", "the daemon runs but does not listen");
	if (mode) {
		CHECK(SS->proc.detached && SS->proc.cwd == "/", "fault-detach", "the daemon runs, but keeps its terminal or directory");
		for (int i = 0; i < 3; i++)
			CHECK((SS->proc.closed_std >> i & 1) || fd_is_null(i), "fault-detach", "the daemon runs, but keeps descriptor %d of the terminal", i);
	}
	int f1 = faults_taken();
	Cl c[1];
	spawn("client", FK_PEER, [&] { client(&c[0], 0); });
	quiesce();
	if (!d.exited() && faults_taken() == f1)
		CHECK(slot_bound(0) || slot_bound(1), "not-served", "a client is not served");
	u64 t0 = vnow();
	bool self_end = d.exited();
	if (self_end)
		CHECK(d.code() != 0, "fault-status", "the daemon failed but its exit status is zero");
	else
		mc_kill(1, SIGTERM);
	join_fiber(d.f);
	quiesce();
	if (!self_end && faults_taken() == f1)
		check_stopped(d, t0, c, 1);
	check_no_leaks("leak");
	outcome("%d %d %d", mode, self_end, d.code() == 0);
}
