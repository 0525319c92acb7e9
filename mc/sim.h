// Simulated libc / kernel for the code under test.
#pragma once
#include "engine.h"
#include <map>
#include <deque>
#include <functional>

namespace mc {

typedef std::string Bytes;

// ---------------------------------------------------------------- process --
struct LogLine {
	int medium; // 1 stdout, 2 stderr, 3 file, 4 syslog
	std::string target;
	std::string text;
	int prio;
};



struct Proc {
	bool exited = false;
	int code = 0;
	int forks = 0;
	bool daemonized = false;
	std::map<int, void *> handlers;
	std::map<int, bool> siginfo, restart;
	u64 pending = 0;
	u64 tpending[MC_MAXFIBER] = {};
	int closed_std = 0;
	int fork_result = -1; // 0 child, 1 parent, 2 failure; -1: all
	bool detached = false; // setsid was called
	int faults_at_fork = 0; // signals which arrived before belong to the parent
	std::string cwd = "/start";
};

struct SimState {
	std::map<std::string, Bytes> files;       // virtual file system
	std::map<std::string, int> file_errs;     // errno for fopen
	std::vector<LogLine> *log = nullptr;      // captured output (if enabled)
	bool capture = false;
	bool syslog_open = false;
	int syslog_opens = 0, syslog_closes = 0;
	Proc proc;
	int ipv6 = 0; // names have IPv6 addresses: 1 first, 2 last, 4 no IPv4 ones
	std::vector<u32> rand_script;             // nonces handed out first
	size_t rand_i = 0;
	std::vector<u32> rand_given;
	u32 rand_seed = 1;
	u32 rand_k = 0;                           // numbers given since seeding
	std::map<std::string, int> access_err;
	bool on_exit_allowed = false;
	int files_open_max = 0;
	size_t max_alloc = 0; // largest single allocation
	bool stdio_points = false; // other threads may run between stdio calls
	bool regex_error = false; // next pcre2_match reports an internal error
};
extern SimState *SS;

void sim_flush_all(); // as exit() does
void sim_new_process(); // the code under test starts anew (static data, signal dispositions, descriptors 0-2)
size_t live_allocs();
std::string describe_live_allocs();
int live_files();
int live_pcre();
int live_threads();  // created and neither joined nor detached
int live_socks();
std::string describe_live_socks();
// Everything the code under test acquired must have been given back.
void check_no_leaks(const char *sig);
char *sut_strdup(const char *s);

// ----------------------------------------------------------------- network --
// Peers: scripted remote parties.
struct Sock;
struct NetCfg {
	size_t capacity = 1u << 20; // per-direction TCP buffer
	bool udp_dup_bind_fails = false;
};
extern NetCfg NC;

struct Dgram {
	u32 saddr;
	u16 sport;
	u32 daddr;
	u16 dport;
	Bytes data;
};

u32 ip(const char *dotted); // network byte order
std::string ipstr(u32 a);

// TCP peer API (each call is a scheduling point of the calling peer fiber)
Sock *peer_connect(const char *from, u16 fport, const char *to, u16 port); // nullptr if refused
Sock *peer_listen(const char *ip, u16 port);
Sock *peer_accept(Sock *l);                 // blocks; nullptr if closed
bool peer_acceptable(Sock *l);              // somebody waits to be accepted
enum ConnectMode { CM_REFUSE, CM_BLACKHOLE, CM_UNREACH };
void peer_mode(const char *ip, u16 port, ConnectMode m);
int peer_send(Sock *s, const Bytes &b);      // 0 or -errno
// receive exactly n bytes; short result means EOF/reset
Bytes peer_recv(Sock *s, size_t n);
Bytes peer_recv_some(Sock *s, size_t max = 1u << 20); // at least one byte, or empty at EOF/reset
bool peer_eof(Sock *s);   // EOF or reset reached (no data left)
bool peer_reset_seen(Sock *s);
size_t peer_pending(Sock *s);
// whether the code under test did anything after accepting this connection (absorb the result)
bool peer_taken(Sock *s);
void peer_shutdown_wr(Sock *s);
void peer_close(Sock *s);
void peer_abort(Sock *s); // RST
void peer_vanish(Sock *s); // the host disappears from the network
void peer_wait_eof(Sock *s); // drains
void vsleep(u64 ns);          // a peer lets time pass
// Non-blocking drain of whatever has been delivered (harness oracle, no scheduling point)
Bytes peer_drain(Sock *s);

// UDP peers
void peer_sendto(const char *from, u16 fport, u32 to, u16 port, const Bytes &b); // dropped if nothing bound
std::vector<Dgram> &udp_sent(); // every datagram the code under test sent
// what the code under test has open now
struct OpenInfo {
	int udp, tcp_listen, tcp_conn, tcp_connecting, other;
};
OpenInfo sut_open();
int udp_bound_count(u32 addr, u16 port);
std::vector<std::pair<u32, u16>> udp_bound();
struct ConnectRec {
	u32 from;
	u32 to;
	u16 port;
	int result;
};
std::vector<ConnectRec> &tcp_connects(); // by the code under test
int tcp_listener_count(u16 port);
// monitor callbacks (called right after the event, on the fiber doing it)
extern std::function<void(u32 addr, u16 port, int delta, int bound_now)> *mon_udp_bind;
extern std::function<void(int fd, const char *what)> *mon_fd_created;
void sim_abort_fd(int fd); // as close with SO_LINGER 0
u16 sock_lport(Sock *s);
u32 sock_laddr(Sock *s);
u32 sock_raddr(Sock *s);
u16 sock_rport(Sock *s);

bool fd_is_null(int fd);
void sim_signals(const int *sigs, int n); // let these signals arrive, at any point
void kill_sut();                    // process exit: all SUT threads stop
[[noreturn]] void exit_fiber();

} // namespace mc
