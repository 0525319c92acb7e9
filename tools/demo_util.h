/* Helpers shared by the demonstrations: a proxy on the loopback network, and plain clients. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>

#include "digest.h"
#include "openelp/openelp.h"

static void fail(const char *what)
{
	fprintf(stderr, "DEMO: %s\n", what);
	_exit(1);
}

static void setup_error(const char *what)
{
	fprintf(stderr, "DEMO SETUP: %s (%s)\n", what, strerror(errno));
	_exit(2);
}

static void msleep(int ms)
{
	struct timespec ts = { ms / 1000, (ms % 1000) * 1000000L };

	nanosleep(&ts, NULL);
}

static struct sockaddr_in sa(const char *addr, int port)
{
	struct sockaddr_in s = { 0 };

	s.sin_family = AF_INET;
	s.sin_port = htons(port);
	s.sin_addr.s_addr = inet_addr(addr);

	return s;
}

static int free_port(void)
{
	struct sockaddr_in s = sa("127.0.0.1", 0);
	socklen_t len = sizeof(s);
	int fd = socket(AF_INET, SOCK_STREAM, 0);

	if (bind(fd, (void *)&s, sizeof(s)) < 0 ||
	    getsockname(fd, (void *)&s, &len) < 0)
		setup_error("no free port");
	close(fd);

	return ntohs(s.sin_port);
}

static int udp_socket(const char *addr, int port)
{
	struct sockaddr_in s = sa(addr, port);
	int fd = socket(AF_INET, SOCK_DGRAM, 0);

	if (bind(fd, (void *)&s, sizeof(s)) < 0)
		setup_error("cannot bind UDP socket");

	return fd;
}

static int tcp_listener(const char *addr, int port)
{
	struct sockaddr_in s = sa(addr, port);
	int yes = 1;
	int fd = socket(AF_INET, SOCK_STREAM, 0);

	setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &yes, sizeof(yes));
	if (bind(fd, (void *)&s, sizeof(s)) < 0 || listen(fd, 5) < 0)
		setup_error("cannot listen");

	return fd;
}

/* The proxy */
static struct proxy_handle ph;
static volatile int stop_dispatch;
static pthread_t dispatch_thread;

static void *dispatch(void *arg)
{
	(void)arg;
	while (!stop_dispatch)
		if (proxy_process(&ph) < 0 && stop_dispatch)
			break;

	return NULL;
}

static const char *ext_addr[8] = {
	"127.0.0.2", "127.0.0.3", "127.0.0.4", "127.0.0.5",
};

static void proxy_conf_slots(int n)
{
	int i;

	ph.conf.bind_addr = strdup("127.0.0.1");
	ph.conf.bind_addr_ext = strdup(ext_addr[0]);
	if (ph.conf.password == NULL)
		ph.conf.password = strdup("PUBLIC");
	ph.conf.port = free_port();
	if (n > 1) {
		ph.conf.bind_addr_ext_add = calloc(n - 1, sizeof(char *));
		ph.conf.bind_addr_ext_add_len = n - 1;
		for (i = 1; i < n; i++)
			ph.conf.bind_addr_ext_add[i - 1] = strdup(ext_addr[i]);
	}
}

static void proxy_up(int n)
{
	if (ph.priv == NULL && proxy_init(&ph) < 0)
		setup_error("proxy_init");
	proxy_log_level(&ph, getenv("DEMO_DEBUG") ? LOG_LEVEL_DEBUG : LOG_LEVEL_FATAL);
	if (ph.conf.bind_addr == NULL)
		proxy_conf_slots(n);
	if (proxy_open(&ph) < 0)
		setup_error("proxy_open");
	if (proxy_start(&ph) < 0)
		setup_error("proxy_start");
	stop_dispatch = 0;
	pthread_create(&dispatch_thread, NULL, dispatch, NULL);
}

static void proxy_down(void)
{
	stop_dispatch = 1;
	proxy_shutdown(&ph);
	pthread_join(dispatch_thread, NULL);
	proxy_close(&ph);
}

/* Clients */
static int send_all(int fd, const void *buf, size_t len)
{
	return send(fd, buf, len, MSG_NOSIGNAL) == (ssize_t)len ? 0 : -1;
}

/* 0 on success, -1 when the connection ended or nothing came for 'ms' */
static int recv_all(int fd, void *buf, size_t len, int ms)
{
	uint8_t *p = buf;

	while (len > 0) {
		struct pollfd pfd = { fd, POLLIN, 0 };
		ssize_t n;

		if (poll(&pfd, 1, ms) <= 0)
			return -1;
		n = recv(fd, p, len, 0);
		if (n <= 0)
			return -1;
		p += n;
		len -= n;
	}

	return 0;
}

static int tcp_dial(const char *addr, int port)
{
	struct sockaddr_in s = sa(addr, port);
	int fd = socket(AF_INET, SOCK_STREAM, 0);

	if (connect(fd, (void *)&s, sizeof(s)) < 0) {
		close(fd);
		return -1;
	}

	return fd;
}

static void response_for(const char *nonce, const char *password, uint8_t res[16])
{
	char buf[300];
	size_t i, n = strlen(password);

	for (i = 0; i < n; i++)
		buf[i] = password[i] >= 'a' && password[i] <= 'z' ?
			 password[i] - 32 : password[i];
	memcpy(buf + n, nonce, 8);
	digest_get((uint8_t *)buf, n + 8, res);
}

/* Connects and sends the right response; -1 when the proxy is busy */
static int client_login(const char *call)
{
	char nonce[8];
	uint8_t msg[64];
	size_t n = strlen(call);
	int fd = tcp_dial("127.0.0.1", ph.conf.port);

	if (fd < 0)
		setup_error("cannot connect to the proxy");
	if (recv_all(fd, nonce, 8, 3000) < 0) {
		close(fd);
		return -1;
	}
	memcpy(msg, call, n);
	msg[n] = '\n';
	response_for(nonce, ph.conf.password, msg + n + 1);
	send_all(fd, msg, n + 17);

	return fd;
}

static int send_msg(int fd, int type, const char *addr, const void *data, uint32_t size)
{
	uint8_t *buf = malloc(9 + size);
	uint32_t a = addr ? inet_addr(addr) : 0;
	int ret;

	buf[0] = type;
	memcpy(buf + 1, &a, 4);
	memcpy(buf + 5, &size, 4);
	if (size)
		memcpy(buf + 9, data, size);
	ret = send_all(fd, buf, 9 + size);
	free(buf);

	return ret;
}

/* Receives one message from the proxy; -1 if none comes; returns the type */
static int recv_msg(int fd, void *data, uint32_t max, uint32_t *size, int ms)
{
	uint8_t hdr[9];

	if (recv_all(fd, hdr, 9, ms) < 0)
		return -1;
	memcpy(size, hdr + 5, 4);
	if (*size > max)
		return 1000 + hdr[0];
	if (recv_all(fd, data, *size, ms) < 0)
		return -1;

	return hdr[0];
}

/* Where a client's traffic comes from: 0-based slot, -1 if it does not arrive */
static int probe_fd = -1;

static int client_slot(int fd)
{
	struct sockaddr_in from;
	socklen_t len = sizeof(from);
	static int seq;
	char buf[64], tag[64];
	int i;

	if (probe_fd < 0)
		probe_fd = udp_socket("127.0.0.100", 5198);
	snprintf(tag, sizeof(tag), "probe %d", ++seq);
	if (send_msg(fd, 5, "127.0.0.100", tag, strlen(tag) + 1) < 0)
		return -1;
	for (;;) {
		struct pollfd pfd = { probe_fd, POLLIN, 0 };

		if (poll(&pfd, 1, 3000) <= 0)
			return -1;
		if (recvfrom(probe_fd, buf, sizeof(buf), 0, (void *)&from, &len) <= 0)
			return -1;
		if (strcmp(buf, tag) == 0)
			break;
	}
	for (i = 0; i < 8 && ext_addr[i]; i++)
		if (from.sin_addr.s_addr == inet_addr(ext_addr[i]))
			return i;

	return -1;
}

/* Logs in until it succeeds, for at most 'ms'; -1 if it never does */
static int client_admitted(const char *call, int *slot, int ms)
{
	for (; ms > 0; ms -= 50) {
		int fd = client_login(call);
		int s;

		if (fd >= 0) {
			s = client_slot(fd);
			if (s >= 0) {
				if (slot)
					*slot = s;
				return fd;
			}
			close(fd);
		}
		msleep(50);
	}

	return -1;
}
