#include <algorithm>
// Simulated pthreads, heap, stdio, time, randomness, regex accounting and
// process control, as seen by the code under test.
#include "sim.h"
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <sys/types.h>
#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#endif
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>

namespace mc {

SimState *SS;

// -------------------------------------------------------------------- heap --
struct Alloc {
	void *p;
	size_t n;
	void *site;
};
static PVec<Alloc> heap_tab; // open addressing
static size_t heap_n, heap_used;
#define TOMB ((void *)1)

static size_t hslot(const void *p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 40; }

static void heap_clear()
{
	for (auto &a : heap_tab)
		if (a.p && a.p != TOMB) {
#ifndef MC_RACE
			::free(a.p);
#endif
		}
	if (heap_tab.size() != 1024) {
		heap_tab.resize(1024);
	}
	memset((void *)heap_tab.data(), 0, heap_tab.size() * sizeof(Alloc));
	heap_n = heap_used = 0;
}

static void heap_insert(void *p, size_t n, void *site)
{
	if ((heap_used + 1) * 2 > heap_tab.size()) {
		PVec<Alloc> old = heap_tab;
		size_t ns = heap_n * 4 > old.size() ? old.size() * 2 : old.size();
		heap_tab.assign(ns, Alloc{ nullptr, 0, nullptr });
		heap_used = heap_n = 0;
		for (auto &a : old)
			if (a.p && a.p != TOMB)
				heap_insert(a.p, a.n, a.site);
	}
	size_t m = heap_tab.size() - 1, i = hslot(p) & m;
	while (heap_tab[i].p && heap_tab[i].p != TOMB)
		i = (i + 1) & m;
	if (!heap_tab[i].p)
		heap_used++;
	heap_tab[i] = Alloc{ p, n, site };
	heap_n++;
}

static bool heap_remove(void *p, size_t *n)
{
	size_t m = heap_tab.size() - 1, i = hslot(p) & m;
	while (heap_tab[i].p) {
		if (heap_tab[i].p == p) {
			*n = heap_tab[i].n;
			heap_tab[i].p = TOMB;
			heap_n--;
			return true;
		}
		i = (i + 1) & m;
	}
	return false;
}

size_t live_allocs() { return heap_n; }

std::string describe_live_allocs()
{
	std::string s;
	char b[96];
	std::vector<std::pair<char *, size_t>> v;
	for (auto &a : heap_tab)
		if (a.p && a.p != TOMB)
			v.push_back({ (char *)a.site, a.n });
	std::sort(v.begin(), v.end());
	for (size_t i = 0, j; i < v.size(); i = j) {
		for (j = i; j < v.size() && v[j] == v[i]; j++)
			;
		snprintf(b, sizeof b, "%s%zu x %zu bytes from %p", s.empty() ? "" : ", ", j - i, v[i].second, (void *)v[i].first);
		s += b;
	}
	return s;
}

static void *sut_alloc(size_t n, bool zero, void *site)
{
	if (on_fiber() && fault(F_MALLOC, 2, "malloc")) {
		errno = ENOMEM;
		return nullptr;
	}
	if (SS && n > SS->max_alloc)
		SS->max_alloc = n;
#ifdef MC_RACE
	void *p = arena_alloc(n ? n : 1);
	memset(p, zero ? 0 : 0xa5, n);
#else
	void *p = zero ? ::calloc(1, n ? n : 1) : ::malloc(n ? n : 1);
	if (p && !zero && n < 65536)
		memset(p, 0xa5, n);
#endif
	if (p)
		heap_insert(p, n, site);
	return p;
}

static void sync_forget(void *p, size_t n);

static void sut_free(void *p)
{
	if (!p)
		return;
	size_t n = 0;
	if (!heap_remove(p, &n)) {
#ifdef MC_RACE
		fail("bad-free", "free of a pointer that is not a live allocation");
#else
		::free(p); // let ASan report it
		fail("bad-free", "free of a pointer that is not a live allocation");
#endif
	}
	sync_forget(p, n);
	race_free(p, n);
#ifndef MC_RACE
	::free(p);
#endif
}

char *sut_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	u32 f = g_faults;
	g_faults = 0;
	char *p = (char *)sut_alloc(n, false, nullptr);
	g_faults = f;
	memcpy(p, s, n);
	return p;
}

// ----------------------------------------------------------------- pthreads --
struct Mx {
	Obj o;
	int owner = -1; // fiber id
	bool destroyed = false;
	int readers = 0; // rwlock
	int kind = 0;    // 0 mutex 1 rwlock 2 sem
	int count = 0;   // sem value / recursion
	int recursive = 0;
};
struct Waiter {
	Fiber *f;
	bool woken;
};
struct Cv {
	Obj o;
	std::vector<Waiter *> w;
	bool destroyed = false;
	const void *mx = nullptr;
};
static std::map<const void *, Mx> *MX;
static std::map<const void *, Cv> *CV;
static int threads_created, threads_reaped;

static void check_addr(const void *p, const char *what)
{
#ifdef MC_ASAN
	if (__asan_address_is_poisoned(p))
		fail("sync-uaf", "%s on freed or invalid memory", what);
#endif
	(void)p;
	(void)what;
}

static Mx &mx_get(const void *m, const char *what)
{
	check_addr(m, what);
	auto it = MX->find(m);
	if (it == MX->end()) {
		it = MX->emplace(m, Mx()).first;
		it->second.o.h = mix(self() ? self()->h : 0, 0x3333 + (self() ? self()->nobj++ : 0));
	}
	if (it->second.destroyed)
		fail("destroyed-sync", "%s on a destroyed mutex", what);
	return it->second;
}

static Cv &cv_get(const void *c, const char *what)
{
	check_addr(c, what);
	auto it = CV->find(c);
	if (it == CV->end()) {
		it = CV->emplace(c, Cv()).first;
		it->second.o.h = mix(self() ? self()->h : 0, 0x4444 + (self() ? self()->nobj++ : 0));
	}
	if (it->second.destroyed)
		fail("destroyed-sync", "%s on a destroyed condition variable", what);
	return it->second;
}

static void sync_forget(void *p, size_t n)
{
	auto a = MX->lower_bound(p);
	while (a != MX->end() && (const char *)a->first < (char *)p + n) {
		if (!a->second.destroyed && (a->second.owner >= 0 || a->second.readers))
			fail("freed-locked-mutex", "memory of a locked mutex was freed");
		a = MX->erase(a);
	}
	auto c = CV->lower_bound(p);
	while (c != CV->end() && (const char *)c->first < (char *)p + n) {
		if (!c->second.destroyed && !c->second.w.empty())
			fail("freed-waited-cond", "memory of a condition variable with waiters was freed");
		c = CV->erase(c);
	}
}

static int mx_trylock_free(void *a)
{
	Mx *m = (Mx *)a;
	return m->owner < 0 && m->readers == 0;
}
static bool mx_free(void *a) { return mx_trylock_free(a); }

static void mx_acquire(const void *addr, Mx &m)
{
	m.owner = self()->id;
	touch(m.o, 1);
	race_acquire(addr);
}

static void do_lock(const void *addr)
{
	Mx &m = mx_get(addr, "lock");
	if (m.recursive && m.owner == self()->id) {
		m.count++;
		return;
	}
	point("lock", addr, mx_free, &m);
	if (m.destroyed)
		fail("destroyed-sync", "lock on a mutex that was destroyed while waiting");
	mx_acquire(addr, m);
}

static int do_unlock(const void *addr)
{
	Mx &m = mx_get(addr, "unlock");
	if (m.owner != self()->id)
		fail("bad-unlock", "unlock of a mutex by a thread that does not hold it");
	if (m.recursive && m.count > 0) {
		m.count--;
		return 0;
	}
	m.owner = -1;
	touch(m.o, 2);
	race_release(addr);
	return 0;
}

struct CvArg {
	Waiter *w;
	Mx *m;
};

static int do_cond_wait(const void *c, const void *mtx, u64 deadline)
{
	Cv &cv = cv_get(c, "cond_wait");
	Mx &m = mx_get(mtx, "cond_wait");
	if (m.owner != self()->id)
		fail("bad-condwait", "cond_wait without holding the mutex");
	if (deadline && deadline <= vnow()) {
		// already expired: release and re-acquire
		do_unlock(mtx);
		do_lock(mtx);
		return ETIMEDOUT;
	}
	Waiter *w = new Waiter{ self(), false };
	cv.w.push_back(w);
	cv.mx = mtx;
	touch(cv.o, 3);
	do_unlock(mtx);
	if (fault(F_SPURIOUS, 2, "spurious wakeup"))
		w->woken = true;
	CvArg a{ w, &m };
	bool to = point(
		"cond_wait", c,
		[](void *p) {
			CvArg *x = (CvArg *)p;
			return x->w->woken && mx_free(x->m);
		},
		&a, deadline);
	for (size_t i = 0; i < cv.w.size(); i++)
		if (cv.w[i] == w) {
			cv.w.erase(cv.w.begin() + i);
			break;
		}
	touch(cv.o, 4);
	if (to) {
		bool woken = w->woken;
		point("relock", mtx, mx_free, &m);
		mx_acquire(mtx, m);
		return woken ? 0 : ETIMEDOUT;
	}
	mx_acquire(mtx, m);
	race_acquire(c);
	return 0;
}

static int do_wake(const void *c, bool all)
{
	Cv &cv = cv_get(c, "cond_wake");
	bool need = true;
	if (cv.mx) {
		auto it = MX->find(cv.mx);
		if (it != MX->end() && it->second.owner == self()->id)
			need = false;
	}
	if (need) {
		point(all ? "broadcast" : "signal", c);
		if (cv.destroyed)
			fail("destroyed-sync", "signal of a condition variable that was destroyed");
	}
	touch(cv.o, 5);
	race_release(c);
	if (all) {
		for (auto w : cv.w)
			w->woken = true;
	} else {
		std::vector<Waiter *> cand;
		for (auto w : cv.w)
			if (!w->woken)
				cand.push_back(w);
		if (!cand.empty()) {
			int k = 0;
			if (cand.size() > 1)
				k = fault(F_SPURIOUS, cand.size(), "signal target");
			cand[k]->woken = true;
		}
	}
	return 0;
}

static const pthread_t TBASE = 0x7e0000000000ull;

int live_threads() { return threads_created - threads_reaped; }

// ------------------------------------------------------------------- stdio --
struct VFile {
	u32 magic;
	int kind; // 1 stdout 2 stderr 3 regular
	std::string path;
	bool rd, wr, append;
	size_t pos;
	bool eof, err;
	std::string pend; // written but not flushed
	int buf = 2;      // 0 unbuffered, 1 line, 2 full
	int owner = -1, depth = 0; // flockfile
	int back = EOF; // pushed back
	Obj o;
};
static std::vector<VFile *> *vf_all;
static VFile *vf_out, *vf_err, *vf_in;
static int files_open;
int live_files() { return files_open; }

static VFile *vf(void *p, const char *what)
{
	VFile *f = (VFile *)p;
	if (!f)
		fail("null-file", "%s on a NULL FILE", what);
	if (f->magic == 0xdeadf11e)
		fail("closed-file", "%s on a closed FILE", what);
	if (f->magic != 0xf11ef11e)
		fail("bad-file", "%s on an invalid FILE", what);
	return f;
}

bool fd_is_socket(int fd);
bool fd_is_null(int fd);
static void emit(int medium, const std::string &target, const char *text, size_t n, int prio = 0)
{
	TR("out%d: %.*s", medium, (int)n, text);
	if (!SS->capture)
		return;
	if (!SS->log)
		SS->log = new std::vector<LogLine>();
	SS->log->push_back(LogLine{ medium, target, std::string(text, n), prio });
}

static void vf_commit(VFile *f)
{
	if (f->pend.empty())
		return;
	std::string t;
	t.swap(f->pend);
	if (f->kind == 3)
		SS->files[f->path].append(t);
	else if (fd_is_socket(f->kind))
		fail("log-misdirected", "console output is written to descriptor %d, which is a socket by now: %.40s", f->kind, t.c_str());
	else if ((SS->proc.closed_std & (1 << f->kind)) || fd_is_null(f->kind))
		return;
	emit(f->kind, f->path, t.data(), t.size());
}
void sim_flush_all()
{
	for (auto f : *vf_all)
		if (f->magic == 0xf11ef11e)
			vf_commit(f);
}
struct VfArg {
	VFile *f;
	int id;
};
static bool vf_can(void *p)
{
	VfArg *a = (VfArg *)p;
	return a->f->owner < 0 || a->f->owner == a->id;
}
// Each stdio call is atomic; other threads can run between two of them.
static void vf_point(VFile *f, const char *op)
{
	if (!SS->stdio_points && f->owner < 0)
		return;
	VfArg a{ f, self()->id };
	point(op, f, vf_can, &a);
	touch(f->o, 0x10);
}

static int vf_write(VFile *f, const char *b, size_t n)
{
	vf_point(f, "stdio write");
	if (f->kind == 3 && !f->wr) {
		errno = EBADF;
		return -1;
	}
	f->pend.append(b, n);
	if (f->buf == 0 || (f->buf == 1 && memchr(b, '\n', n)) || f->pend.size() > 65536)
		vf_commit(f);
	return (int)n;
}

static int vf_vprintf(VFile *f, const char *fmt, va_list ap)
{
	char b[512];
	va_list ap2;
	va_copy(ap2, ap);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (n >= (int)sizeof b) {
		char *big = (char *)arena_alloc(n + 1);
		vsnprintf(big, n + 1, fmt, ap2);
		va_end(ap2);
		return vf_write(f, big, n) < 0 ? -1 : n;
	}
	va_end(ap2);
	if (n < 0)
		return n;
	return vf_write(f, b, n) < 0 ? -1 : n;
}

static int vf_getc(VFile *f)
{
	if (!f->rd) {
		f->err = true;
		return EOF;
	}
	if (f->back != EOF) {
		int c = f->back;
		f->back = EOF;
		return c;
	}
	Bytes &c = SS->files[f->path];
	if (f->pos >= c.size()) {
		f->eof = true;
		return EOF;
	}
	// a read error can only happen when a new block is fetched
	if ((f->pos % 64) == 0 && fault(F_FILE, 2, "file read error")) {
		f->err = true;
		errno = EIO;
		return EOF;
	}
	return (unsigned char)c[f->pos++];
}

static PVec<pcre2_code *> pcre_codes;
static PVec<pcre2_match_data *> pcre_mds;
int live_pcre() { return (int)(pcre_codes.size() + pcre_mds.size()); }
template <class V, class T> static void vremove(V &v, T x, const char *what)
{
	for (size_t i = 0; i < v.size(); i++)
		if (v[i] == x) {
			v.erase(v.begin() + i);
			return;
		}
	fail("pcre-double-free", "%s of an object that is not live", what);
}
static Obj rand_obj;

static void proc_reset_pre();

void sim_net_init();

static void cleanup()
{
	heap_clear();
	for (auto c : pcre_codes)
		pcre2_code_free(c);
	for (auto m : pcre_mds)
		pcre2_match_data_free(m);
	pcre_codes.clear();
	pcre_mds.clear();
}

struct RegReset {
	RegReset() { on_reset(cleanup); }
} reg_reset;

} // namespace mc

extern "C" {
void *mc_stdout, *mc_stderr, *mc_stdin;
}

namespace mc {

void sim_init_all()
{
	SS = new SimState();
	MX = new std::map<const void *, Mx>();
	CV = new std::map<const void *, Cv>();
	threads_created = threads_reaped = 0;
	files_open = 0;
	rand_obj.h = 5;
	vf_all = new std::vector<VFile *>();
	vf_out = new VFile{ 0xf11ef11e, 1, "", false, true, false, 0, false, false };
	vf_err = new VFile{ 0xf11ef11e, 2, "", false, true, false, 0, false, false };
	vf_err->buf = 0;
	vf_all->push_back(vf_out);
	vf_all->push_back(vf_err);
	vf_in = new VFile{ 0xf11ef11e, 0, "", true, false, false, 0, false, false };
	mc_stdout = vf_out;
	mc_stderr = vf_err;
	mc_stdin = vf_in;
	sim_net_init();
}

void kill_sut()
{
	for (int i = 0; i < nfibers(); i++) {
		Fiber *f = fiber_by_id(i);
		if (f->kind == FK_SUT && !f->main && f != self() && !f->done) {
			f->done = true;
			absorb(f->h);
		}
	}
}

struct Fd;
[[noreturn]] void exit_fiber()
{
	point("exit", nullptr, [](void *) { return false; }, nullptr);
	abort();
}

void check_no_leaks(const char *sig)
{
	if (live_threads())
		fail(sig, "%d thread(s) were never joined", live_threads());
	if (live_socks())
		fail(sig, "socket(s) left open: %s", describe_live_socks().c_str());
	if (live_files())
		fail(sig, "%d FILE(s) left open", live_files());
	if (live_pcre())
		fail(sig, "%d compiled pattern(s)/match data left", live_pcre());
	if (live_allocs())
		fail(sig, "%zu heap block(s) leaked: %s", live_allocs(), describe_live_allocs().c_str());
}

} // namespace mc

using namespace mc;

extern "C" {

// ---- heap
void *mc_malloc(size_t n) { return sut_alloc(n, false, __builtin_return_address(0)); }
void *mc_realloc(void *p, size_t n);
void *mc_reallocarray(void *p, size_t a, size_t b)
{
	if (b && a > (size_t)-1 / b) {
		errno = ENOMEM;
		return nullptr;
	}
	return mc_realloc(p, a * b);
}
void *mc_calloc(size_t a, size_t b)
{
	if (b && a > (size_t)-1 / b) {
		errno = ENOMEM;
		return nullptr;
	}
	return sut_alloc(a * b, true, __builtin_return_address(0));
}
void mc_free(void *p) { sut_free(p); }
void *mc_realloc(void *p, size_t n)
{
	if (!p)
		return sut_alloc(n, false, __builtin_return_address(0));
	if (n == 0) {
		sut_free(p);
		return nullptr;
	}
	void *q = sut_alloc(n, false, __builtin_return_address(0));
	if (!q)
		return nullptr;
	size_t m = heap_tab.size() - 1, i = hslot(p) & m, on = 0;
	while (heap_tab[i].p && heap_tab[i].p != p)
		i = (i + 1) & m;
	if (!heap_tab[i].p)
		fail("bad-free", "realloc of a pointer that is not a live allocation");
	on = heap_tab[i].n;
	memcpy(q, p, on < n ? on : n);
	sut_free(p);
	return q;
}
char *mc_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = (char *)sut_alloc(n, false, __builtin_return_address(0));
	if (p)
		memcpy(p, s, n);
	return p;
}
char *mc_strndup(const char *s, size_t k)
{
	size_t n = strnlen(s, k);
	char *p = (char *)sut_alloc(n + 1, false, __builtin_return_address(0));
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}
int mc_posix_memalign(void **r, size_t, size_t n)
{
	void *p = sut_alloc(n, false, __builtin_return_address(0));
	if (!p)
		return ENOMEM;
	*r = p;
	return 0;
}
int mc_vasprintf(char **r, const char *fmt, va_list ap)
{
	va_list c;
	va_copy(c, ap);
	int n = vsnprintf(nullptr, 0, fmt, c);
	va_end(c);
	char *p = (char *)sut_alloc(n + 1, false, __builtin_return_address(0));
	if (!p)
		return -1;
	vsnprintf(p, n + 1, fmt, ap);
	*r = p;
	return n;
}
int mc_asprintf(char **r, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int n = mc_vasprintf(r, fmt, ap);
	va_end(ap);
	return n;
}

// ---- mutexes
int mc_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	check_addr(m, "mutex_init");
	if (fault(F_PTHREAD, 2, "mutex_init"))
		return ENOMEM;
	auto it = MX->find(m);
	if (it != MX->end() && !it->second.destroyed)
		fail("mutex-reinit", "pthread_mutex_init of a mutex that is already initialised");
	MX->erase(m);
	Mx &x = mx_get(m, "mutex_init");
	if (a) {
		int t = 0;
		pthread_mutexattr_gettype(a, &t);
		if (t == PTHREAD_MUTEX_RECURSIVE)
			x.recursive = 1;
	}
	return 0;
}
int mc_pthread_mutex_destroy(pthread_mutex_t *m)
{
	Mx &x = mx_get(m, "mutex_destroy");
	if (x.owner >= 0)
		fail("destroy-locked", "pthread_mutex_destroy of a locked mutex");
	touch(x.o, 9);
	x.destroyed = true;
	return 0;
}
int mc_pthread_mutex_lock(pthread_mutex_t *m)
{
	do_lock(m);
	return 0;
}
int mc_pthread_mutex_trylock(pthread_mutex_t *m)
{
	Mx &x = mx_get(m, "trylock");
	point("trylock", m);
	if (x.recursive && x.owner == self()->id) {
		x.count++;
		return 0;
	}
	if (x.owner >= 0) {
		touch(x.o, 6);
		return EBUSY;
	}
	mx_acquire(m, x);
	return 0;
}
int mc_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	Mx &x = mx_get(m, "timedlock");
	u64 d = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
	if (point("timedlock", m, mx_free, &x, d ? d : 1))
		return ETIMEDOUT;
	mx_acquire(m, x);
	return 0;
}
int mc_pthread_mutex_unlock(pthread_mutex_t *m) { return do_unlock(m); }

// ---- rwlocks
int mc_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *)
{
	check_addr(m, "rwlock_init");
	if (fault(F_PTHREAD, 2, "rwlock_init"))
		return ENOMEM;
	MX->erase(m);
	mx_get(m, "rwlock_init").kind = 1;
	return 0;
}
int mc_pthread_rwlock_destroy(pthread_rwlock_t *m)
{
	Mx &x = mx_get(m, "rwlock_destroy");
	if (x.owner >= 0 || x.readers)
		fail("destroy-locked", "pthread_rwlock_destroy of a locked rwlock");
	x.destroyed = true;
	return 0;
}
int mc_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
	Mx &x = mx_get(m, "rdlock");
	point("rdlock", m, [](void *a) { return ((Mx *)a)->owner < 0; }, &x);
	x.readers++;
	touch(x.o, 7);
	race_acquire(m);
	return 0;
}
int mc_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
	Mx &x = mx_get(m, "wrlock");
	point("wrlock", m, mx_free, &x);
	mx_acquire(m, x);
	race_acquire((char *)m + 1);
	return 0;
}
int mc_pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
	Mx &x = mx_get(m, "tryrdlock");
	point("tryrdlock", m);
	if (x.owner >= 0)
		return EBUSY;
	x.readers++;
	touch(x.o, 7);
	race_acquire(m);
	return 0;
}
int mc_pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
	Mx &x = mx_get(m, "trywrlock");
	point("trywrlock", m);
	if (x.owner >= 0 || x.readers)
		return EBUSY;
	mx_acquire(m, x);
	race_acquire((char *)m + 1);
	return 0;
}
int mc_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
	Mx &x = mx_get(m, "rwunlock");
	if (x.owner == self()->id) {
		x.owner = -1;
		race_release(m);
	} else if (x.readers > 0) {
		x.readers--;
		race_release((char *)m + 1);
	} else
		fail("bad-unlock", "unlock of a rwlock that is not held");
	touch(x.o, 8);
	return 0;
}

// ---- semaphores
int mc_sem_init(sem_t *s, int, unsigned v)
{
	if (fault(F_PTHREAD, 2, "sem_init")) {
		errno = ENOSPC;
		return -1;
	}
	MX->erase(s);
	Mx &x = mx_get(s, "sem_init");
	x.kind = 2;
	x.count = v;
	return 0;
}
int mc_sem_destroy(sem_t *s)
{
	mx_get(s, "sem_destroy").destroyed = true;
	return 0;
}
int mc_sem_wait(sem_t *s)
{
	Mx &x = mx_get(s, "sem_wait");
	point("sem_wait", s, [](void *a) { return ((Mx *)a)->count > 0; }, &x);
	x.count--;
	touch(x.o, 10);
	race_acquire(s);
	return 0;
}
int mc_sem_post(sem_t *s)
{
	Mx &x = mx_get(s, "sem_post");
	point("sem_post", s);
	x.count++;
	touch(x.o, 11);
	race_release(s);
	return 0;
}

int mc_sem_trywait(sem_t *s)
{
	Mx &x = mx_get(s, "sem_trywait");
	point("sem_trywait", s);
	touch(x.o, 10);
	if (!x.count) {
		errno = EAGAIN;
		return -1;
	}
	x.count--;
	race_acquire(s);
	return 0;
}
int mc_sem_timedwait(sem_t *s, const struct timespec *ts)
{
	Mx &x = mx_get(s, "sem_timedwait");
	u64 d = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
	if (point("sem_timedwait", s, [](void *a) { return ((Mx *)a)->count > 0; }, &x, d ? d : 1)) {
		errno = ETIMEDOUT;
		return -1;
	}
	x.count--;
	touch(x.o, 10);
	race_acquire(s);
	return 0;
}
int mc_sem_getvalue(sem_t *s, int *v)
{
	Mx &x = mx_get(s, "sem_getvalue");
	point("sem_getvalue", s);
	touch(x.o, 12);
	*v = (int)x.count;
	return 0;
}

// ---- spin locks, once
int mc_pthread_spin_init(pthread_spinlock_t *m, int)
{
	MX->erase((void *)m);
	mx_get((void *)m, "spin_init");
	return 0;
}
int mc_pthread_spin_destroy(pthread_spinlock_t *m)
{
	mx_get((void *)m, "spin_destroy").destroyed = true;
	return 0;
}
int mc_pthread_spin_lock(pthread_spinlock_t *m)
{
	Mx &x = mx_get((void *)m, "spin_lock");
	point("spin_lock", (void *)m, mx_free, &x);
	mx_acquire((void *)m, x);
	race_acquire((void *)m);
	return 0;
}
int mc_pthread_spin_trylock(pthread_spinlock_t *m)
{
	Mx &x = mx_get((void *)m, "spin_trylock");
	point("spin_trylock", (void *)m);
	if (x.owner >= 0) {
		touch(x.o, 6);
		return EBUSY;
	}
	mx_acquire((void *)m, x);
	race_acquire((void *)m);
	return 0;
}
int mc_pthread_spin_unlock(pthread_spinlock_t *m)
{
	Mx &x = mx_get((void *)m, "spin_unlock");
	if (x.owner != self()->id)
		fail("bad-unlock", "unlock of a spin lock that is not held");
	x.owner = -1;
	race_release((void *)m);
	touch(x.o, 8);
	return 0;
}
int mc_pthread_once(pthread_once_t *o, void (*fn)(void))
{
	int *st = (int *)o; // 0 initially, 1 running, 2 done
	point("once", o, [](void *a) { return *(int *)a != 1; }, o);
	if (*st == 0) {
		*st = 1;
		fn();
		race_release(o);
		point("once-done", o);
		*st = 2;
	}
	race_acquire(o);
	touch(g_clock_obj, 0x0c);
	return 0;
}

// ---- condition variables
int mc_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *)
{
	check_addr(c, "cond_init");
	if (fault(F_PTHREAD, 2, "cond_init"))
		return ENOMEM;
	auto it = CV->find(c);
	if (it != CV->end() && !it->second.destroyed && !it->second.w.empty())
		fail("cond-reinit", "pthread_cond_init of a condition variable with waiters");
	CV->erase(c);
	cv_get(c, "cond_init");
	return 0;
}
int mc_pthread_cond_destroy(pthread_cond_t *c)
{
	Cv &v = cv_get(c, "cond_destroy");
	for (auto w : v.w)
		if (!w->woken)
			fail("destroy-waited", "pthread_cond_destroy with a thread waiting");
	touch(v.o, 9);
	v.destroyed = true;
	return 0;
}
int mc_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return do_cond_wait(c, m, 0); }
int mc_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		return EINVAL;
	u64 d = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
	return do_cond_wait(c, m, d ? d : 1);
}
int mc_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts)
{
	return mc_pthread_cond_timedwait(c, m, ts);
}
int mc_pthread_cond_signal(pthread_cond_t *c) { return do_wake(c, false); }
int mc_pthread_cond_broadcast(pthread_cond_t *c) { return do_wake(c, true); }
int mc_pthread_condattr_init(pthread_condattr_t *a) { return pthread_condattr_init(a); }
int mc_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { return pthread_condattr_setclock(a, c); }
int mc_pthread_condattr_destroy(pthread_condattr_t *a) { return pthread_condattr_destroy(a); }

// ---- threads
static int attr_live;
int mc_pthread_attr_init(pthread_attr_t *a)
{
	if (fault(F_PTHREAD, 2, "attr_init"))
		return ENOMEM;
	memset(a, 0, sizeof *a);
	return 0;
}
int mc_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int mc_pthread_attr_setstacksize(pthread_attr_t *, size_t n)
{
	if (n < 16384)
		return EINVAL;
	if (fault(F_PTHREAD, 2, "attr_setstacksize"))
		return EINVAL;
	return 0;
}
int mc_pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; }
int mc_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a)
{
	(void)attr_live;
	if (fault(F_PTHREAD, 2, "pthread_create"))
		return EAGAIN;
	Fiber *n = spawn_thread(f, a);
	threads_created++;
	*t = TBASE + n->id;
	return 0;
}
} // extern "C"
namespace mc {
// Signals.  Disposition of a signal nobody blocks: true if a handler has to run.
static bool sim_sig_disp(int sig)
{
	void *h = SS->proc.handlers.count(sig) ? SS->proc.handlers[sig] : nullptr;
	if (h == (void *)SIG_IGN)
		return false;
	if (h)
		return true;
	if (!SS->on_exit_allowed)
		fail("killed", "signal %d terminates the process", sig);
	TR("process killed by signal %d", sig);
	SS->proc.exited = true;
	SS->proc.code = -1000 - sig;
	kill_sut();
	self()->done = self()->kind == FK_SUT && !self()->main ? true : self()->done;
	return false;
}
static int sim_sig_arrive(int sig)
{
	if (SS->proc.exited)
		return -1;
	Fiber *waiter = nullptr;
	for (int i = 0; i < nfibers(); i++) {
		Fiber *f = fiber_by_id(i);
		if (f->kind != FK_SUT || f->main || !f->live || f->done)
			continue;
		if (f->sigwaiting >> sig & 1)
			waiter = f;
	}
	void *h = SS->proc.handlers.count(sig) ? SS->proc.handlers[sig] : nullptr;
	if (!waiter)
		for (int i = 0; i < nfibers(); i++) {
			Fiber *f = fiber_by_id(i);
			if (f->kind != FK_SUT || f->main || !f->live || f->done || f->in_handler || f->deliver)
				continue;
			if (f->sigmask >> sig & 1)
				continue;
			return sim_sig_disp(sig) ? f->id : -1;
		}
	if (h == (void *)SIG_IGN)
		return -1;
	SS->proc.pending |= 1ull << sig;
	g_ext_key = mix(g_ext_key, sig);
	return -1;
}
static bool sim_sig_handle(int sig)
{
	void *h = SS->proc.handlers[sig];
	int e = errno;
	if (SS->proc.siginfo[sig]) {
		siginfo_t si;
		memset(&si, 0, sizeof si);
		si.si_signo = sig;
		((void (*)(int, siginfo_t *, void *))h)(sig, &si, nullptr);
	} else
		((void (*)(int))h)(sig);
	errno = e;
	return !SS->proc.restart[sig];
}
void engine_restore_data();
void net_new_process();
void sim_new_process()
{
	engine_restore_data();
	SS->proc = Proc();
	net_new_process();
}
static int sim_sig_next(Fiber *f)
{
	for (int i = 1; i < 64; i++)
		for (u64 *m : { &SS->proc.tpending[f->id], &SS->proc.pending })
			if ((*m & ~f->sigmask) >> i & 1) {
				*m &= ~(1ull << i);
				g_ext_key = mix(g_ext_key, i + 100);
				if (sim_sig_disp(i))
					return i;
			}
	return 0;
}
void sim_signals(const int *sigs, int n)
{
	signal_hooks(sim_sig_arrive, sim_sig_handle, sim_sig_next);
	signals_enable(sigs, n);
}
} // namespace mc
extern "C" {
static Fiber *thr(pthread_t t, const char *what)
{
	Fiber *f = t >= TBASE ? fiber_by_id((int)(t - TBASE)) : nullptr;
	if (!f || f->main)
		fail("bad-thread", "%s of an invalid thread", what);
	return f;
}
int mc_pthread_join(pthread_t t, void **r)
{
	Fiber *f = thr(t, "join");
	if (f->joined || f->detached)
		fail("double-join", "pthread_join of a thread that was already joined or detached");
	if (f == self())
		return EDEADLK;
	point("pthread_join", f, [](void *a) { return ((Fiber *)a)->done; }, f);
	absorb(f->h);
	race_join(f);
	f->joined = true;
	threads_reaped++;
	if (r)
		*r = f->ret;
	return 0;
}
int mc_pthread_detach(pthread_t t)
{
	Fiber *f = thr(t, "detach");
	f->detached = true;
	threads_reaped++;
	return 0;
}
pthread_t mc_pthread_self(void) { return TBASE + self()->id; }
int mc_sched_yield(void)
{
	yield_point("sched_yield");
	return 0;
}

// ---- time
time_t mc_time(time_t *t)
{
	absorb(g_clock_obj.h);
	time_t v = vnow() / 1000000000ull;
	if (t)
		*t = v;
	return v;
}
int mc_clock_gettime(clockid_t, struct timespec *ts)
{
	absorb(g_clock_obj.h);
	ts->tv_sec = vnow() / 1000000000ull;
	ts->tv_nsec = vnow() % 1000000000ull;
	return 0;
}
int mc_gettimeofday(struct timeval *tv, void *)
{
	absorb(g_clock_obj.h);
	tv->tv_sec = vnow() / 1000000000ull;
	tv->tv_usec = vnow() % 1000000000ull / 1000;
	return 0;
}
static bool never(void *) { return false; }
int mc_usleep(unsigned us)
{
	point("usleep", nullptr, never, nullptr, vnow() + (u64)us * 1000 + 1, true);
	if (was_interrupted()) {
		errno = EINTR;
		return -1;
	}
	return 0;
}
int mc_nanosleep(const struct timespec *a, struct timespec *)
{
	point("nanosleep", nullptr, never, nullptr, vnow() + a->tv_sec * 1000000000ull + a->tv_nsec + 1, true);
	if (was_interrupted()) {
		errno = EINTR;
		return -1;
	}
	return 0;
}
unsigned mc_sleep(unsigned s)
{
	point("sleep", nullptr, never, nullptr, vnow() + s * 1000000000ull + 1, true);
	return was_interrupted() ? 1 : 0;
}
int mc_pause(void)
{
	point("pause", nullptr, never, nullptr, 0, true);
	errno = EINTR;
	return -1;
}
struct tm *mc_localtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); }
// these return or keep something in static memory, which all threads share
struct tm *mc_localtime(const time_t *t)
{
	static struct tm r;
	race_range(&r, sizeof r, true, __builtin_return_address(0));
	return gmtime_r(t, &r);
}
struct tm *mc_gmtime(const time_t *t)
{
	static struct tm r;
	race_range(&r, sizeof r, true, __builtin_return_address(0));
	return gmtime_r(t, &r);
}
char *mc_asctime(const struct tm *t)
{
	static char r[64];
	race_range(&r, sizeof r, true, __builtin_return_address(0));
	return asctime_r(t, r);
}
char *mc_ctime(const time_t *t)
{
	static char r[64];
	struct tm m;
	race_range(&r, sizeof r, true, __builtin_return_address(0));
	return asctime_r(gmtime_r(t, &m), r);
}
char *mc_strtok(char *s, const char *d)
{
	static char *save;
	race_range(&save, sizeof save, true, __builtin_return_address(0));
	return strtok_r(s, d, &save);
}
char *mc_inet_ntoa(struct in_addr a)
{
	static char r[16];
	race_range(&r, sizeof r, true, __builtin_return_address(0));
	const u8 *b = (const u8 *)&a;
	snprintf(r, sizeof r, "%u.%u.%u.%u", b[0], b[1], b[2], b[3]);
	return r;
}

// ---- randomness
static u32 next_rand()
{
	touch(rand_obj, 0x7a);
	u32 v;
	if (SS->rand_i < SS->rand_script.size())
		v = SS->rand_script[SS->rand_i];
	else
		v = (u32)(mix(SS->rand_seed, ++SS->rand_k) & 0x7fffffff);
	SS->rand_i++;
	SS->rand_given.push_back(v);
	return v;
}
static void reseed(unsigned s)
{
	touch(rand_obj, 0x7b);
	SS->rand_seed = s; // the sequence starts again
	SS->rand_k = 0;
}
void mc_srand(unsigned s) { reseed(s); }
void mc_srandom(unsigned s) { reseed(s); }
int mc_rand(void) { return (int)next_rand(); }
long mc_random(void) { return (long)next_rand(); }
int mc_rand_r(unsigned *) { return (int)next_rand(); }
ssize_t mc_getrandom(void *p, size_t n, unsigned)
{
	for (size_t i = 0; i < n;) {
		u32 v = next_rand();
		size_t k = n - i < 4 ? n - i : 4;
		memcpy((char *)p + i, &v, k);
		i += k;
	}
	return n;
}
int mc_getentropy(void *p, size_t n)
{
	mc_getrandom(p, n, 0);
	return 0;
}

// ---- stdio
void *mc_fopen(const char *path, const char *mode)
{
	int e = fault(F_FILE, 3, "fopen");
	if (e) {
		errno = e == 1 ? EACCES : EMFILE;
		return nullptr;
	}
	auto fe = SS->file_errs.find(path);
	if (fe != SS->file_errs.end()) {
		errno = fe->second;
		return nullptr;
	}
	bool ex = SS->files.count(path) > 0;
	VFile *f = new VFile{ 0xf11ef11e, 3, path, false, false, false, 0, false, false };
	f->o.h = mix(self() ? self()->h : 0, 0xf11e + (self() ? self()->nobj++ : 0));
	vf_all->push_back(f);
	if (mode[0] == 'r') {
		if (!ex) {
			errno = ENOENT;
			return nullptr;
		}
		f->rd = true;
		f->wr = strchr(mode, '+') != nullptr;
	} else if (mode[0] == 'w') {
		SS->files[path] = "";
		f->wr = true;
	} else {
		SS->files[path];
		f->wr = f->append = true;
	}
	files_open++;
	return f;
}
int mc_fclose(void *p)
{
	VFile *f = vf(p, "fclose");
	vf_point(f, "fclose");
	vf_commit(f);
	if (f->kind == 3)
		files_open--;
	f->magic = 0xdeadf11e;
	return 0;
}
int mc_fflush(void *p)
{
	if (p) {
		vf_point(vf(p, "fflush"), "fflush");
		vf_commit(vf(p, "fflush"));
	} else
		sim_flush_all();
	return 0;
}
void mc_flockfile(void *p)
{
	VFile *f = vf(p, "flockfile");
	VfArg a{ f, self()->id };
	point("flockfile", f, vf_can, &a);
	touch(f->o, 0x11);
	f->owner = self()->id;
	f->depth++;
}
int mc_ftrylockfile(void *p)
{
	VFile *f = vf(p, "ftrylockfile");
	if (f->owner >= 0 && f->owner != self()->id)
		return 1;
	mc_flockfile(p);
	return 0;
}
void mc_funlockfile(void *p)
{
	VFile *f = vf(p, "funlockfile");
	if (f->owner != self()->id)
		fail("flockfile", "funlockfile by a thread which doesn't hold the lock");
	touch(f->o, 0x12);
	if (--f->depth == 0)
		f->owner = -1;
}
int mc_fgetc(void *p) { return vf_getc(vf(p, "fgetc")); }
int mc_getc(void *p) { return mc_fgetc(p); }
int mc_ungetc(int c, void *p)
{
	VFile *f = vf(p, "ungetc");
	if (c == EOF || f->back != EOF || !f->rd)
		return EOF;
	f->back = (unsigned char)c;
	f->eof = false;
	return f->back;
}
char *mc_fgets(char *b, int n, void *p)
{
	VFile *f = vf(p, "fgets");
	int i = 0;
	if (n <= 0)
		return nullptr;
	if (n == 1) {
		*b = 0;
		return b;
	}
	while (i + 1 < n) {
		int c = vf_getc(f);
		if (c == EOF)
			break;
		b[i++] = (char)c;
		if (c == '\n')
			break;
	}
	if (i == 0)
		return nullptr;
	b[i] = 0;
	return b;
}
ssize_t mc_getline(char **lp, size_t *n, void *p)
{
	VFile *f = vf(p, "getline");
	std::string s;
	for (;;) {
		int c = vf_getc(f);
		if (c == EOF)
			break;
		s += (char)c;
		if (c == '\n')
			break;
	}
	if (s.empty())
		return -1;
	if (!*lp || *n < s.size() + 1) {
		char *q = (char *)mc_realloc(*lp, s.size() + 1);
		if (!q)
			return -1;
		*lp = q;
		*n = s.size() + 1;
	}
	memcpy(*lp, s.c_str(), s.size() + 1);
	return s.size();
}
ssize_t mc_getdelim(char **lp, size_t *n, int d, void *p)
{
	VFile *f = vf(p, "getdelim");
	std::string s;
	for (;;) {
		int c = vf_getc(f);
		if (c == EOF)
			break;
		s += (char)c;
		if (c == d)
			break;
	}
	if (s.empty())
		return -1;
	if (!*lp || *n < s.size() + 1) {
		char *q = (char *)mc_realloc(*lp, s.size() + 1);
		if (!q)
			return -1;
		*lp = q;
		*n = s.size() + 1;
	}
	memcpy(*lp, s.c_str(), s.size() + 1);
	return s.size();
}
int mc_fseek(void *p, long off, int whence)
{
	VFile *f = vf(p, "fseek");
	vf_commit(f);
	long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)f->pos - (f->back != EOF) : (long)SS->files[f->path].size();
	if (f->kind != 3 || base + off < 0) {
		errno = f->kind != 3 ? ESPIPE : EINVAL;
		return -1;
	}
	f->pos = (size_t)(base + off);
	f->back = EOF;
	f->eof = false;
	return 0;
}
long mc_ftell(void *p)
{
	VFile *f = vf(p, "ftell");
	vf_commit(f);
	return (long)f->pos - (f->back != EOF);
}
void mc_rewind(void *p)
{
	mc_fseek(p, 0, SEEK_SET);
	vf(p, "rewind")->err = false;
}
size_t mc_fread(void *b, size_t sz, size_t n, void *p)
{
	VFile *f = vf(p, "fread");
	size_t i = 0;
	for (; i < sz * n; i++) {
		int c = vf_getc(f);
		if (c == EOF)
			break;
		((char *)b)[i] = (char)c;
	}
	return sz ? i / sz : 0;
}
int mc_feof(void *p) { return vf(p, "feof")->eof; }
int mc_ferror(void *p) { return vf(p, "ferror")->err; }
void mc_clearerr(void *p)
{
	VFile *f = vf(p, "clearerr");
	f->eof = f->err = false;
}
int mc_fileno(void *p) { return vf(p, "fileno")->kind == 3 ? 900 : vf(p, "fileno")->kind; }
int mc_setvbuf(void *p, char *, int mode, size_t)
{
	vf(p, "setvbuf")->buf = mode == _IONBF ? 0 : mode == _IOLBF ? 1 : 2;
	return 0;
}
void mc_setbuf(void *p, char *b) { vf(p, "setbuf")->buf = b ? 2 : 0; }
int mc_vfprintf(void *p, const char *fmt, va_list ap) { return vf_vprintf(vf(p, "vfprintf"), fmt, ap); }
int mc_fprintf(void *p, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = mc_vfprintf(p, fmt, ap);
	va_end(ap);
	return r;
}
int mc_vprintf(const char *fmt, va_list ap) { return vf_vprintf(vf_out, fmt, ap); }
int mc_printf(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = mc_vprintf(fmt, ap);
	va_end(ap);
	return r;
}
int mc_puts(const char *s)
{
	std::string t = std::string(s) + "\n";
	return vf_write(vf_out, t.data(), t.size());
}
int mc_fputs(const char *s, void *p) { return vf_write(vf(p, "fputs"), s, strlen(s)); }
int mc_fputc(int c, void *p)
{
	char b = (char)c;
	return vf_write(vf(p, "fputc"), &b, 1) < 0 ? EOF : c;
}
int mc_putc(int c, void *p) { return mc_fputc(c, p); }
int mc_putchar(int c) { return mc_fputc(c, vf_out); }
size_t mc_fwrite(const void *b, size_t s, size_t n, void *p)
{
	return vf_write(vf(p, "fwrite"), (const char *)b, s * n) < 0 ? 0 : n;
}
void mc_perror(const char *s) { mc_fprintf(vf_err, "%s: %s\n", s, strerror(errno)); }

// ---- syslog
void mc_openlog(const char *, int, int)
{
	SS->syslog_open = true;
	SS->syslog_opens++;
}
void mc_closelog(void)
{
	SS->syslog_open = false;
	SS->syslog_closes++;
}
void mc_vsyslog(int pri, const char *fmt, va_list ap)
{
	char b[512];
	va_list ap2;
	va_copy(ap2, ap);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	char *t = b;
	if (n >= (int)sizeof b) {
		t = (char *)arena_alloc(n + 1);
		vsnprintf(t, n + 1, fmt, ap2);
	}
	va_end(ap2);
	if (SS->stdio_points)
		yield_point("syslog");
	emit(4, SS->syslog_open ? "open" : "closed", t, strlen(t), pri);
}
void mc_syslog(int pri, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	mc_vsyslog(pri, fmt, ap);
	va_end(ap);
}

// ---- pcre2
pcre2_code *mc_pcre2_compile_8(PCRE2_SPTR p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *off, pcre2_compile_context *c)
{
	if (fault(F_PCRE, 2, "pcre2_compile")) {
		*e = 121;
		*off = 0;
		return nullptr;
	}
	pcre2_code *r = pcre2_compile(p, n, o, e, off, c);
	if (r) {
		pcre_codes.push_back(r);
		race_range(r, 8, true, __builtin_return_address(0));
	}
	return r;
}
void mc_pcre2_code_free_8(pcre2_code *c)
{
	if (c)
		vremove(pcre_codes, c, "pcre2_code_free");
	if (c)
		race_free(c, 8);
	pcre2_code_free(c);
}
pcre2_match_data *mc_pcre2_match_data_create_from_pattern_8(const pcre2_code *c, pcre2_general_context *g)
{
	if (fault(F_PCRE, 2, "pcre2_match_data_create"))
		return nullptr;
	pcre2_match_data *r = pcre2_match_data_create_from_pattern(c, g);
	if (r)
		pcre_mds.push_back(r);
	return r;
}
pcre2_match_data *mc_pcre2_match_data_create_8(uint32_t n, pcre2_general_context *g)
{
	if (fault(F_PCRE, 2, "pcre2_match_data_create"))
		return nullptr;
	pcre2_match_data *r = pcre2_match_data_create(n, g);
	if (r)
		pcre_mds.push_back(r);
	return r;
}
void mc_pcre2_match_data_free_8(pcre2_match_data *m)
{
	if (m)
		vremove(pcre_mds, m, "pcre2_match_data_free");
	if (m)
		race_free(m, 32);
	pcre2_match_data_free(m);
}
int mc_pcre2_match_8(const pcre2_code *c, PCRE2_SPTR s, PCRE2_SIZE n, PCRE2_SIZE st, uint32_t o, pcre2_match_data *m,
		     pcre2_match_context *x)
{
	if (fault(F_PCRE, 2, "pcre2_match"))
		return PCRE2_ERROR_MATCHLIMIT;
	// the pattern is shared, the place for the result is not
	race_range(c, 8, false, __builtin_return_address(0));
	if (m)
		race_range(m, 32, true, __builtin_return_address(0));
	return pcre2_match(c, s, n, st, o, m, x);
}

// ---- process
static void sim_exit(int code, bool flush)
{
	SS->proc.exited = true;
	SS->proc.code = code;
	if (flush)
		sim_flush_all();
	TR("exit(%d)", code);
	if (!SS->on_exit_allowed)
		fail("exit", "the library called exit(%d)", code);
	kill_sut();
	self()->quiescing = false;
	Fiber *me = self();
	me->done = true;
	me->op = "exited process";
	point("exit", nullptr, never, nullptr);
	abort();
}
void mc_exit(int code) { sim_exit(code, true); }
void mc__exit(int code) { sim_exit(code, false); }
void mc_abort(void) { fail("abort", "the code under test called abort()"); }
pid_t mc_fork(void)
{
	SS->proc.forks++;
	int k = SS->proc.fork_result >= 0 ? SS->proc.fork_result : choose(3, "fork");
	SS->proc.fork_result = k;
	if (k == 0) {
		SS->proc.daemonized = true;
		SS->proc.faults_at_fork = faults_taken();
		SS->proc.pending = 0;
		kill_sut(); // only the calling thread exists in the child
		return 0;
	}
	if (k == 1)
		return 4242;
	errno = EAGAIN;
	return -1;
}
pid_t mc_setsid(void)
{
	if (fault(F_PROC, 2, "setsid")) {
		errno = EPERM;
		return -1;
	}
	SS->proc.detached = true;
	return 4243;
}
int mc_chdir(const char *p)
{
	if (fault(F_PROC, 2, "chdir")) {
		errno = ENOENT;
		return -1;
	}
	SS->proc.cwd = p;
	return 0;
}
mode_t mc_umask(mode_t) { return 022; }
int mc_access(const char *p, int)
{
	if (SS->files.count(p) && !SS->access_err.count(p))
		return 0;
	errno = ENOENT;
	return -1;
}
int mc_sigaction(int sig, const struct sigaction *a, struct sigaction *)
{
	point("sigaction", nullptr);
	if (a) {
		SS->proc.handlers[sig] = (a->sa_flags & SA_SIGINFO) ? (void *)a->sa_sigaction : (void *)a->sa_handler;
		SS->proc.siginfo[sig] = (a->sa_flags & SA_SIGINFO) != 0;
		SS->proc.restart[sig] = (a->sa_flags & SA_RESTART) != 0;
	}
	return 0;
}
void *mc_signal(int sig, void *h)
{
	point("signal", nullptr);
	void *o = SS->proc.handlers[sig];
	SS->proc.handlers[sig] = h;
	SS->proc.siginfo[sig] = false;
	SS->proc.restart[sig] = true;
	return o;
}
int mc_sigemptyset(sigset_t *s) { return sigemptyset(s); }

static u64 bits(const sigset_t *s)
{
	u64 r = 0;
	for (int i = 1; i < 64; i++)
		if (sigismember(s, i) == 1)
			r |= 1ull << i;
	return r;
}
static void pend(u64 &m, int sig)
{
	m |= 1ull << sig;
	g_ext_key = mix(g_ext_key, sig);
}
int mc_pthread_sigmask(int how, const sigset_t *s, sigset_t *o)
{
	Fiber *me = self();
	u64 old = me->sigmask;
	if (s) {
		u64 b = bits(s);
		me->sigmask = how == SIG_BLOCK ? old | b : how == SIG_UNBLOCK ? old & ~b : b;
		absorb(mix(me->sigmask, 0x516));
	}
	if (o) {
		sigemptyset(o);
		for (int i = 1; i < 64; i++)
			if (old >> i & 1)
				sigaddset(o, i);
	}
	if (int sig = sim_sig_next(me)) {
		me->deliver = sig;
		point("unblocked signal", nullptr);
	}
	return 0;
}
int mc_sigprocmask(int h, const sigset_t *s, sigset_t *o) { return mc_pthread_sigmask(h, s, o); }
struct SigWait {
	u64 set;
	Fiber *f;
};
static bool sig_ready(void *p)
{
	SigWait *w = (SigWait *)p;
	return ((SS->proc.pending | SS->proc.tpending[w->f->id]) & w->set) != 0;
}
static int sig_take(u64 set, Fiber *f)
{
	for (int i = 1; i < 64; i++)
		for (u64 *m : { &SS->proc.tpending[f->id], &SS->proc.pending })
			if ((*m & set) >> i & 1) {
				*m &= ~(1ull << i);
				g_ext_key = mix(g_ext_key, i + 100);
				absorb(i);
				return i;
			}
	return 0;
}
int mc_sigwait(const sigset_t *s, int *sig)
{
	SigWait w = { bits(s), self() };
	self()->sigwaiting = w.set;
	point("sigwait", nullptr, sig_ready, &w);
	self()->sigwaiting = 0;
	*sig = sig_take(w.set, self());
	return 0;
}
int mc_sigtimedwait(const sigset_t *s, siginfo_t *si, const struct timespec *t)
{
	SigWait w = { bits(s), self() };
	self()->sigwaiting = w.set;
	bool to = point("sigtimedwait", nullptr, sig_ready, &w,
			t ? vnow() + (u64)t->tv_sec * 1000000000ull + t->tv_nsec + 1 : 0);
	self()->sigwaiting = 0;
	if (to && !sig_ready(&w)) {
		errno = EAGAIN;
		return -1;
	}
	int sig = sig_take(w.set, self());
	if (si) {
		memset(si, 0, sizeof *si);
		si->si_signo = sig;
	}
	return sig;
}
int mc_sigwaitinfo(const sigset_t *s, siginfo_t *si) { return mc_sigtimedwait(s, si, nullptr); }
int mc_pthread_kill(pthread_t t, int sig)
{
	Fiber *f = t == TBASE + (pthread_t)self()->id ? self() : thr(t, "pthread_kill");
	point("pthread_kill", f);
	absorb(f->h);
	if (f->done)
		return ESRCH;
	if (!sig)
		return 0;
	if ((f->sigmask >> sig & 1) || (f->sigwaiting >> sig & 1))
		pend(SS->proc.tpending[f->id], sig);
	else if (sim_sig_disp(sig))
		f->deliver = sig;
	if (f == self() && f->deliver)
		point("signal to self", nullptr);
	return 0;
}
int mc_raise(int sig) { return mc_pthread_kill(TBASE + self()->id, sig); }
int mc_kill(pid_t, int sig)
{
	point("kill", nullptr);
	int id = sim_sig_arrive(sig);
	if (id >= 0)
		fiber_by_id(id)->deliver = sig;
	if (id == self()->id)
		point("signal to self", nullptr);
	return 0;
}
} // extern "C"
