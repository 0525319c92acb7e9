// Happens-before data race detection for the code under test, which is compiled with -fsanitize=thread and linked
// with this runtime instead of libtsan.  Vector clocks follow thread creation and joining, mutexes, condition
// variables, rwlocks, semaphores and atomics.  Accesses through volatile are taken for atomic.
#include "engine.h"
#include <sys/wait.h>
#include <unistd.h>
#include <strings.h>
#include <arpa/inet.h>
#include <ctime>

namespace mc {

bool g_race_build = true;

struct Cell {
	u8 mask, fid, wr, used;
	u32 clk;
	u32 pc;
};
static const int NC = 8;
struct Gran {
	u64 key;
	u32 gen;
	Cell c[NC];
};
static const size_t TAB = 1u << 18;
static Gran *tab;
static u32 gen = 1;
static size_t used;

struct SyncVC {
	const void *key;
	u32 gen;
	VC vc;
};
static const size_t STAB = 1u << 12;
static SyncVC *stab;
static u64 n_accesses;

static void joinvc(VC &a, const VC &b)
{
	for (int i = 0; i < MC_MAXFIBER; i++)
		if (b.c[i] > a.c[i])
			a.c[i] = b.c[i];
}

static SyncVC *sync_of(const void *k)
{
	if (!stab)
		stab = (SyncVC *)calloc(STAB, sizeof *stab);
	size_t i = (((uintptr_t)k * 0x9e3779b97f4a7c15ull) >> 40) & (STAB - 1);
	for (size_t n = 0; n < STAB; n++, i = (i + 1) & (STAB - 1)) {
		if (stab[i].gen != gen) {
			memset(&stab[i], 0, sizeof stab[i]);
			stab[i].gen = gen;
			stab[i].key = k;
			return &stab[i];
		}
		if (stab[i].key == k)
			return &stab[i];
	}
	fail("race-table", "too many synchronization objects");
}

void race_fork(Fiber *p, Fiber *c)
{
	memset(&c->vc, 0, sizeof c->vc);
	if (p) {
		c->vc = p->vc;
		p->vc.c[p->id]++;
	}
	c->vc.c[c->id] = 1;
}
void race_join(Fiber *c)
{
	if (self())
		joinvc(self()->vc, c->vc);
}
void race_acquire(const void *k)
{
	if (self())
		joinvc(self()->vc, sync_of(k)->vc);
}
void race_release(const void *k)
{
	Fiber *f = self();
	if (!f)
		return;
	joinvc(sync_of(k)->vc, f->vc);
	f->vc.c[f->id]++;
}
static Obj rp_obj;
void race_reset()
{
	rp_obj.h = 0;
	gen++;
	used = 0;
}

static Gran *gran(u64 key, bool create)
{
	if (!tab)
		tab = (Gran *)calloc(TAB, sizeof *tab);
	size_t i = ((key * 0x9e3779b97f4a7c15ull) >> 44) & (TAB - 1);
	for (;; i = (i + 1) & (TAB - 1)) {
		if (tab[i].gen != gen) {
			if (!create)
				return nullptr;
			if (++used > TAB * 3 / 4)
				fail("race-table", "too much memory in use");
			tab[i].gen = gen;
			tab[i].key = key;
			for (int k = 0; k < NC; k++)
				tab[i].c[k].used = 0;
			return &tab[i];
		}
		if (tab[i].key == key)
			return &tab[i];
	}
}

static std::string where(u32 pc)
{
	char b[256], exe[200];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
	exe[n < 0 ? 0 : n] = 0;
	snprintf(b, sizeof b, "addr2line -f -s -e '%s' 0x%x 2>/dev/null", exe, pc - 1);
	std::string r;
	FILE *f = popen(b, "r");
	if (f) {
		while (fgets(b, sizeof b, f)) {
			b[strcspn(b, "\n")] = 0;
			r += (r.empty() ? "" : " ") + std::string(b);
		}
		pclose(f);
	}
	return r;
}

static void rp_step(bool can_point, u64 op)
{
	if (can_point && !self()->in_handler)
		point("access", &rp_obj);
	touch(rp_obj, op);
}

static void access(u64 a, size_t n, bool wr, u32 pc, bool can_point = true)
{
	Fiber *f = self();
	if (!f)
		return;
	for (int i = 0; i < g_rp_n; i++)
		if (g_rp[i] == pc) {
			rp_step(can_point, wr + 2 * (a & 0xffff));
			break;
		}
	u32 clk = f->vc.c[f->id];
	n_accesses++;
	while (n) {
		u64 key = a >> 3;
		int off = a & 7;
		size_t k = 8 - off < n ? 8 - off : n;
		u8 m = (u8)(((1u << k) - 1) << off);
		Gran *g = gran(key, true);
		int free_i = -1;
		bool have = false;
		for (int i = 0; i < NC; i++) {
			Cell &c = g->c[i];
			if (!c.used) {
				if (free_i < 0)
					free_i = i;
				continue;
			}
			if (!(c.mask & m))
				continue;
			if (c.fid == f->id) {
				if (c.clk == clk && c.wr >= wr && (c.mask & m) == m) {
					have = true;
					continue;
				}
			} else if ((c.wr || wr) && c.clk > f->vc.c[c.fid]) {
				if (g_rp_mode) {
					rp_note(pc);
					rp_note(c.pc);
					continue;
				}
				std::string now = where(pc), before = where(c.pc);
				fail("race", "data race: %s by thread %d (%s) at %s is not ordered with %s by thread %d (%s) at %s", wr ? "write" : "read",
				     f->id, f->name, now.c_str(), c.wr ? "write" : "read", c.fid, fiber_by_id(c.fid)->name, before.c_str());
			}
			// everything before this access is ordered with it
			if (wr || (!c.wr && (c.fid == f->id || c.clk <= f->vc.c[c.fid]))) {
				c.mask &= ~m;
				if (!c.mask) {
					c.used = 0;
					if (free_i < 0)
						free_i = i;
				}
			}
		}
		if (!have) {
			if (free_i < 0)
				free_i = clk % NC;
			g->c[free_i] = Cell{ m, (u8)f->id, (u8)wr, 1, clk, pc };
		}
		a += k;
		n -= k;
	}
}

void race_range(const void *p, size_t n, bool wr, const void *pc) { access((u64)(uintptr_t)p, n, wr, (u32)(uintptr_t)pc, false); }

void race_free(void *p, size_t n)
{
	u64 a = (u64)(uintptr_t)p;
	access(a, n, true, (u32)(uintptr_t)__builtin_return_address(0), false);
	for (u64 k = a >> 3; k <= (a + n - 1) >> 3 && n; k++)
		if (Gran *g = gran(k, false))
			for (int i = 0; i < NC; i++)
				g->c[i].used = 0;
}

} // namespace mc

using namespace mc;
#define PC ((u32)(uintptr_t)__builtin_return_address(0))
// volatile and atomic accesses
static void rp_any()
{
	if (g_rp_mode && self())
		rp_step(true, 3);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n)                                                                                                           \
	void __tsan_read##n(void *p) { access((u64)p, n, false, PC); }                                                  \
	void __tsan_write##n(void *p) { access((u64)p, n, true, PC); }                                                  \
	void __tsan_volatile_read##n(void *) { rp_any(); }                                                              \
	void __tsan_volatile_write##n(void *) { rp_any(); }                                                             \
	void __tsan_unaligned_read##n(void *p) { access((u64)p, n, false, PC); }                                        \
	void __tsan_unaligned_write##n(void *p) { access((u64)p, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, size_t n) { access((u64)p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((u64)p, n, true, PC); }

static void atomic_step(const volatile void *p)
{
	rp_any();
	race_acquire((const void *)p);
	race_release((const void *)p);
}
#define ATOMIC(b, T)                                                                                                                     \
	T __tsan_atomic##b##_load(const volatile T *p, int) { return atomic_step(p), *p; }                                               \
	void __tsan_atomic##b##_store(volatile T *p, T v, int) { atomic_step(p), *p = v; }                                               \
	T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { atomic_step(p); T o = *p; *p = v; return o; }                           \
	T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { atomic_step(p); T o = *p; *p = o + v; return o; }                      \
	T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { atomic_step(p); T o = *p; *p = o - v; return o; }                      \
	T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { atomic_step(p); T o = *p; *p = o & v; return o; }                      \
	T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { atomic_step(p); T o = *p; *p = o | v; return o; }                       \
	T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { atomic_step(p); T o = *p; *p = o ^ v; return o; }                      \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int)                                               \
	{                                                                                                                                \
		atomic_step(p);                                                                                                          \
		if (*p == *e) {                                                                                                          \
			*p = v;                                                                                                          \
			return 1;                                                                                                        \
		}                                                                                                                        \
		*e = *p;                                                                                                                 \
		return 0;                                                                                                                \
	}                                                                                                                                \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c)                                             \
	{                                                                                                                                \
		return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c);                                                        \
	}
ATOMIC(8, u8)
ATOMIC(16, u16)
ATOMIC(32, u32)
ATOMIC(64, u64)
static char fence_key;
void __tsan_atomic_thread_fence(int) { atomic_step(&fence_key); }
void __tsan_atomic_signal_fence(int) {}

// plain memory functions called by the code under test
void *mc_memcpy(void *d, const void *s, size_t n)
{
	access((u64)s, n, false, PC);
	access((u64)d, n, true, PC);
	return memcpy(d, s, n);
}
void *mc_memmove(void *d, const void *s, size_t n)
{
	access((u64)s, n, false, PC);
	access((u64)d, n, true, PC);
	return memmove(d, s, n);
}
void *mc_memset(void *d, int c, size_t n)
{
	access((u64)d, n, true, PC);
	return memset(d, c, n);
}
int mc_memcmp(const void *a, const void *b, size_t n)
{
	access((u64)a, n, false, PC);
	access((u64)b, n, false, PC);
	return memcmp(a, b, n);
}
size_t mc_strlen(const char *s)
{
	size_t n = strlen(s);
	access((u64)s, n + 1, false, PC);
	return n;
}
int mc_strcmp(const char *a, const char *b)
{
	access((u64)a, strlen(a) + 1, false, PC);
	access((u64)b, strlen(b) + 1, false, PC);
	return strcmp(a, b);
}
int mc_strncmp(const char *a, const char *b, size_t n)
{
	access((u64)a, strnlen(a, n), false, PC);
	access((u64)b, strnlen(b, n), false, PC);
	return strncmp(a, b, n);
}
char *mc_strcpy(char *d, const char *s)
{
	size_t n = strlen(s) + 1;
	access((u64)s, n, false, PC);
	access((u64)d, n, true, PC);
	return strcpy(d, s);
}
char *mc_strncpy(char *d, const char *s, size_t n)
{
	size_t k = strnlen(s, n);
	access((u64)s, k < n ? k + 1 : n, false, PC);
	access((u64)d, n, true, PC);
	return strncpy(d, s, n);
}
int mc_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
	int r = vsnprintf(d, n, f, ap);
	if (r >= 0 && n)
		access((u64)d, (size_t)r + 1 < n ? r + 1 : n, true, PC);
	return r;
}
int mc_snprintf(char *d, size_t n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(d, n, f, ap);
	va_end(ap);
	if (r >= 0 && n)
		access((u64)d, (size_t)r + 1 < n ? r + 1 : n, true, PC);
	return r;
}
int mc_sprintf(char *d, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vsprintf(d, f, ap);
	va_end(ap);
	access((u64)d, r + 1, true, PC);
	return r;
}
char *mc_strcat(char *d, const char *s)
{
	size_t k = strlen(d), n = strlen(s) + 1;
	access((u64)s, n, false, PC);
	access((u64)d, k + n, true, PC);
	return strcat(d, s);
}
char *mc_strncat(char *d, const char *s, size_t n)
{
	size_t k = strlen(d), m = strnlen(s, n);
	access((u64)s, m, false, PC);
	access((u64)d, k + m + 1, true, PC);
	return strncat(d, s, n);
}
char *mc_strchr(const char *s, int c)
{
	access((u64)s, strlen(s) + 1, false, PC);
	return (char *)strchr(s, c);
}
char *mc_strrchr(const char *s, int c)
{
	access((u64)s, strlen(s) + 1, false, PC);
	return (char *)strrchr(s, c);
}
char *mc_strstr(const char *s, const char *t)
{
	access((u64)s, strlen(s) + 1, false, PC);
	access((u64)t, strlen(t) + 1, false, PC);
	return (char *)strstr(s, t);
}
size_t mc_strnlen(const char *s, size_t n)
{
	size_t k = strnlen(s, n);
	access((u64)s, k < n ? k + 1 : n, false, PC);
	return k;
}
int mc_strcasecmp(const char *a, const char *b)
{
	access((u64)a, strlen(a) + 1, false, PC);
	access((u64)b, strlen(b) + 1, false, PC);
	return strcasecmp(a, b);
}
int mc_strncasecmp(const char *a, const char *b, size_t n)
{
	access((u64)a, strnlen(a, n), false, PC);
	access((u64)b, strnlen(b, n), false, PC);
	return strncasecmp(a, b, n);
}
char *mc_stpcpy(char *d, const char *s)
{
	size_t n = strlen(s) + 1;
	access((u64)s, n, false, PC);
	access((u64)d, n, true, PC);
	return stpcpy(d, s);
}
size_t mc_strftime(char *d, size_t n, const char *f, const struct tm *t)
{
	access((u64)t, sizeof *t, false, PC);
	size_t r = strftime(d, n, f, t);
	access((u64)d, r + 1 < n ? r + 1 : n, true, PC);
	return r;
}
const char *mc_inet_ntop(int af, const void *a, char *d, unsigned n)
{
	access((u64)a, af == 2 ? 4 : 16, false, PC);
	const char *r = inet_ntop(af, a, d, n);
	if (r)
		access((u64)d, strlen(d) + 1, true, PC);
	return r;
}
long mc_strtol(const char *s, char **e, int b)
{
	access((u64)s, strlen(s) + 1, false, PC);
	return strtol(s, e, b);
}
unsigned long mc_strtoul(const char *s, char **e, int b)
{
	access((u64)s, strlen(s) + 1, false, PC);
	return strtoul(s, e, b);
}
int mc_atoi(const char *s)
{
	access((u64)s, strlen(s) + 1, false, PC);
	return atoi(s);
}
}
