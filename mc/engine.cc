// elmc engine: controlled fibers, deviation-bounded stateless search with
// happens-before state caching, multi-process exploration, replay.
#include "engine.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <new>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" char __start_elp_data[] __attribute__((weak));
extern "C" char __stop_elp_data[] __attribute__((weak));

namespace mc {

// ------------------------------------------------------------------ arena --
static char *arena_base;
static size_t arena_used, arena_size = (size_t)1 << 30, arena_high;
static bool g_in_exec;

void *arena_alloc(size_t n)
{
	n = (n + 15) & ~(size_t)15;
	if (arena_used + n > arena_size) {
		fprintf(stderr, "elmc: arena exhausted\n");
		_exit(97);
	}
	void *p = arena_base + arena_used;
	arena_used += n;
	return p;
}

u64 hash_bytes(const void *p, size_t n)
{
	const u8 *b = (const u8 *)p;
	u64 h = 0x243f6a8885a308d3ull ^ n;
	while (n >= 8) {
		u64 v;
		memcpy(&v, b, 8);
		h = mix(h, v);
		b += 8;
		n -= 8;
	}
	u64 v = 0;
	memcpy(&v, b, n);
	return mix(h, v);
}

// ------------------------------------------------------------------- search --
struct Dev {
	u32 pos;
	u16 alt;
	u16 pad;
};
#define MAXDEV 30
struct Item {
	u16 n;
	u8 us, uf; // used sched / fault budget
	u32 sig;   // signature hash of the choice at the last deviation
	Dev d[MAXDEV];
};

struct Choice {
	u16 n;     // alternatives
	u16 nsch;  // alternatives [1,nsch) cost one scheduling deviation (SCHED kind)
	u8 kind;   // 0 sched, 1 fault, 2 input
	u8 chosen_dummy;
	u32 sig;
};

enum { K_SCHED, K_FAULT, K_INPUT };

struct HEnt {
	std::atomic<u64> key;
	std::atomic<u32> val;
};

#define NOUT 65536
#define MAXW 64
struct WorkerSlot {
	Item cur;
	std::atomic<u64> execs, beat;
	std::atomic<int> busy;
	std::atomic<int> lockheld;
};
#define MAXKNOWN 32
struct Shm {
	std::atomic<int> lock;
	std::atomic<int> stop;
	std::atomic<int> viol;
	Item viol_item;
	char viol_sig[128];
	char viol_msg[4096];
	std::atomic<u64> replay_beat;
	std::atomic<u64> execs, pruned, trans, states, choices, completed;
	std::atomic<u64> maxdepth, maxfib, faults, devs;
	std::atomic<u64> cases, caseset_n;
	std::atomic<u64> capped;
	std::atomic<u64> outs[NOUT];
	std::atomic<u64> nout;
	char out_sample[8][256];
	std::atomic<int> nout_sample;
	std::atomic<int> known_hit[MAXKNOWN];
	char known_detail[MAXKNOWN][512];
	Item known_item[MAXKNOWN];
	std::atomic<int> active;
	std::atomic<int> rp_n;
	std::atomic<u32> rp[64];
	std::atomic<u64> nitems;
	WorkerSlot w[MAXW];
};

static Shm *S;
static Item *G_items;
static size_t G_cap = 6u << 20;
static HEnt *H;
static size_t Hsize = 1u << 24;
static std::atomic<u64> *CS; // case set
static size_t CSsize = 1u << 22;

static const char *g_known[MAXKNOWN];
static int g_nknown;

u32 g_faults;
bool g_focus = true;
bool g_tracing;
long g_arg;
int g_tier;
int g_rp_mode, g_rp_n;
u32 g_rp[64];
static int B_s, B_f; // current bounds
static bool g_cache;
static int g_step_limit;
static int g_worker = -1;

static Item cur_item;
static PVec<Choice> trail;
static size_t next_dev;
static bool replay_only; // single execution without pruning

enum { R_RUN, R_DONE, R_PRUNED, R_VIOL, R_KNOWN };
static int run_status;
static char run_sig[128];
static char run_msg[4096];
static u64 n_steps, n_states, n_trans_total;
static int max_fibers;
static PVec<char> tracebuf;

// ------------------------------------------------------------------- fibers --
static Fiber F[MC_MAXFIBER];
static int nF;
static Fiber *cur;
static void *base_sp;
static void *base_fake;
static const void *base_stk;
static size_t base_stksz;
static Fiber *mainf;
static const size_t STKSZ = 512 * 1024;
static char *stacks[MC_MAXFIBER];
static PVec<void (*)()> *resets;

#ifndef MC_RACE
bool g_race_build = false;
void race_fork(Fiber *, Fiber *) {}
void race_join(Fiber *) {}
void race_acquire(const void *) {}
void race_release(const void *) {}
void race_reset() {}
void race_free(void *, size_t) {}
void race_range(const void *, size_t, bool, const void *) {}
#endif

extern "C" void mc_swap(void **save, void *to);
asm(".text\n.globl mc_swap\n.type mc_swap,@function\nmc_swap:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size mc_swap,.-mc_swap\n");

void on_reset(void (*f)())
{
	if (!resets) {
		resets = (PVec<void (*)()> *)malloc(sizeof(*resets));
		new (resets) PVec<void (*)()>();
	}
	resets->push_back(f);
}

Fiber *self() { return cur; }
bool on_fiber() { return cur != nullptr; }
Fiber *fiber_by_id(int id) { return id >= 0 && id < nF ? &F[id] : nullptr; }
int nfibers() { return nF; }

static u64 g_vnow;
Obj g_clock_obj;
u64 vnow() { return g_vnow; }
void vadvance(u64 ns) { g_vnow += ns; }

static int sig_list[8], sig_n;
static int (*sig_arrive)(int);
static bool (*sig_handle)(int);
static int (*sig_next)(Fiber *);
void signal_hooks(int (*a)(int), bool (*h)(int), int (*nx)(Fiber *))
{
	sig_arrive = a;
	sig_handle = h;
	sig_next = nx;
}
void signals_enable(const int *s, int n)
{
	sig_n = n;
	for (int i = 0; i < n; i++)
		sig_list[i] = s[i];
}

void trace_(const char *fmt, ...)
{
	char b[1024];
	int k = 0;
	if (cur)
		k = snprintf(b, sizeof b, "[%02d %-14s] ", cur->id, cur->name);
	va_list ap;
	va_start(ap, fmt);
	int r = vsnprintf(b + k, sizeof b - k, fmt, ap);
	va_end(ap);
	k = std::min<int>(k + r, sizeof b - 2);
	b[k++] = '\n';
	if (tracebuf.size() < (8u << 20))
		tracebuf.insert(tracebuf.end(), b, b + k);
}

static void switch_raw(Fiber *from, Fiber *to)
{
	cur = to;
#ifdef MC_ASAN
	__sanitizer_start_switch_fiber(from ? (from->done ? nullptr : &from->fake) : &base_fake, to->stk, to->stksz);
#endif
	if (from)
		from->saved_errno = errno;
	mc_swap(from ? &from->sp : &base_sp, to->sp);
	// back on "from"
#ifdef MC_ASAN
	if (from)
		__sanitizer_finish_switch_fiber(from->fake, nullptr, nullptr);
	else
		__sanitizer_finish_switch_fiber(base_fake, nullptr, nullptr);
#endif
	if (from)
		errno = from->saved_errno;
}

[[noreturn]] static void finish_execution(int status)
{
	run_status = status;
	Fiber *from = cur;
	cur = nullptr;
#ifdef MC_ASAN
	__sanitizer_start_switch_fiber(nullptr, base_stk, base_stksz);
#endif
	mc_swap(&from->sp, base_sp);
	abort();
}

static const char *g_only;
static int match_known(const char *sig)
{
	for (int i = 0; i < g_nknown; i++)
		if (strcmp(g_known[i], sig) == 0)
			return i;
	return -1;
}

[[noreturn]] void fail(const char *sig, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(run_msg, sizeof run_msg, fmt, ap);
	va_end(ap);
	snprintf(run_sig, sizeof run_sig, "%s", sig);
	TR("FAIL %s: %s", run_sig, run_msg);
	if (!cur) {
		fprintf(stderr, "elmc: fail outside a fiber: %s %s\n", run_sig, run_msg);
		_exit(98);
	}
	if (g_only && strcmp(g_only, sig))
		finish_execution(R_PRUNED); // another property's business
	finish_execution(match_known(sig) >= 0 ? R_KNOWN : R_VIOL);
}

// --------------------------------------------------------------- HB hashing --
void touch(Obj &o, u64 op)
{
	if (!cur)
		return;
	u64 n = mix(mix(cur->h, o.h), op);
	cur->h = n;
	o.h = n;
}
void absorb(u64 v)
{
	if (cur)
		cur->h = mix(cur->h, v);
}
void absorb_all()
{
	u64 a = 0;
	for (int i = 0; i < nF; i++)
		a += mix(F[i].h, i);
	cur->h = mix(cur->h, a);
}

void rp_note(u32 pc)
{
	if (!S || replay_only)
		return;
	int n = S->rp_n;
	for (int i = 0; i < n && i < 64; i++)
		if (S->rp[i] == pc)
			return;
	n = S->rp_n;
	while (n < 64)
		if (S->rp_n.compare_exchange_weak(n, n + 1)) {
			S->rp[n] = pc;
			return;
		}
}

u64 g_ext_key;
static u64 state_key()
{
	u64 a = 0;
	for (int i = 0; i < nF; i++)
		a += mix(F[i].h, i + 1000);
	a += g_ext_key;
	return mix(a, cur->id + 77) | 1;
}

// returns true if dominated
static bool visit(u64 key, int rs, int rf)
{
	if (rs > 15)
		rs = 15;
	if (rf > 7)
		rf = 7;
	size_t i = key & (Hsize - 1);
	for (int probe = 0; probe < 64; probe++, i = (i + 1) & (Hsize - 1)) {
		u64 k = H[i].key.load(std::memory_order_relaxed);
		if (k == 0) {
			u64 z = 0;
			if (H[i].key.compare_exchange_strong(z, key)) {
				S->states.fetch_add(1, std::memory_order_relaxed);
				k = key;
			} else
				k = z;
		}
		if (k != key)
			continue;
		u32 v = H[i].val.load(std::memory_order_relaxed);
		for (;;) {
			for (int f = rf; f < 8; f++)
				if ((int)((v >> (4 * f)) & 15) >= rs + 1)
					return true;
			u32 nv = (v & ~(15u << (4 * rf))) | ((u32)(rs + 1) << (4 * rf));
			if (H[i].val.compare_exchange_weak(v, nv))
				return false;
		}
	}
	return false; // table crowded: no pruning
}

// ------------------------------------------------------------------ choices --
static int take_choice(int kind, int n, int nsch, u32 sig)
{
	u32 pos = trail.size();
	Choice c;
	c.n = n;
	c.nsch = nsch;
	c.kind = kind;
	c.sig = sig;
	trail.push_back(c);
	if (next_dev < cur_item.n && cur_item.d[next_dev].pos == pos) {
		int alt = cur_item.d[next_dev].alt;
		next_dev++;
		if (alt >= n || (next_dev == cur_item.n && cur_item.sig != sig)) {
			fprintf(stderr, "elmc: replay divergence at choice %u (alt %d of %d, sig %x/%x)\n", pos, alt, n,
				cur_item.sig, sig);
			_exit(96);
		}
		return alt;
	}
	return 0;
}

int choose(int n, const char *label)
{
	if (n <= 1)
		return 0;
	int r = take_choice(K_INPUT, n, 0, (u32)mix(hash_str(label), n * 64 + cur->id));
	absorb(mix(hash_str(label), r));
	TR("choose %s -> %d/%d", label, r, n);
	return r;
}

static int n_faults_taken;
int faults_taken() { return n_faults_taken; }

int fault_choice(int n, const char *label)
{
	if (n <= 1 || B_f == 0)
		return 0;
	int r = take_choice(K_FAULT, n, 0, (u32)mix(hash_str(label), n * 64 + cur->id + 7));
	if (r) {
		absorb(mix(hash_str(label), r));
		n_faults_taken++;
		TR("FAULT %s -> %d/%d", label, r, n);
	}
	return r;
}

int fault(u32 cls, int n, const char *label)
{
	if (!(g_faults & cls) || !cur || cur->kind != FK_SUT)
		return 0;
	return fault_choice(n, label);
}

// ---------------------------------------------------------------- scheduler --
static inline bool is_enabled(Fiber *f)
{
	if (!f->live || f->done || f->quiescing)
		return false;
	return f->en == nullptr || f->en(f->en_arg);
}

static const char *opname(Fiber *f) { return f->op ? f->op : "?"; }

static void describe_blocked(char *b, size_t n)
{
	size_t k = 0;
	b[0] = 0;
	for (int i = 0; i < nF && k + 80 < n; i++)
		if (F[i].live && !F[i].done)
			k += snprintf(b + k, n - k, "%s%s(%d):%s", k ? ", " : "", F[i].name, i, opname(&F[i]));
}

struct Alt {
	u16 f;
	u8 mode; // 0 run, 1 timeout, 2+i signal i
};

static int idle_timer_fires;

static Fiber *schedule()
{
	static Alt a[MC_MAXFIBER * 4];
	int n;
again:
	n = 0;
	int c0 = cur->id;
	if (is_enabled(cur))
		a[n++] = { (u16)c0, 0 };
	for (int k = 1; k < nF; k++) {
		Fiber *f = &F[(c0 + k) % nF];
		if (is_enabled(f))
			a[n++] = { (u16)f->id, 0 };
	}
	int nrun = n;
	bool timers = (g_faults & F_TIMER) && B_f > 0 && g_focus;
	if (timers && nrun > 0)
		for (int k = 0; k < nF; k++) {
			Fiber *f = &F[(c0 + k) % nF];
			if (f->live && !f->done && f->deadline && !f->quiescing && !is_enabled(f))
				a[n++] = { (u16)f->id, 1 };
		}
	if (sig_n && B_f > 0 && g_focus)
		for (int i = 0; i < sig_n; i++)
			a[n++] = { 0, (u8)(2 + i) };
	int pick = 0;
	if (nrun == 0) {
		// nothing runnable: quiescers, then timers, then deadlock
		Fiber *q = nullptr;
		for (int i = 0; i < nF && !q; i++)
			if (F[i].live && !F[i].done && F[i].quiescing)
				q = &F[i];
		if (n > 0) {
			// only signal alternatives: default continues with quiescence/timers
			int r = take_choice(K_SCHED, n + 1, 1, (u32)mix(n * 131 + 5, c0));
			if (r > 0) {
				int sg = sig_list[a[r - 1].mode - 2];
				n_faults_taken++;
				TR("-- signal %d arrives", sg);
				int id = sig_arrive(sg);
				if (id >= 0) {
					F[id].deliver = sg;
					return &F[id];
				}
				goto again;
			}
		}
		if (q) {
			q->quiescing = false;
			return q;
		}
		Fiber *t = nullptr;
		for (int i = 0; i < nF; i++)
			if (F[i].live && !F[i].done && F[i].deadline && (!t || F[i].deadline < t->deadline))
				t = &F[i];
		if (!t || ++idle_timer_fires > 40) {
			char b[2048];
			describe_blocked(b, sizeof b);
			fail("deadlock", "%s: nothing can make progress: %s", t ? "hang (only timers fire)" : "deadlock", b);
		}
		t->timed_out = true;
		return t;
	}
	if (n > 1 && g_focus) {
		if (g_cache && !replay_only && next_dev >= cur_item.n) {
			u64 key = state_key();
			if (visit(key, B_s - cur_item.us, B_f - cur_item.uf))
				finish_execution(R_PRUNED);
		}
		u64 sg = 0;
		for (int i = 0; i < n; i++)
			sg = sg * 131 + a[i].f * 8 + a[i].mode;
		pick = take_choice(K_SCHED, n, nrun, (u32)mix(sg, c0));
		if (pick) {
			TR("-- deviation: %s(%d) mode %d", F[a[pick].f].name, a[pick].f, a[pick].mode);
			if (a[pick].mode)
				n_faults_taken++;
		}
	}
	Fiber *f = &F[a[pick].f];
	if (a[pick].mode == 1)
		f->timed_out = true;
	else if (a[pick].mode >= 2) {
		int sg = sig_list[a[pick].mode - 2];
		int id = sig_arrive(sg);
		if (id < 0)
			goto again;
		F[id].deliver = sg;
		return &F[id];
	} else
		idle_timer_fires = 0;
	return f;
}

bool was_interrupted() { return cur->interrupted; }

bool point(const char *op, const void *obj, bool (*en)(void *), void *arg, u64 deadline, bool interruptible)
{
	Fiber *me = cur;
	if (!me)
		return false;
	me->op = op;
	me->opobj = obj;
	me->en = en;
	me->en_arg = arg;
	me->deadline = deadline;
	me->timed_out = false;
	me->interruptible = interruptible;
	me->interrupted = false;
	for (;;) {
		n_steps++;
		if ((int)n_steps > g_step_limit) {
			char b[2048];
			describe_blocked(b, sizeof b);
			fail("livelock", "no termination after %d visible operations: %s", g_step_limit, b);
		}
		if ((n_steps & 1023) == 0) { // a long execution is not a hanging one
			if (replay_only)
				S->replay_beat.fetch_add(1, std::memory_order_relaxed);
			else
				S->w[g_worker].beat.fetch_add(1, std::memory_order_relaxed);
		}
		Fiber *nx = schedule();
		if (nx != me)
			switch_raw(me, nx);
	redeliver:
		if (me->deliver) {
			int s = me->deliver;
			me->deliver = 0;
			bool blocked = me->en && !me->en(me->en_arg);
			const char *o = me->op;
			bool inter = me->interruptible;
			TR("signal %d delivered during %s", s, o);
			absorb(mix(s, 0x5161));
			me->in_handler = true;
			inter = sig_handle(s) && inter;
			me->in_handler = false;
			me->deliver = sig_next(me);
			me->op = o;
			me->opobj = obj;
			me->en = en;
			me->en_arg = arg;
			me->deadline = deadline;
			me->interruptible = inter;
			me->timed_out = false;
			me->interrupted = false;
			if (me->deliver)
				goto redeliver;
			if (blocked && inter) {
				me->interrupted = true;
				break;
			}
			continue;
		}
		break;
	}
	if (me->timed_out) {
		if (g_vnow < me->deadline)
			g_vnow = me->deadline;
		touch(g_clock_obj, 0x71e0);
	}
	bool t = me->timed_out;
	me->ops++;
	me->en = nullptr;
	me->deadline = 0;
	TR("%s%s", op, t ? " (timeout)" : me->interrupted ? " (EINTR)" : "");
	absorb(hash_str(op) + (t ? 1 : 0) + (me->interrupted ? 2 : 0));
	return t;
}

void yield_point(const char *op) { point(op); }

void quiesce()
{
	cur->quiescing = true;
	cur->en = nullptr;
	point("quiesce");
	cur->quiescing = false;
	absorb_all();
}

static void fiber_exit()
{
	Fiber *me = cur;
	me->done = true;
	me->op = "exited";
	touch(g_clock_obj, 0); // keeps the exit order of threads canonical enough
	if (me->main)
		finish_execution(R_DONE);
	Fiber *nx = schedule();
	switch_raw(me, nx);
	abort();
}

extern "C" void mc_fiber_entry()
{
#ifdef MC_ASAN
	const void *b;
	size_t s;
	__sanitizer_finish_switch_fiber(nullptr, &b, &s);
	if (cur->main) {
		base_stk = b;
		base_stksz = s;
	}
#endif
	errno = 0;
	Fiber *me = cur;
	if (me->deliver)
		me->deliver = 0;
	if (me->fn)
		(*me->fn)();
	else
		me->ret = me->start(me->arg);
	fiber_exit();
}
asm(".text\nmc_tramp:\nxor %rbp,%rbp\ncall mc_fiber_entry\nud2\n");
extern "C" void mc_tramp();

static Fiber *new_fiber(const char *name, FiberKind k)
{
	if (nF >= MC_MAXFIBER) {
		fprintf(stderr, "elmc: too many fibers\n");
		_exit(95);
	}
	Fiber *f = &F[nF];
	int id = nF++;
	if (nF > max_fibers)
		max_fibers = nF;
	u64 ph = cur ? cur->h : 0;
	memset((void *)f, 0, sizeof *f - sizeof(VC));
	f->id = id;
	f->kind = k;
	snprintf(f->name, sizeof f->name, "%s", name);
	if (!stacks[id]) {
		char *p = (char *)mmap(nullptr, STKSZ + 8192, PROT_READ | PROT_WRITE,
				       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			_exit(94);
		mprotect(p, 4096, PROT_NONE);
		stacks[id] = p + 4096;
	}
	f->stk = stacks[id];
	f->stksz = STKSZ;
	void **sp = (void **)(f->stk + STKSZ - 64);
	*--sp = nullptr; // alignment filler
	*--sp = nullptr;
	*--sp = (void *)mc_tramp;
	for (int i = 0; i < 6; i++)
		*--sp = nullptr;
	f->sp = sp;
	f->live = true;
	f->op = "start";
	f->h = mix(mix(ph, 0xf1be), id);
	f->sigmask = cur ? cur->sigmask : 0;
	if (cur)
		absorb(0xc4ea7e + id);
	race_fork(cur, f);
	return f;
}

Fiber *spawn(const char *name, FiberKind k, std::function<void()> fn)
{
	Fiber *f = new_fiber(name, k);
	f->fn = new std::function<void()>(std::move(fn));
	return f;
}

Fiber *spawn_thread(void *(*start)(void *), void *arg)
{
	char nm[32];
	snprintf(nm, sizeof nm, "thread%d", nF);
	Fiber *f = new_fiber(nm, FK_SUT);
	f->start = start;
	f->arg = arg;
	return f;
}

void join_fiber(Fiber *f)
{
	point("join", f, [](void *a) { return ((Fiber *)a)->done; }, f);
	absorb(f->h);
	race_join(f);
	f->joined = true;
}

bool all_done(FiberKind k, Fiber *except)
{
	for (int i = 0; i < nF; i++)
		if (&F[i] != except && F[i].kind == k && !F[i].main && !F[i].done)
			return false;
	return true;
}

// ------------------------------------------------------------ one execution --
static char *snap;
static size_t snap_n;
static Scenario *sc_head;
static Scenario *sc;

Scenario::Scenario(const char *n, void (*f)(), u32 fc, bool ca, int sl)
	: name(n), fn(f), faults(fc), cache(ca), step_limit(sl), next(sc_head)
{
	sc_head = this;
}

static void take_snapshot()
{
	snap_n = __stop_elp_data - __start_elp_data;
	if (!&__start_elp_data[0])
		snap_n = 0;
	if (snap_n) {
		snap = (char *)malloc(snap_n);
#ifdef MC_ASAN
		__asan_unpoison_memory_region(__start_elp_data, 0);
#endif
		for (size_t i = 0; i < snap_n; i++)
			((volatile char *)snap)[i] = ((volatile char *)__start_elp_data)[i];
	}
}

__attribute__((no_sanitize("address"))) static void restore_snapshot()
{
	volatile u64 *d = (volatile u64 *)__start_elp_data;
	volatile u64 *s = (volatile u64 *)snap;
	size_t i = 0;
	for (; i + 8 <= snap_n; i += 8)
		if (d[i / 8] != s[i / 8])
			d[i / 8] = s[i / 8];
	for (; i < snap_n; i++)
		((volatile char *)__start_elp_data)[i] = snap[i];
}

void engine_restore_data() { restore_snapshot(); }

static int run_one(const Item &it)
{
	g_in_exec = true;
	for (auto f : *resets)
		f(); // cleanup of the previous execution's leftovers
	arena_used = 0;
	cur_item = it;
	next_dev = 0;
	trail.clear();
	n_steps = 0;
	n_faults_taken = 0;
	idle_timer_fires = 0;
	g_focus = true;
	sig_n = 0;
	g_ext_key = 0;
	g_vnow = 1700000000ull * 1000000000ull;
	g_clock_obj.h = 1;
	run_sig[0] = run_msg[0] = 0;
	tracebuf.clear();
	g_faults = sc->faults;
	restore_snapshot();
#ifdef MC_ASAN
	for (int i = 0; i < nF; i++)
		__asan_unpoison_memory_region(F[i].stk, F[i].stksz);
#endif
	nF = 0;
	cur = nullptr;
	race_reset();
	extern void sim_init_all();
	sim_init_all();
	mainf = new_fiber("main", FK_SUT);
	mainf->main = true;
	mainf->fn = new std::function<void()>(sc->fn);
	switch_raw(nullptr, mainf);
	g_in_exec = false;
	if (arena_used > arena_high)
		arena_high = arena_used;
	if (next_dev < cur_item.n && run_status == R_DONE) {
		fprintf(stderr, "elmc: replay divergence: execution ended before deviation %zu\n", next_dev);
		_exit(96);
	}
	return run_status;
}

void outcome(const char *fmt, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	TR("outcome %s", b);
	u64 h = hash_str(b) | 1;
	for (u32 i = 0, s = h % NOUT; i < 32; i++, s = (s + 1) % NOUT) {
		u64 k = S->outs[s].load();
		if (k == h)
			return;
		if (k == 0) {
			u64 z = 0;
			if (S->outs[s].compare_exchange_strong(z, h)) {
				S->nout.fetch_add(1);
				int m = S->nout_sample.fetch_add(1);
				if (m < 8)
					snprintf(S->out_sample[m], 256, "%s", b);
				return;
			}
			if (z == h)
				return;
		}
	}
}

void count_case(u64 h)
{
	S->cases.fetch_add(1, std::memory_order_relaxed);
	h |= 1;
	size_t i = mix(h, 3) & (CSsize - 1);
	for (int p = 0; p < 32; p++, i = (i + 1) & (CSsize - 1)) {
		u64 k = CS[i].load(std::memory_order_relaxed);
		if (k == h)
			return;
		if (k == 0) {
			u64 z = 0;
			if (CS[i].compare_exchange_strong(z, h)) {
				S->caseset_n.fetch_add(1, std::memory_order_relaxed);
				return;
			}
			if (z == h)
				return;
		}
	}
}

// ------------------------------------------------------------------ workers --
static void lk()
{
	S->w[g_worker].lockheld = 1;
	for (;;) {
		int z = 0;
		if (S->lock.compare_exchange_weak(z, 1, std::memory_order_acquire))
			return;
		sched_yield();
	}
}
static void ulk()
{
	S->lock.store(0, std::memory_order_release);
	S->w[g_worker].lockheld = 0;
}

static PVec<Item> localq;

static bool expand(PVec<Item> &out)
{
	u32 from = cur_item.n ? cur_item.d[cur_item.n - 1].pos + 1 : 0;
	// children, latest positions first so that the stack pops early positions last
	for (u32 p = from; p < trail.size(); p++) {
		Choice &c = trail[p];
		for (int alt = 1; alt < c.n; alt++) {
			int cs = 0, cf = 0;
			if (c.kind == K_SCHED) {
				if (alt < c.nsch)
					cs = 1;
				else
					cf = 1;
			} else if (c.kind == K_FAULT)
				cf = 1;
			if (cur_item.us + cs > B_s || cur_item.uf + cf > B_f)
				continue;
			if (cur_item.n >= MAXDEV) {
				fprintf(stderr, "elmc: too many deviations\n");
				_exit(93);
			}
			Item it;
			it = cur_item;
			it.us += cs;
			it.uf += cf;
			it.sig = c.sig;
			it.d[it.n].pos = p;
			it.d[it.n].alt = alt;
			it.n++;
			out.push_back(it);
		}
	}
	return true;
}

static void worker_main(int id)
{
	g_worker = id;
	WorkerSlot &w = S->w[id];
	PVec<Item> out;
	for (;;) {
		if (S->stop.load())
			break;
		Item it;
		bool have = false;
		if (!localq.empty()) {
			it = localq.back();
			localq.pop_back();
			have = true;
		} else {
			lk();
			u64 n = S->nitems.load();
			if (n > 0) {
				// take a small batch
				u64 k = n > 64 ? 8 : 1;
				for (u64 i = 0; i < k; i++)
					localq.push_back(G_items[n - 1 - i]);
				S->nitems = n - k;
				if (!w.busy) {
					w.busy = 1;
					S->active++;
				}
			} else {
				if (w.busy) {
					w.busy = 0;
					S->active--;
				}
				if (S->active.load() == 0) {
					ulk();
					break;
				}
			}
			ulk();
			if (localq.empty()) {
				usleep(200);
				continue;
			}
			continue;
		}
		if (!have)
			continue;
		w.cur = it;
		int st = run_one(it);
		w.execs.fetch_add(1, std::memory_order_relaxed);
		S->execs.fetch_add(1, std::memory_order_relaxed);
		S->trans.fetch_add(n_steps, std::memory_order_relaxed);
		if (st == R_PRUNED)
			S->pruned.fetch_add(1, std::memory_order_relaxed);
		else
			S->completed.fetch_add(1, std::memory_order_relaxed);
		if (n_steps > S->maxdepth.load(std::memory_order_relaxed))
			S->maxdepth = n_steps;
		if ((u64)nF > S->maxfib.load(std::memory_order_relaxed))
			S->maxfib = nF;
		if (n_faults_taken)
			S->faults.fetch_add(1, std::memory_order_relaxed);
		if (st == R_VIOL) {
			lk();
			if (!S->viol) {
				S->viol = 1;
				S->viol_item = it;
				snprintf(S->viol_sig, sizeof S->viol_sig, "%s", run_sig);
				snprintf(S->viol_msg, sizeof S->viol_msg, "%s", run_msg);
			}
			S->stop = 1;
			ulk();
			break;
		}
		if (st == R_KNOWN) {
			int k = match_known(run_sig);
			if (S->known_hit[k].fetch_add(1) == 0) {
				snprintf(S->known_detail[k], 512, "%s", run_msg);
				S->known_item[k] = it;
			}
		}
		out.clear();
		expand(out);
		if (!out.empty()) {
			// keep some local, share the rest when the pool is low
			if (S->nitems.load(std::memory_order_relaxed) < 4096 || localq.size() > 4096) {
				lk();
				u64 n = S->nitems.load();
				if (n + out.size() + localq.size() > G_cap) {
					fprintf(stderr, "elmc: work pool overflow\n");
					_exit(92);
				}
				for (size_t i = out.size(); i-- > 0;)
					G_items[n++] = out[i];
				if (localq.size() > 64) {
					for (auto &x : localq)
						G_items[n++] = x;
					localq.clear();
				}
				S->nitems = n;
				ulk();
			} else {
				for (size_t i = out.size(); i-- > 0;)
					localq.push_back(out[i]);
			}
		}
	}
	if (w.busy) {
		lk();
		w.busy = 0;
		S->active--;
		ulk();
	}
}

static double now_s()
{
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::string item_str(const Item &it)
{
	std::string s;
	char b[64];
	snprintf(b, sizeof b, "%u,%u,%u", it.us, it.uf, it.sig);
	s = b;
	for (int i = 0; i < it.n; i++) {
		snprintf(b, sizeof b, ";%u:%u", it.d[i].pos, it.d[i].alt);
		s += b;
	}
	return s;
}

static Item parse_item(const char *s)
{
	Item it;
	memset(&it, 0, sizeof it);
	unsigned us, uf, sg;
	if (sscanf(s, "%u,%u,%u", &us, &uf, &sg) != 3) {
		fprintf(stderr, "bad item\n");
		exit(2);
	}
	it.us = us;
	it.uf = uf;
	it.sig = sg;
	const char *p = s;
	while ((p = strchr(p, ';'))) {
		p++;
		unsigned a, b;
		if (sscanf(p, "%u:%u", &a, &b) == 2) {
			it.d[it.n].pos = a;
			it.d[it.n].alt = b;
			it.n++;
		}
	}
	return it;
}

static std::string jesc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (c == '\n')
			r += "\\n";
		else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, 8, "\\u%04x", c);
			r += b;
		} else
			r += c;
	}
	return r;
}

static std::string slurp(const char *p, size_t max)
{
	std::string r;
	FILE *f = fopen(p, "r");
	if (!f)
		return r;
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < max)
		r.append(b, n);
	fclose(f);
	if (r.size() > max)
		r.resize(max);
	return r;
}

struct ReplayResult {
	int kind; // 0 ok, 1 viol, 2 crash, 3 hang, 4 engine error, 5 known
	std::string sig, msg, trace;
};

static std::string workdir = "/tmp";

// Replay an item alone in a fresh child, with tracing.
static ReplayResult replay(const Item &it, int limit_s)
{
	ReplayResult r;
	std::string tf = workdir + "/trace", ef = workdir + "/err", sf = workdir + "/status";
	unlink(tf.c_str());
	unlink(ef.c_str());
	unlink(sf.c_str());
	pid_t p = fork();
	if (p == 0) {
		g_worker = 0;
		int fd = open(ef.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
		dup2(fd, 2);
		replay_only = true;
		g_tracing = true;
		int st = run_one(it);
		FILE *f = fopen(tf.c_str(), "w");
		if (f) {
			fwrite(tracebuf.data(), 1, tracebuf.size(), f);
			fclose(f);
		}
		f = fopen(sf.c_str(), "w");
		if (f) {
			fprintf(f, "%s\n%s", run_sig, run_msg);
			fclose(f);
		}
		_exit(st == R_VIOL ? 10 : st == R_KNOWN ? 11 : 0);
	}
	double t0 = now_s();
	int ws;
	u64 beat = S->replay_beat;
	for (;;) {
		pid_t q = waitpid(p, &ws, WNOHANG);
		if (q == p)
			break;
		if (S->replay_beat != beat) {
			beat = S->replay_beat;
			t0 = now_s();
		}
		if (now_s() - t0 > limit_s) {
			kill(p, SIGKILL);
			waitpid(p, &ws, 0);
			r.kind = 3;
			r.sig = "hang";
			r.msg = "execution does not reach a visible operation (infinite loop)";
			return r;
		}
		usleep(2000);
	}
	r.trace = slurp(tf.c_str(), 4u << 20);
	if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0)
		r.kind = 0;
	else if (WIFEXITED(ws) && (WEXITSTATUS(ws) == 10 || WEXITSTATUS(ws) == 11)) {
		r.kind = WEXITSTATUS(ws) == 10 ? 1 : 5;
		std::string s = slurp(sf.c_str(), 65536);
		size_t nl = s.find('\n');
		r.sig = s.substr(0, nl);
		r.msg = nl == std::string::npos ? "" : s.substr(nl + 1);
	} else if (WIFEXITED(ws) && WEXITSTATUS(ws) >= 90 && WEXITSTATUS(ws) <= 98) {
		r.kind = 4;
		r.msg = slurp(ef.c_str(), 65536);
	} else {
		r.kind = 2;
		r.sig = "crash";
		r.msg = slurp(ef.c_str(), 16384);
		if (WIFSIGNALED(ws))
			r.msg = "signal " + std::to_string(WTERMSIG(ws)) + "\n" + r.msg;
	}
	return r;
}

int main_(int argc, char **argv)
{
	const char *name = nullptr, *outp = nullptr, *rep = nullptr, *boundstr = "0,0";
	int jobs = 8;
	double cap = 60;
	bool list = false;
	int trace_item = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--scenario")
			name = nx();
		else if (a == "--bounds")
			boundstr = nx();
		else if (a == "--jobs")
			jobs = atoi(nx());
		else if (a == "--cap")
			cap = atof(nx());
		else if (a == "--out")
			outp = nx();
		else if (a == "--replay")
			rep = nx();
		else if (a == "--only")
			g_only = nx();
		else if (a == "--rp")
			g_rp_mode = 1;
		else if (a == "--rpset") {
			for (char *p = nx(); *p && g_rp_n < 64;) {
				g_rp[g_rp_n++] = strtoul(p, &p, 16);
				if (*p == ',')
					p++;
			}
		}
		else if (a == "--known") {
			if (g_nknown < MAXKNOWN)
				g_known[g_nknown++] = nx();
		} else if (a == "--arg")
			g_arg = atol(nx());
		else if (a == "--tier")
			g_tier = atoi(nx());
		else if (a == "--work")
			workdir = nx();
		else if (a == "--list")
			list = true;
		else if (a == "--trace")
			trace_item = 1;
		else {
			fprintf(stderr, "unknown option %s\n", a.c_str());
			return 2;
		}
	}
	if (list) {
		for (Scenario *s = sc_head; s; s = s->next)
			printf("%s\n", s->name);
		return 0;
	}
	for (sc = sc_head; sc; sc = sc->next)
		if (name && strcmp(sc->name, name) == 0)
			break;
	if (!sc) {
		fprintf(stderr, "no scenario %s\n", name ? name : "(none)");
		return 2;
	}
	g_cache = sc->cache;
	g_step_limit = sc->step_limit;
	arena_base = (char *)mmap(nullptr, arena_size, PROT_READ | PROT_WRITE,
				  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	auto shmap = [](size_t n) {
		void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) {
			perror("mmap");
			exit(2);
		}
		return p;
	};
	S = (Shm *)shmap(sizeof(Shm));
	G_items = (Item *)shmap(sizeof(Item) * G_cap);
	H = (HEnt *)shmap(sizeof(HEnt) * Hsize);
	CS = (std::atomic<u64> *)shmap(sizeof(u64) * CSsize);
	take_snapshot();
	if (!resets)
		on_reset([] {});
	if (jobs > MAXW)
		jobs = MAXW;

	// parse bounds "s,f s,f ..."
	PVec<std::pair<int, int>> bounds;
	for (const char *p = boundstr; *p;) {
		int a, b, n = 0;
		if (sscanf(p, " %d,%d%n", &a, &b, &n) != 2)
			break;
		bounds.push_back({ a, b });
		p += n;
		while (*p == ' ')
			p++;
	}
	if (rep || trace_item) {
		Item it;
		if (rep)
			it = parse_item(rep);
		else
			memset(&it, 0, sizeof it);
		for (auto &b : bounds) {
			B_s = std::max(B_s, b.first);
			B_f = std::max(B_f, b.second);
		}
		B_s = std::max<int>(B_s, it.us);
		B_f = std::max<int>(B_f, it.uf);
		ReplayResult r = replay(it, 60);
		fwrite(r.trace.data(), 1, r.trace.size(), stdout);
		const char *kn[] = { "ok", "violation", "crash", "hang", "engine-error", "known" };
		printf("result: %s %s\n%s\n", kn[r.kind], r.sig.c_str(), r.msg.c_str());
		return r.kind == 0 || r.kind == 5 ? 0 : r.kind == 4 ? 2 : 1;
	}

	double t0 = now_s();
	bool capped = false, engine_err = false;
	std::string viol_sig, viol_msg, viol_trace, viol_item_s, err;
	bool violated = false;
	std::string done_bounds;
	int vbs = 0, vbf = 0;
	double bound_t = 0;
	int rp_rounds = 0;
	for (size_t bi = 0; bi < bounds.size(); bi++) {
		auto b = bounds[bi];
		double bt0 = now_s();
		B_s = b.first;
		B_f = b.second;
		Item root;
		memset(&root, 0, sizeof root);
		G_items[0] = root;
		S->nitems = 1;
		S->active = 0;
		S->stop = 0;
		S->lock = 0;
		pid_t pid[MAXW];
		u64 last[MAXW];
		double lastt[MAXW];
		for (int i = 0; i < jobs; i++) {
			S->w[i].busy = 0;
			S->w[i].lockheld = 0;
			last[i] = S->w[i].execs + S->w[i].beat;
			lastt[i] = now_s();
			std::string ef = workdir + "/err." + std::to_string(i);
			pid[i] = fork();
			if (pid[i] == 0) {
				int fd = open(ef.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
				if (fd >= 0)
					dup2(fd, 2);
				worker_main(i);
				_exit(0);
			}
		}
		int alive = jobs;
		while (alive > 0) {
			int ws;
			pid_t q = waitpid(-1, &ws, WNOHANG);
			if (q > 0) {
				int i;
				for (i = 0; i < jobs; i++)
					if (pid[i] == q)
						break;
				if (i == jobs)
					continue;
				alive--;
				pid[i] = 0;
				if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0)
					continue;
				S->stop = 1;
				if (S->w[i].lockheld)
					S->lock = 0;
				if (WIFEXITED(ws) && WEXITSTATUS(ws) >= 90 && WEXITSTATUS(ws) <= 98) {
					engine_err = true;
					err = "worker exit " + std::to_string(WEXITSTATUS(ws)) + ": " +
					      slurp((workdir + "/err." + std::to_string(i)).c_str(), 4096) + " item " +
					      item_str(S->w[i].cur);
					continue;
				}
				if (!violated && !S->viol) {
					// crash in the code under test: confirm by replaying alone
					Item it = S->w[i].cur;
					ReplayResult r = replay(it, 60);
					if (r.kind == 1 || r.kind == 2 || r.kind == 3) {
						violated = true;
						viol_sig = r.sig;
						viol_msg = r.msg;
						viol_trace = r.trace;
						viol_item_s = item_str(it);
						vbs = B_s;
						vbf = B_f;
					} else if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) {
						engine_err = true;
						err = "worker killed (out of memory?)";
					} else {
						engine_err = true;
						err = "worker died (" + std::to_string(ws) + ") but the replay does not: " +
						      slurp((workdir + "/err." + std::to_string(i)).c_str(), 4096);
					}
				}
				continue;
			}
			double t = now_s();
			if (S->rp_n > g_rp_n && rp_rounds < 20)
				S->stop = 1;
			if (t - t0 > cap && !S->stop) {
				capped = true;
				S->stop = 1;
			}
			for (int i = 0; i < jobs; i++) {
				if (!pid[i])
					continue;
				u64 e = S->w[i].execs + S->w[i].beat;
				if (e != last[i] || !S->w[i].busy) {
					last[i] = e;
					lastt[i] = t;
				} else if (t - lastt[i] > 30) {
					// stuck: re-run alone with a longer limit before calling it a hang
					Item it = S->w[i].cur;
					kill(pid[i], SIGKILL);
					waitpid(pid[i], &ws, 0);
					pid[i] = 0;
					alive--;
					S->stop = 1;
					if (S->w[i].lockheld)
						S->lock = 0;
					ReplayResult r = replay(it, 120);
					if (r.kind == 1 || r.kind == 2 || r.kind == 3) {
						violated = true;
						viol_sig = r.sig;
						viol_msg = r.msg;
						viol_trace = r.trace;
						viol_item_s = item_str(it);
						vbs = B_s;
						vbf = B_f;
					} else {
						capped = true;
					}
				}
			}
			usleep(1000);
		}
		if (S->viol && !violated) {
			// The failure must come back when the schedule is replayed alone.  Code which misuses memory may show
			// another symptom each time; each of them is a failure.
			ReplayResult r;
			for (int i = 0; i < 5; i++) {
				r = replay(S->viol_item, 60);
				if (r.kind >= 1 && r.kind <= 3)
					break;
			}
			if (r.kind >= 1 && r.kind <= 3) {
				ReplayResult r2 = replay(S->viol_item, 60);
				violated = true;
				viol_sig = S->viol_sig;
				viol_msg = S->viol_msg;
				if (r2.trace != r.trace || r2.msg != r.msg || r.sig != S->viol_sig)
					viol_msg += " [replays vary: " + r.sig + " " + r.msg + " / " + r2.sig + " " + r2.msg + "]";
				viol_trace = r.trace;
				viol_item_s = item_str(S->viol_item);
				vbs = B_s;
				vbf = B_f;
			} else {
				engine_err = true;
				err = std::string("violation does not replay: ") + S->viol_sig + " " + S->viol_msg;
			}
		}
		bound_t = now_s() - bt0;
		if (violated || engine_err || capped)
			break;
		if (S->rp_n > g_rp_n && rp_rounds < 20) {
			// once more from the beginning, with the new scheduling points
			rp_rounds++;
			while (g_rp_n < S->rp_n && g_rp_n < 64) {
				g_rp[g_rp_n] = S->rp[g_rp_n];
				g_rp_n++;
			}
			madvise(H, sizeof(HEnt) * Hsize, MADV_REMOVE);
			done_bounds = "";
			bi = (size_t)-1;
			continue;
		}
		char bb[64];
		snprintf(bb, sizeof bb, "%s%d,%d", done_bounds.empty() ? "" : " ", b.first, b.second);
		done_bounds += bb;
	}
	(void)bound_t;
	// default execution as sample trace
	std::string sample;
	if (!engine_err) {
		Item root;
		memset(&root, 0, sizeof root);
		ReplayResult r = replay(root, 60);
		sample = r.trace;
		if (sample.size() > 3000)
			sample = sample.substr(0, 1500) + "...\n" + sample.substr(sample.size() - 1500);
	}
	FILE *o = outp ? fopen(outp, "w") : stdout;
	fprintf(o,
		"{\"scenario\":\"%s\",\"arg\":%ld,\"bounds_done\":\"%s\",\"bounds\":\"%s\",\"capped\":%s,\"error\":\"%s\",\n"
		"\"executions\":%lu,\"completed\":%lu,\"pruned\":%lu,\"transitions\":%lu,\"states\":%lu,\"outcomes\":%lu,"
		"\"maxdepth\":%lu,\"threads\":%lu,\"fault_executions\":%lu,\"cases\":%lu,\"distinct_cases\":%lu,\"wall\":%.3f,\n",
		sc->name, g_arg, done_bounds.c_str(), boundstr, capped ? "true" : "false", jesc(err).c_str(),
		(unsigned long)S->execs, (unsigned long)S->completed, (unsigned long)S->pruned, (unsigned long)S->trans,
		(unsigned long)S->states, (unsigned long)S->nout, (unsigned long)S->maxdepth, (unsigned long)S->maxfib,
		(unsigned long)S->faults, (unsigned long)S->cases, (unsigned long)S->caseset_n, now_s() - t0);
	fprintf(o, "\"outcome_samples\":[");
	for (int i = 0; i < std::min<int>(8, S->nout_sample); i++)
		fprintf(o, "%s\"%s\"", i ? "," : "", jesc(S->out_sample[i]).c_str());
	fprintf(o, "],\n\"known\":[");
	bool first = true;
	for (int i = 0; i < g_nknown; i++)
		if (S->known_hit[i]) {
			fprintf(o, "%s{\"sig\":\"%s\",\"count\":%d,\"detail\":\"%s\",\"item\":\"%s\"}", first ? "" : ",",
				jesc(g_known[i]).c_str(), S->known_hit[i].load(), jesc(S->known_detail[i]).c_str(),
				item_str(S->known_item[i]).c_str());
			first = false;
		}
	fprintf(o, "],\n\"rp\":\"");
	for (int i = 0; i < g_rp_n; i++)
		fprintf(o, "%s%x", i ? "," : "", g_rp[i]);
	fprintf(o, "\",\n\"sample\":\"%s\",\n", jesc(sample).c_str());
	if (violated)
		fprintf(o, "\"violation\":{\"sig\":\"%s\",\"msg\":\"%s\",\"item\":\"%s\",\"bound\":\"%d,%d\",\"trace\":\"%s\"}}\n",
			jesc(viol_sig).c_str(), jesc(viol_msg).c_str(), viol_item_s.c_str(), vbs, vbf,
			jesc(viol_trace.size() > 400000 ? viol_trace.substr(viol_trace.size() - 400000) : viol_trace).c_str());
	else
		fprintf(o, "\"violation\":null}\n");
	if (o != stdout)
		fclose(o);
	return engine_err ? 2 : violated ? 1 : 0;
}

} // namespace mc

// Harness allocations come from a per-execution arena.
void *operator new(size_t n) { return mc::g_in_exec ? mc::arena_alloc(n) : malloc(n); }
void *operator new[](size_t n) { return mc::g_in_exec ? mc::arena_alloc(n) : malloc(n); }
static void del(void *p)
{
	if (p && !((char *)p >= mc::arena_base && (char *)p < mc::arena_base + mc::arena_size))
		free(p);
}
void operator delete(void *p) noexcept { del(p); }
void operator delete[](void *p) noexcept { del(p); }
void operator delete(void *p, size_t) noexcept { del(p); }
void operator delete[](void *p, size_t) noexcept { del(p); }

#ifdef MC_ASAN
extern "C" const char *__asan_default_options()
{
	return "detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=8:abort_on_error=0:exitcode=1:"
	       "allocator_may_return_null=1:handle_segv=1:use_sigaltstack=1:detect_odr_violation=0:"
	       "malloc_context_size=8:print_summary=1:allow_user_segv_handler=0:thread_local_quarantine_size_kb=64";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1"; }
#endif

int main(int argc, char **argv) { return mc::main_(argc, argv); }
