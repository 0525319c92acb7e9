// elmc - a stateless model checker for OpenELP.  See DESIGN.md.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace mc {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

static inline u64 mix(u64 a, u64 b)
{
	a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
	a *= 0xff51afd7ed558ccdull;
	a ^= a >> 32;
	a *= 0xc4ceb9fe1a85ec53ull;
	a ^= a >> 29;
	return a;
}
u64 hash_bytes(const void *p, size_t n);
static inline u64 hash_str(const char *s) { return hash_bytes(s, strlen(s)); }

// ---- allocation that survives executions (engine only) ------------------
template <class T> struct MAlloc {
	typedef T value_type;
	MAlloc() {}
	template <class U> MAlloc(const MAlloc<U> &) {}
	T *allocate(size_t n) { return (T *)::malloc(n * sizeof(T)); }
	void deallocate(T *p, size_t) { ::free(p); }
	bool operator==(const MAlloc &) const { return true; }
	bool operator!=(const MAlloc &) const { return false; }
};
template <class T> using PVec = std::vector<T, MAlloc<T>>;

// ---- vector clocks (race build only) -------------------------------------
#ifndef MC_MAXFIBER
#define MC_MAXFIBER 64
#endif
struct VC {
#ifdef MC_RACE
	u32 c[MC_MAXFIBER];
#else
	u32 c[1];
#endif
};

// ---- happens-before objects ------------------------------------------------
struct Obj {
	u64 h = 0;
};

enum FiberKind { FK_SUT, FK_PEER };

struct Fiber {
	int id;
	FiberKind kind;
	char name[32];
	void *sp;
	char *stk;
	size_t stksz;
	void *fake;
	bool live, done, joined, detached, main;
	int saved_errno;
	u64 h; // happens-before hash
	u32 nobj;
	u32 ops; // operations executed
	// pending operation
	const char *op;
	const void *opobj;
	bool (*en)(void *);
	void *en_arg;
	u64 deadline; // virtual ns, 0 = none
	bool timed_out;
	bool quiescing;
	bool interruptible, interrupted;
	int deliver; // signal to deliver on resume
	u64 sigmask; // blocked signals
	u64 sigwaiting;
	bool in_handler;
	std::function<void()> *fn;
	void *(*start)(void *);
	void *arg;
	void *ret;
	const void *exclude_mutex;
	VC vc;
};

Fiber *self();
Fiber *fiber_by_id(int id);
int nfibers();
bool on_fiber();

// Scheduling point.  Returns true if the operation timed out.
bool point(const char *op, const void *obj = nullptr, bool (*en)(void *) = nullptr, void *arg = nullptr,
	   u64 deadline = 0, bool interruptible = false);
// true if the last point() of this fiber was interrupted by a signal
bool was_interrupted();

void touch(Obj &o, u64 op);       // happens-before step on an object
void absorb(u64 v);                // mix a value into the running fiber's hash
void absorb_all();                 // dependency on every fiber

// Choices.  INPUT choices cost nothing, FAULT choices cost one fault.
int choose(int n, const char *label);
int fault_choice(int n, const char *label);

enum FaultClass : u32 {
	F_MALLOC = 1u << 0,
	F_PTHREAD = 1u << 1,
	F_SHORT_RECV = 1u << 2,
	F_SHORT_SEND = 1u << 3,
	F_SOCK = 1u << 4,     // socket/setsockopt/bind/listen/getaddrinfo
	F_CONNECT = 1u << 5,
	F_ACCEPT = 1u << 6,
	F_RECVERR = 1u << 7,
	F_SENDERR = 1u << 8,
	F_SPURIOUS = 1u << 9,
	F_TIMER = 1u << 10,
	F_FILE = 1u << 11,
	F_PCRE = 1u << 12,
	F_PROC = 1u << 13,
	F_SENDTO = 1u << 14,
};
extern u32 g_faults;   // enabled classes (scenario configures)
extern bool g_focus;   // explore scheduling alternatives here
static inline bool faults_on(u32 c) { return (g_faults & c) != 0; }
// Returns 0 (no fault) or 1..n-1
int fault(u32 cls, int n, const char *label);
int faults_taken();

Fiber *spawn(const char *name, FiberKind k, std::function<void()> fn);
Fiber *spawn_thread(void *(*start)(void *), void *arg);
void join_fiber(Fiber *f); // harness-side join (scheduling point)
void quiesce();            // run until nothing else can run
void yield_point(const char *op = "yield");
bool all_done(FiberKind k, Fiber *except = nullptr);

[[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(c, sig, ...)                                                                                             \
	do {                                                                                                           \
		if (!(c)) ::mc::fail(sig, __VA_ARGS__);                                                                \
	} while (0)

void outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_tracing;
void trace_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define TR(...)                                                                                                        \
	do {                                                                                                           \
		if (::mc::g_tracing) ::mc::trace_(__VA_ARGS__);                                                        \
	} while (0)

// additional counter for enumerated data cases (exploration-style harnesses)
void count_case(u64 distinct_hash);

// virtual time (ns)
u64 vnow();
void vadvance(u64 ns);
extern Obj g_clock_obj;

// signals
// arrive: a process-directed signal; returns the fiber to run the handler on, or -1.
// handle: runs the handler, returns false if the interrupted call is restarted.  next: a pending signal the fiber can take now, or 0.
void signal_hooks(int (*arrive)(int), bool (*handle)(int), int (*next)(Fiber *));
void signals_enable(const int *sigs, int n); // one FAULT each time one arrives
extern u64 g_ext_key; // state not visible in any fiber's history

// reset hooks (run before each execution)
void on_reset(void (*f)());
// per-execution bump allocator
void *arena_alloc(size_t n);

struct Scenario {
	const char *name;
	void (*fn)();
	u32 faults;          // enabled fault classes
	bool cache;          // happens-before caching allowed
	int step_limit;
	Scenario *next;
	Scenario(const char *n, void (*f)(), u32 fc = 0, bool ca = true, int sl = 40000);
};
#define SCENARIO(id, ...)                                                                                              \
	static void id##_fn();                                                                                         \
	static ::mc::Scenario id##_sc(#id, id##_fn, ##__VA_ARGS__);                                                   \
	static void id##_fn()

// scenario argument (--arg N), for parametrised scenarios
extern long g_arg;
extern int g_tier; // 0 quick, 1 thorough

// hooks used by the race detector build
void race_fork(Fiber *parent, Fiber *child);
void race_join(Fiber *child);
void race_acquire(const void *key);
void race_release(const void *key);
void race_reset();
void race_free(void *p, size_t n);
void race_range(const void *p, size_t n, bool wr, const void *pc);
extern bool g_race_build;
// Accesses which take part in a data race become scheduling points (--rp): the exploration is repeated with them until no
// further racing access appears.
extern int g_rp_mode, g_rp_n;
extern u32 g_rp[64];
void rp_note(u32 pc);

} // namespace mc
