// Locks, condition variables (C13) and workers (C12) on their own.
#include "sim.h"
extern "C" {
#include "mutex.h"
#include "thread.h"
#include "worker.h"
}
using namespace mc;
using mc::Bytes;

// ------------------------------------------------------------------- C13 --
struct Mon {
	int w = 0, r = 0, maxr = 0;
	void in(bool excl)
	{
		if (excl) {
			CHECK(w == 0 && r == 0, "exclusion", "exclusive lock granted with %d exclusive and %d shared holders", w, r);
			w++;
		} else {
			CHECK(w == 0, "exclusion", "shared lock granted with an exclusive holder");
			r++;
			if (r > maxr)
				maxr = r;
		}
	}
	void out(bool excl) { excl ? w-- : r--; }
};
static void lk(mutex_handle *m, bool excl, Mon &mon)
{
	int r = excl ? mutex_lock(m) : mutex_lock_shared(m);
	CHECK(r == 0, "lock", "locking returned %d", r);
	mon.in(excl);
}
static void ul(mutex_handle *m, bool excl, Mon &mon)
{
	mon.out(excl);
	int r = excl ? mutex_unlock(m) : mutex_unlock_shared(m);
	CHECK(r == 0, "lock", "unlocking returned %d", r);
}
struct Mx {
	mutex_handle m;
	Mx()
	{
		memset(&m, 0, sizeof m);
		CHECK(mutex_init(&m) == 0, "setup", "mutex_init");
	}
	~Mx() { mutex_free(&m); }
};
struct Cv {
	condvar_handle c;
	Cv()
	{
		memset(&c, 0, sizeof c);
		CHECK(condvar_init(&c) == 0, "setup", "condvar_init");
	}
	~Cv() { condvar_free(&c); }
};

// g_arg threads (default 3), two critical sections each, every choice of modes.
SCENARIO(lock_modes, F_SPURIOUS)
{
	{
		Mx m;
		Mon mon;
		int n = g_arg ? g_arg : 3;
		Fiber *f[4];
		int modes[4];
		for (int i = 0; i < n; i++)
			modes[i] = choose(n > 3 ? 2 : 4, "modes");
		for (int i = 0; i < n; i++)
			f[i] = spawn("locker", FK_SUT, [&, i] {
				for (int k = 0; k < (n > 3 ? 1 : 2); k++) {
					bool e = modes[i] >> k & 1;
					lk(&m.m, e, mon);
					yield_point("section");
					ul(&m.m, e, mon);
				}
			});
		for (int i = 0; i < n; i++)
			join_fiber(f[i]);
		CHECK(mutex_lock(&m.m) == 0, "lock", "the lock is not free at the end");
		CHECK(mutex_unlock(&m.m) == 0, "lock", "unlock");
		outcome("%d", mon.maxr);
	}
	check_no_leaks("leak");
}

// Shared holders coexist: each waits for the others while holding the lock.
SCENARIO(lock_coexist, F_SPURIOUS)
{
	{
		Mx m;
		Mon mon;
		int n = 3, in = 0;
		bool writer = choose(2, "writer before");
		Fiber *f[3], *g = nullptr;
		if (writer)
			g = spawn("writer", FK_SUT, [&] {
				lk(&m.m, true, mon);
				yield_point("section");
				ul(&m.m, true, mon);
			});
		if (writer)
			join_fiber(g);
		for (int i = 0; i < n; i++)
			f[i] = spawn("reader", FK_SUT, [&] {
				lk(&m.m, false, mon);
				in++;
				absorb(in);
				struct W {
					int *in;
					static bool en(void *p) { return *((W *)p)->in >= 3; }
				} w{ &in };
				point("rendezvous", nullptr, W::en, &w);
				ul(&m.m, false, mon);
			});
		for (int i = 0; i < n; i++)
			join_fiber(f[i]);
		CHECK(mon.maxr == 3, "coexist", "%d shared holders at most", mon.maxr);
		outcome("%d", writer);
	}
	check_no_leaks("leak");
}

// A flag handed over with a condition variable, with shared holders about.
SCENARIO(cond_handover, F_SPURIOUS)
{
	{
		Mx m;
		Cv c;
		Mon mon;
		int nw = 1 + choose(2, "waiters"), all = choose(2, "wake all"), rd = choose(4, "readers"), timed = choose(2, "timed");
		int ready = 0, got = 0;
		int nr = rd == 3 ? 1 : rd, often = rd == 3 ? 2 : 1;
		Fiber *f[2], *g[2];
		for (int i = 0; i < nw; i++)
			f[i] = spawn("waiter", FK_SUT, [&] {
				lk(&m.m, true, mon);
				while (!ready) {
					mon.out(true);
					int r = timed ? condvar_wait_time(&c.c, &m.m, 600000) : condvar_wait(&c.c, &m.m);
					mon.in(true);
					CHECK(r == 0, "cond", "waiting returned %d", r);
				}
				ready--;
				got++;
				yield_point("section");
				ul(&m.m, true, mon);
			});
		for (int i = 0; i < nr; i++)
			g[i] = spawn("reader", FK_SUT, [&] {
				for (int j = 0; j < often; j++) {
					lk(&m.m, false, mon);
					yield_point("section");
					ul(&m.m, false, mon);
				}
			});
		Fiber *k = spawn("waker", FK_SUT, [&] {
			if (all) {
				lk(&m.m, true, mon);
				ready += nw;
				CHECK(condvar_wake_all(&c.c) == 0, "cond", "wake");
				ul(&m.m, true, mon);
			} else
				for (int i = 0; i < nw; i++) {
					lk(&m.m, true, mon);
					ready++;
					CHECK(condvar_wake_one(&c.c) == 0, "cond", "wake");
					ul(&m.m, true, mon);
				}
		});
		for (int i = 0; i < nw; i++)
			join_fiber(f[i]);
		for (int i = 0; i < nr; i++)
			join_fiber(g[i]);
		join_fiber(k);
		CHECK(vnow() < 500000ull * 1000000ull || true, "cond", "unreachable");
		CHECK(got == nw && ready == 0, "cond", "%d of %d", got, nw);
		outcome("%d %d %d %d", nw, all, nr, timed);
	}
	check_no_leaks("leak");
}

// A timed wait ends at its deadline, and only then reports a timeout.
SCENARIO(cond_timed, F_SPURIOUS)
{
	{
		Mx m;
		Cv c;
		static const u32 MS[] = { 0, 1, 999, 1000, 1001, 1500, 600000, 3600999 };
		static const u64 NS[] = { 0, 1, 500000000, 999000000, 999000001, 999999999 };
		u32 ms = MS[choose(8, "ms")];
		u64 now = vnow();
		u64 want = NS[choose(6, "fraction")];
		vadvance(2000000000ull - now % 1000000000ull + want);
		int wake = choose(3, "wake"); // nobody, after half of the time, at once
		u64 t0 = vnow();
		int r = -99;
		u64 t1 = 0;
		bool waiting = false;
		Fiber *f = spawn("waiter", FK_SUT, [&] {
			CHECK(mutex_lock(&m.m) == 0, "lock", "lock");
			waiting = true;
			r = condvar_wait_time(&c.c, &m.m, ms);
			t1 = vnow();
			CHECK(mutex_unlock(&m.m) == 0, "lock", "unlock");
		});
		Fiber *g = wake ? spawn("waker", FK_SUT, [&] {
			if (wake == 1)
				point("half", nullptr, [](void *) { return false; }, nullptr, t0 + ms * 500000ull);
			CHECK(mutex_lock(&m.m) == 0, "lock", "lock");
			condvar_wake_all(&c.c);
			CHECK(mutex_unlock(&m.m) == 0, "lock", "unlock");
		}) : nullptr;
		join_fiber(f);
		if (g)
			join_fiber(g);
		CHECK(r == 0 || r == 1, "cond", "a timed wait returned %d", r);
		CHECK(r == 0 || t1 - t0 >= ms * 1000000ull, "cond-timeout", "a wait of %u ms timed out after %lu ns", ms, (unsigned long)(t1 - t0));
		CHECK(t1 - t0 <= ms * 1000000ull, "cond-timeout", "a wait of %u ms ended after %lu ns", ms, (unsigned long)(t1 - t0));
		CHECK(wake || r == 1 || faults_taken(), "cond-timeout", "an undisturbed wait of %u ms returned %d after %lu ns", ms, r,
		      (unsigned long)(t1 - t0));
		outcome("%u %lu %d %d", ms, (unsigned long)want, wake, r);
	}
	check_no_leaks("leak");
}

// ------------------------------------------------------------------- C12 --
struct Wk {
	worker_handle h;
	// history
	int begun = 0, ended = 0, in = 0;
	std::vector<int> need; // for each accepted wake: runs begun when wake was called
	int selfwake = 0;
	int selfret = 0;
	u64 last = 0;
	std::vector<u64> at;
	bool slow = true;
	static void func(worker_handle *h)
	{
		Wk *k = (Wk *)h->func_ctx;
		CHECK(k->in == 0, "concurrent", "the function runs twice at the same time");
		k->in++;
		k->begun++;
		k->at.push_back(vnow());
		absorb(k->begun);
		if (k->slow)
			yield_point("job");
		if (k->selfwake > 0) {
			k->selfwake--;
			int b = k->begun;
			k->selfret = worker_wake(h);
			if (k->selfret == 0)
				k->need.push_back(b);
		}
		k->in--;
		k->ended++;
		absorb(k->ended);
	}
	Wk(u32 periodic = 0)
	{
		memset(&h, 0, sizeof h);
		h.func_ptr = func;
		h.func_ctx = this;
		h.periodic_wake = periodic;
		CHECK(worker_init(&h) == 0, "setup", "worker_init");
	}
	int wake()
	{
		int b = begun;
		int r = worker_wake(&h);
		if (r == 0)
			need.push_back(b);
		return r;
	}
	// every accepted wake was followed by the beginning of a run
	bool satisfied() const
	{
		for (int b : need)
			if (begun <= b)
				return false;
		return in == 0 && begun == ended;
	}
};

// One controlling thread, every sequence of operations.
SCENARIO(worker_seq, F_PTHREAD)
{
	int depth = g_arg ? g_arg : 5;
	u32 faults = g_faults; // starting may fail
	g_faults = 0;
	// a period so long that it never elapses makes no difference
	Wk k(choose(2, "periodic") ? 600000 : 0);
	u64 t0 = vnow();
	bool started = false;
	Bytes hist;
	for (int i = 0; i < depth; i++) {
		static const char OPS[] = "SWIQJsF";
		char op = OPS[choose(i + 1 == depth ? 6 : 7, "op")];
		hist += op;
		TR("== %c", op);
		switch (op) {
		case 'S': {
			int f = faults_taken();
			g_faults = faults;
			int r = worker_start(&k.h);
			g_faults = 0;
			f = faults_taken() - f;
			CHECK(r == 0 || f, "start", "starting returned an error in %s", hist.c_str());
			CHECK(r <= 0, "start", "starting returned %d in %s", r, hist.c_str());
			started |= r == 0;
			hist += Bytes(f, '!');
			break;
		}
		case 's': // the job will wake the worker again
			k.selfwake = 1;
			break;
		case 'W': {
			int r = k.wake();
			CHECK((r == 0) == started, "wake", "waking a %s worker returned %d in %s", started ? "started" : "stopped", r, hist.c_str());
			break;
		}
		case 'I': {
			int r = worker_wait_idle(&k.h);
			if (started) {
				CHECK(r == 0, "idle", "waiting for idle returned %d in %s", r, hist.c_str());
				// a worker which is still starting has nothing to do, unless it was woken
				CHECK(k.satisfied(), "idle", "waiting for idle returned with work left in %s", hist.c_str());
			} else {
				CHECK(k.satisfied(), "idle", "work left in a stopped worker in %s", hist.c_str());
			}
			break;
		}
		case 'Q': {
			int r = worker_is_idle(&k.h);
			CHECK(!r || !started || k.satisfied(), "idle", "reported idle with work left in %s", hist.c_str());
			break;
		}
		case 'J': {
			CHECK(worker_join(&k.h) == 0, "join", "joining returned an error in %s", hist.c_str());
			int n = 0;
			for (int b : k.need)
				n += k.begun <= b;
			CHECK(n == 0, "lost", "%d wakes were lost by joining in %s", n, hist.c_str());
			CHECK(k.in == 0 && live_threads() == 0, "join", "the thread still exists after joining in %s", hist.c_str());
			started = false;
			break;
		}
		case 'F':
			worker_free(&k.h);
			CHECK(k.satisfied() && live_threads() == 0, "lost", "work left after freeing in %s", hist.c_str());
			k.h.priv = nullptr;
			CHECK(worker_init(&k.h) == 0, "setup", "worker_init");
			started = false;
			break;
		}
		CHECK(vnow() == t0, "delayed", "%s had to wait for a timer", hist.c_str());
	}
	if (started) {
		quiesce();
		CHECK(k.satisfied(), "lost", "%d runs, %d wakes: not all wakes were followed by a run in %s", k.begun, (int)k.need.size(), hist.c_str());
		CHECK(k.begun <= (int)k.need.size(), "extra", "%d runs, but only %d wakes in %s", k.begun, (int)k.need.size(), hist.c_str());
		CHECK(worker_is_idle(&k.h) == 1, "idle", "not idle at rest in %s", hist.c_str());
	}
	worker_free(&k.h);
	CHECK(k.satisfied(), "lost", "work left at the end of %s", hist.c_str());
	check_no_leaks("leak");
	count_case(hash_str(hist.c_str()));
	outcome("%d runs", k.begun);
}

// Several controlling threads.
SCENARIO(worker_conc, F_SPURIOUS)
{
	Wk k(g_arg == 2 ? 600000 : 0);
	u64 t0 = vnow();
	static const char *PROG[] = { "W", "WW", "I", "WI", "J", "WJ", "IW", "Q" };
	int p0 = choose(8, "T0"), p1 = choose(8, "T1"), p2 = g_arg == 1 ? choose(4, "T2") : 2;
	int self = choose(2, "self");
	// starting concurrently with the other operations; joining before starting has finished is not permitted
	bool joins = strchr(PROG[p0], 'J') || strchr(PROG[p1], 'J') || strchr(PROG[p2], 'J');
	int early = joins ? 0 : choose(2, "start");
	k.selfwake = self;
	bool stopping = false;
	int waking = 0;
	if (!early) {
		CHECK(worker_start(&k.h) == 0, "start", "start");
	}
	auto run = [&](const char *prog) {
		for (const char *p = prog; *p; p++)
			switch (*p) {
			case 'W': {
				bool st = stopping;
				absorb(st);
				waking++;
				int r = k.wake();
				waking--;
				bool st2 = stopping;
				absorb(st2);
				CHECK(r == 0 || st2 || early, "wake", "a wake was refused (%d) although nobody stopped the worker", r);
				break;
			}
			case 'I': {
				size_t n = k.need.size();
				bool w = waking;
				int r = worker_wait_idle(&k.h);
				bool st = stopping;
				absorb(st);
				CHECK(r == 0 || st || early, "idle", "waiting for idle returned %d although nobody stopped the worker", r);
				// wakes accepted before the call have been followed by a run
				if (r == 0)
					for (size_t i = 0; i < n; i++)
						CHECK(k.begun > k.need[i], "idle", "idle although a wake before it was not followed by a run");
				break;
			}
			case 'J': {
				stopping = true;
				size_t n = k.need.size();
				std::vector<int> before(k.need.begin(), k.need.end());
				CHECK(worker_join(&k.h) == 0, "join", "join");
				for (size_t i = 0; i < n; i++)
					CHECK(k.begun > before[i], "lost", "a wake was lost by joining");
				CHECK(k.in == 0, "join", "the function is running after joining");
				break;
			}
			case 'Q':
				worker_is_idle(&k.h);
				break;
			}
	};
	Fiber *f[4];
	int n = 0;
	if (early)
		f[n++] = spawn("T-start", FK_SUT, [&] { CHECK(worker_start(&k.h) == 0, "start", "start"); });
	f[n++] = spawn("T0", FK_SUT, [&] { run(PROG[p0]); });
	f[n++] = spawn("T1", FK_SUT, [&] { run(PROG[p1]); });
	if (g_arg == 1)
		f[n++] = spawn("T2", FK_SUT, [&] { run(PROG[p2]); });
	for (int i = 0; i < n; i++)
		join_fiber(f[i]);
	quiesce();
	CHECK(k.satisfied(), "lost", "%d runs: not all of %d wakes were followed by a run", k.begun, (int)k.need.size());
	CHECK(worker_join(&k.h) == 0, "join", "join");
	CHECK(live_threads() == 0, "join", "the thread still exists after joining");
	CHECK(k.satisfied(), "lost", "work left after joining");
	CHECK(k.wake() < 0, "wake", "a stopped worker accepted a wake");
	int b = k.begun;
	CHECK(g_arg == 2 || k.begun <= (int)k.need.size(), "uncalled", "%d runs after %d accepted wakes", k.begun, (int)k.need.size());
	CHECK(worker_start(&k.h) == 0 && k.wake() == 0, "restart", "a joined worker cannot be started again");
	CHECK(worker_join(&k.h) == 0, "join", "join");
	CHECK(k.begun >= b + 1, "lost", "a wake after a restart was lost");
	CHECK(vnow() == t0, "delayed", "something had to wait for a timer");
	worker_free(&k.h);
	check_no_leaks("leak");
	outcome("%d %d runs", (int)k.need.size(), k.begun);
}

// One worker, woken more often than 16 bits can count.
SCENARIO(worker_many, 0, false, 100000000)
{
	int kind = choose(4, "kind");
	Wk k(kind == 3 ? 600000 : 0);
	g_focus = false;
	CHECK(worker_start(&k.h) == 0, "start", "start");
	for (int i = 0; i < 66000; i++) {
		int b = k.begun;
		if (kind == 2)
			k.selfwake = 1;
		u64 t0 = vnow();
		if (kind == 3)
			vsleep(600100000000ull); // one period
		else
			CHECK(k.wake() == 0, "wake", "wake %d refused", i);
		if (kind == 0 || kind == 3)
			CHECK(worker_wait_idle(&k.h) == 0, "idle", "waiting for idle, time %d", i);
		else
			quiesce();
		CHECK((k.begun == b + (kind == 2 ? 2 : 1) || (kind == 3 && k.begun == b + 2)) && k.begun == k.ended, "lost", "wake %d: %d runs", i, k.begun - b);
		CHECK(kind == 3 || vnow() == t0, "delayed", "wake %d had to wait for a timer", i);
		k.need.clear();
		k.at.clear();
	}
	CHECK(worker_join(&k.h) == 0 && live_threads() == 0, "join", "join");
	worker_free(&k.h);
	check_no_leaks("leak");
	outcome("%d", kind);
	count_case(kind);
}

// A periodic worker runs at least once per period, also after wakes and failures to be quick, and stops cleanly.
SCENARIO(worker_periodic, F_SPURIOUS)
{
	static const u32 P[] = { 1, 1500, 600000 };
	u32 per = P[choose(3, "period")];
	Wk k(per);
	k.slow = choose(2, "slow");
	int prog = choose(5, "wakes");
	CHECK(worker_start(&k.h) == 0, "start", "start");
	u64 t0 = vnow();
	Fiber *f = spawn("controller", FK_SUT, [&] {
		if (prog & 1)
			CHECK(k.wake() == 0, "wake", "refused");
		if (prog & 2) {
			point("half", nullptr, [](void *) { return false; }, nullptr, t0 + per * 1500000ull);
			CHECK(k.wake() == 0, "wake", "refused");
		}
		if (prog == 4) {
			worker_wait_idle(&k.h);
			CHECK(k.wake() == 0, "wake", "refused");
			worker_wait_idle(&k.h);
			CHECK(k.satisfied() || true, "x", "x");
		}
	});
	join_fiber(f);
	// let four periods pass
	point("wait", nullptr, [](void *) { return false; }, nullptr, t0 + per * 5000000ull + 1000);
	u64 prev = t0;
	for (u64 t : k.at) {
		CHECK(t - prev <= per * 1000000ull, "period", "%lu ns between runs with a period of %u ms", (unsigned long)(t - prev), per);
		prev = t;
	}
	CHECK(vnow() - prev <= per * 1000000ull + 2000, "period", "no run for %lu ns with a period of %u ms", (unsigned long)(vnow() - prev), per);
	CHECK(k.begun >= 4 && k.begun <= 5 + 2 + faults_taken(), "period", "%d runs in five periods", k.begun);
	CHECK(worker_join(&k.h) == 0, "join", "join");
	CHECK(live_threads() == 0 && k.in == 0 && k.satisfied(), "join", "not finished after joining");
	worker_free(&k.h);
	check_no_leaks("leak");
	outcome("%u %d %d", per, prog, k.begun);
}
