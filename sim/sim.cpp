// Deterministic simulator: scheduler, synchronisation, clock, allocator, fault injection,
// happens-before race detector and memory checker. See DESIGN.md.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "gen.h"
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <link.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <zstd.h>
#include <zstd_errors.h>

#if defined(SIM_ASAN)
#include <sanitizer/asan_interface.h>
#endif

#define EXPORT extern "C" __attribute__((visibility("default")))
#define NOINLINE __attribute__((noinline))

// ------------------------------------------------------------------------------------------------
// Result shared with the parent process
// ------------------------------------------------------------------------------------------------
static const unsigned MAX_DEC = 400000;
struct Counter
{
	char name[44];
	uint32_t n;
};
struct Result
{
	int status; // 0 running, 1 ok, 2 violation
	char cls[64];
	char msg[1500];
	uint64_t hash, steps, acc, switches, simtime, shash;
	uint32_t nprobes, nfaults;
	Counter probes[256];
	Counter faults[64];
	uint32_t ndec;
	Decision dec[MAX_DEC];
};
static Result* R;
static bool g_trace = false;

// ------------------------------------------------------------------------------------------------
// Arena
// ------------------------------------------------------------------------------------------------
static const uintptr_t ARENA = 0x600000000000ull;
static const size_t HEAP_SIZE = 768ull << 20;
static const int MAXT = 64;
static const size_t STACK_SIZE = 1ull << 20;
static const size_t ARENA_SIZE = HEAP_SIZE + MAXT * STACK_SIZE;
static const uintptr_t HEAP_END = ARENA + HEAP_SIZE;
static const uintptr_t ARENA_END = ARENA + ARENA_SIZE;
#if !defined(SIM_ASAN)
static uint8_t* g_state;   // one byte per 8 bytes of heap
static uint64_t* g_shadow; // 4 slots per 8 bytes of arena
#endif
static std::vector<std::string> g_libs;
struct DataSeg
{
	uintptr_t lo, hi;
	uint64_t* shadow;
};
static DataSeg g_segs[16];
static int g_nsegs = 0;

// ------------------------------------------------------------------------------------------------
// Threads
// ------------------------------------------------------------------------------------------------
struct VC
{
	uint32_t c[MAXT];
	void join(const VC& o)
	{
		for (int i = 0; i < MAXT; ++i)
			if (o.c[i] > c[i])
				c[i] = o.c[i];
	}
};
struct TlsDtor
{
	void (*fn)(void*);
	void* obj;
};
enum
{
	ST_RUN,
	ST_BLOCKED,
	ST_DONE
};
enum Kind
{
	K_NONE,
	K_MUTEX,
	K_COND,
	K_JOIN,
	K_GUARD,
	K_SLEEP,
	K_ONCE,
	K_RW,
	K_SEM
};
static const char* kind_name[] = { "-", "mutex", "condition variable", "thread join", "static initialisation", "sleep", "once", "rwlock", "semaphore" };
struct Scope
{
	int op;
	uint64_t count, fired;
	uint64_t zcount, dcount, ccount;
	bool healed;
	std::vector<const Item*> faults;
};
struct Thread
{
	int id = 0;
	int state = ST_RUN;
	Kind wk = K_NONE;
	void* wobj = nullptr;
	bool timed = false, woken = false, client = false, detached = false;
	uint64_t wake_at = 0;
	uint64_t prio = 0;
	int sut = 0;
	Scope* scope = nullptr;
	VC vc{}, frel{}, apend{};
	pthread_t pt{};
	int go = 0;
	void* (*fn)(void*) = nullptr;
	void* arg = nullptr;
	void* ret = nullptr;
	std::vector<TlsDtor> dtors;
	std::map<unsigned, void*> keys;
	uint64_t run_len = 0;
	uint64_t last_clock = 0;
};
static Thread* g_thr[MAXT];
static int g_nthr = 0;
static Thread* g_cur = nullptr;
static bool g_active = false;
static __thread Thread* t_self = nullptr;
static const Plan* g_plan = nullptr;
static int g_in_rt = 0; // inside wrapped uninstrumented code: accesses are not checked

// knobs
static struct Knobs
{
	uint64_t policy, pre, plainpre, spurious, hc, reuse, fill, timed, speed, gran, stall, stallns, memns, maxsteps, atomic_sched;
} K;
static Rng g_srng(1), g_trng(1), g_frng(1);
static uint64_t g_step = 0, g_acc = 0, g_plain_cd = 0, g_switches = 0;
static uint64_t g_now = 1000000000ull, g_acc_billed = 0;
static std::vector<uint64_t> g_pct_points;
static uint64_t g_pct_low = 1u << 20;

// explicit schedule lookup
static std::unordered_map<uint64_t, uint32_t> g_xs, g_xw, g_xu;
static std::vector<Decision> g_xp;
static size_t g_xp_i = 0;

static void hash_add(uint64_t v)
{
	R->hash = (R->hash ^ v) * 0x100000001B3ull;
	R->hash ^= R->hash >> 29;
}
static void finish(int status, const char* cls, const char* msg);
static void record(char type, uint64_t at, uint32_t val)
{
	if (R->ndec < MAX_DEC)
		R->dec[R->ndec++] = Decision{ type, at, val };
}

static long futex(int* u, int op, int v) { return syscall(SYS_futex, u, op, v, nullptr, nullptr, 0); }
static void go(Thread* t)
{
	__atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
	futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
static void wait_go(Thread* t)
{
	while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST))
		futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}

// ------------------------------------------------------------------------------------------------
// Real functions
// ------------------------------------------------------------------------------------------------
#define REAL(name) static decltype(&name) real_##name = nullptr
REAL(pthread_create);
REAL(pthread_join);
REAL(pthread_detach);
REAL(pthread_mutex_lock);
REAL(pthread_mutex_trylock);
REAL(pthread_mutex_unlock);
REAL(pthread_cond_wait);
REAL(pthread_cond_signal);
REAL(pthread_cond_broadcast);
REAL(clock_gettime);
REAL(gettimeofday);
REAL(sched_yield);
REAL(nanosleep);
REAL(clock_nanosleep);
REAL(ZSTD_createCCtx);
REAL(ZSTD_freeCCtx);
REAL(ZSTD_compressCCtx);
REAL(ZSTD_compress_usingCDict);
REAL(ZSTD_compress);
REAL(ZSTD_decompress);
REAL(ZSTD_decompressDCtx);
static void resolve()
{
#define RES(name) real_##name = (decltype(&name))dlsym(RTLD_NEXT, #name)
	RES(pthread_create);
	RES(pthread_join);
	RES(pthread_detach);
	RES(pthread_mutex_lock);
	RES(pthread_mutex_trylock);
	RES(pthread_mutex_unlock);
	RES(pthread_cond_wait);
	RES(pthread_cond_signal);
	RES(pthread_cond_broadcast);
	RES(clock_gettime);
	RES(gettimeofday);
	RES(sched_yield);
	RES(nanosleep);
	RES(clock_nanosleep);
	RES(ZSTD_createCCtx);
	RES(ZSTD_freeCCtx);
	RES(ZSTD_compressCCtx);
	RES(ZSTD_compress_usingCDict);
	RES(ZSTD_compress);
	RES(ZSTD_decompress);
	RES(ZSTD_decompressDCtx);
}

// ------------------------------------------------------------------------------------------------
// Clock
// ------------------------------------------------------------------------------------------------
static void bill()
{
	// bill instrumented work done since last time
	uint64_t d = g_acc - g_acc_billed;
	g_acc_billed = g_acc;
	g_now += d * K.memns / 64;
}
static uint64_t now_reading()
{
	bill();
	return K.gran > 1 ? g_now / K.gran * K.gran : g_now;
}

// ------------------------------------------------------------------------------------------------
// Scheduler
// ------------------------------------------------------------------------------------------------
static bool runnable(Thread* t) { return t->state == ST_RUN || (t->state == ST_BLOCKED && t->timed && t->wake_at <= g_now); }

static void describe_deadlock()
{
	std::string m = "no thread can make progress:";
	for (int i = 0; i < g_nthr; ++i) {
		Thread* t = g_thr[i];
		if (t->state == ST_DONE)
			continue;
		m += " [" + std::string(t->id == 0 ? "main" : t->client ? "caller" : "library") + " thread " + std::to_string(t->id) + " waits for " + kind_name[t->wk] + "]";
	}
	finish(2, "deadlock", m.c_str());
}

static void stat_switch(Thread* from, Thread* to, int kind)
{
	// hash of the sequence of context switches: measure of distinct interleavings
	R->shash = (R->shash ^ ((uint64_t)from->id << 40 | (uint64_t)to->id << 32 | (uint64_t)kind << 24 | (g_step & 0xFFFFFF))) * 0x100000001B3ull;
	R->shash ^= R->shash >> 31;
}

// choose the next thread and run it. cur_ok: current thread may continue
static void reschedule(bool cur_ok, int kind, bool prefer_other = false, bool plain = false)
{
	Thread* me = g_cur;
	Thread* list[MAXT];
	int n;
	for (;;) {
		n = 0;
		for (int i = 0; i < g_nthr; ++i)
			if (runnable(g_thr[i]) && (cur_ok || g_thr[i] != me || me->state == ST_BLOCKED))
				list[n++] = g_thr[i];
		if (n)
			break;
		// nothing runnable: jump the clock to the next timed event
		Thread* best = nullptr;
		for (int i = 0; i < g_nthr; ++i)
			if (g_thr[i]->state == ST_BLOCKED && g_thr[i]->timed && (!best || g_thr[i]->wake_at < best->wake_at))
				best = g_thr[i];
		if (!best)
			describe_deadlock();
		if (best->wake_at > g_now)
			g_now = best->wake_at;
	}
	bool me_run = cur_ok && runnable(me);
	if (me_run && ++me->run_len > 4000) {
		// fairness: a thread spinning without blocking eventually lets the others run
		me->run_len = 0;
		me->prio = --g_pct_low;
		prefer_other = true;
	}
	// default choice
	Thread* def = nullptr;
	if (me_run && !prefer_other)
		def = me;
	else {
		// next runnable in cyclic order
		for (int k = 1; k <= g_nthr && !def; ++k) {
			Thread* c = g_thr[(me->id + k) % g_nthr];
			if (c == me && !me_run && me->state == ST_RUN)
				continue;
			for (int j = 0; j < n; ++j)
				if (list[j] == c && (c != me || n == 1)) {
					def = c;
					break;
				}
		}
		if (!def)
			def = list[0];
	}
	Thread* next = def;
	if (g_plan->explicit_sched) {
		uint32_t v = ~0u;
		if (plain)
			v = g_xp[g_xp_i - 1].val;
		else {
			auto it = g_xs.find(g_step);
			if (it != g_xs.end())
				v = it->second;
		}
		if (v != ~0u)
			for (int j = 0; j < n; ++j)
				if ((uint32_t)list[j]->id == v)
					next = list[j];
	}
	else {
		if (n > 1) {
			switch (K.policy) {
				case 1: { // PCT: highest priority runs; priorities change at random points
					if (me_run && prefer_other)
						me->prio = --g_pct_low;
					while (!g_pct_points.empty() && g_step >= g_pct_points.back()) {
						g_pct_points.pop_back();
						me->prio = --g_pct_low;
					}
					if (plain)
						me->prio = --g_pct_low;
					next = list[0];
					for (int j = 1; j < n; ++j)
						if (list[j]->prio > next->prio)
							next = list[j];
				} break;
				case 2: // switch at every step
					next = list[g_srng.below(n)];
					break;
				case 3: // run to block, random choice when blocked
					if (!me_run || prefer_other || plain)
						next = list[g_srng.below(n)];
					break;
				default: // random preemption
					if (!me_run || prefer_other || plain || g_srng.below(K.pre) == 0)
						next = list[g_srng.below(n)];
					break;
			}
			if (next == me && prefer_other && n > 1 && K.policy != 1) {
				next = def;
			}
		}
		if (next != def || plain)
			record(plain ? 'p' : 's', plain ? g_acc : g_step, (uint32_t)next->id);
	}
	if (next == me) {
		if (me->state == ST_BLOCKED)
			me->state = ST_RUN;
		return;
	}
	if (next->state == ST_BLOCKED)
		next->state = ST_RUN; // timed out
	me->run_len = 0;
	++g_switches;
	stat_switch(me, next, kind);
	g_cur = next;
	bool done = me->state == ST_DONE;
	go(next);
	if (done) {
		for (;;)
			pause();
	}
	wait_go(me);
}

struct Sync
{
	VC vc{};
	Thread* owner = nullptr;
	int depth = 0;
	int readers = 0;
	int value = 0;
	bool vcset = false;
	std::deque<Thread*> waiters; // condition variables
};
static std::unordered_map<uintptr_t, Sync*>* g_sync;
static Sync& sync_of(const void* p)
{
	auto& s = (*g_sync)[(uintptr_t)p];
	if (!s)
		s = new Sync();
	return *s;
}
static void acquire(Sync& s)
{
	if (s.vcset)
		g_cur->vc.join(s.vc);
}
static void release(Sync& s, bool merge = true)
{
	if (merge && s.vcset)
		s.vc.join(g_cur->vc);
	else
		s.vc = g_cur->vc;
	s.vcset = true;
	++g_cur->vc.c[g_cur->id];
}

static void maybe_spurious()
{
	if (g_plan->explicit_sched) {
		auto it = g_xu.find(g_step);
		if (it == g_xu.end())
			return;
		Thread* t = it->second < (uint32_t)g_nthr ? g_thr[it->second] : nullptr;
		if (t && t->state == ST_BLOCKED && t->wk == K_COND) {
			t->state = ST_RUN;
			sim_fault("spurious_wakeup");
		}
		return;
	}
	if (!K.spurious || g_frng.below(K.spurious) != 0)
		return;
	Thread* l[MAXT];
	int n = 0;
	for (int i = 0; i < g_nthr; ++i)
		if (g_thr[i]->state == ST_BLOCKED && g_thr[i]->wk == K_COND)
			l[n++] = g_thr[i];
	if (!n)
		return;
	Thread* t = l[g_frng.below(n)];
	t->state = ST_RUN;
	sim_fault("spurious_wakeup");
	record('u', g_step, (uint32_t)t->id);
}

static void sched_point(int kind, bool prefer_other = false)
{
	++g_step;
	hash_add((uint64_t)kind << 8 | (uint64_t)g_cur->id);
	if (g_step > K.maxsteps)
		finish(2, "livelock", "step limit exceeded: a call does not terminate");
	if (K.stall && g_trng.below(K.stall) == 0) {
		g_now += g_trng.logu(1000, K.stallns < 2000 ? 2000 : K.stallns);
		sim_fault("clock_stall");
	}
	maybe_spurious();
	reschedule(true, kind, prefer_other);
}
static void block(Kind k, void* obj, bool timed = false, uint64_t wake = 0)
{
	Thread* me = g_cur;
	me->state = ST_BLOCKED;
	me->wk = k;
	me->wobj = obj;
	me->timed = timed;
	me->wake_at = wake;
	++g_step;
	reschedule(false, 100 + k);
	me->wk = K_NONE;
	me->timed = false;
	me->wobj = nullptr;
}
static void wake_all(Kind k, void* obj)
{
	for (int i = 0; i < g_nthr; ++i)
		if (g_thr[i]->state == ST_BLOCKED && g_thr[i]->wk == k && g_thr[i]->wobj == obj)
			g_thr[i]->state = ST_RUN;
}
static bool simmed() { return g_active && t_self; }

// ------------------------------------------------------------------------------------------------
// Verdicts
// ------------------------------------------------------------------------------------------------
static void count(Counter* c, uint32_t& n, uint32_t max, const char* name)
{
	for (uint32_t i = 0; i < n; ++i)
		if (strncmp(c[i].name, name, sizeof(c[i].name) - 1) == 0) {
			++c[i].n;
			return;
		}
	if (n < max) {
		strncpy(c[n].name, name, sizeof(c[n].name) - 1);
		c[n++].n = 1;
	}
}
EXPORT void sim_probe(const char* name) { count(R->probes, R->nprobes, 256, name); }
EXPORT void sim_fault(const char* name) { count(R->faults, R->nfaults, 64, name); }
EXPORT void sim_hash(uint64_t v) { hash_add(v); }
EXPORT void sim_note(const char* fmt, ...)
{
	if (!g_trace)
		return;
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "[t%d step %llu] ", g_cur ? g_cur->id : -1, (unsigned long long)g_step);
	vfprintf(stderr, fmt, ap);
	fputc('\n', stderr);
	va_end(ap);
}
static void stats()
{
	R->steps = g_step;
	R->acc = g_acc;
	R->switches = g_switches;
	R->simtime = g_now - 1000000000ull;
}
static void finish(int status, const char* cls, const char* msg)
{
	if (R->status == 0) {
		strncpy(R->cls, cls, sizeof(R->cls) - 1);
		strncpy(R->msg, msg, sizeof(R->msg) - 1);
		stats();
		R->status = status;
	}
	_exit(0);
}
EXPORT void sim_fail(const char* cls, const char* fmt, ...)
{
	char buf[1400];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	finish(2, cls, buf);
	abort();
}
static std::string symbol(void* pc)
{
	Dl_info di;
	char b[512];
	if (pc && dladdr((char*)pc - 1, &di) && di.dli_fname) {
		const char* f = strrchr(di.dli_fname, '/');
		int st = 0;
		char* dem = di.dli_sname ? abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st) : nullptr;
		std::string nm = dem ? dem : di.dli_sname ? di.dli_sname : "?";
		size_t par = nm.find('(');
		if (par != std::string::npos && par > 0 && nm.size() > 90)
			nm = nm.substr(0, par);
		if (nm.size() > 120)
			nm = nm.substr(0, 120);
		snprintf(b, sizeof(b), "%s (%s+0x%lx)", nm.c_str(), f ? f + 1 : di.dli_fname, (unsigned long)((uintptr_t)pc - (uintptr_t)di.dli_fbase));
		return b;
	}
	return "?";
}
static void on_signal(int sig, siginfo_t* si, void* uc)
{
	static int nested = 0;
	if (nested++)
		_exit(99);
	void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
	std::string m;
	const char* cls = "crash";
	if (sig == SIGABRT) {
		cls = "abort";
		m = "process aborted";
		if (std::type_info* t = abi::__cxa_current_exception_type()) {
			m += " with exception ";
			m += t->name();
		}
	}
	else if (sig == SIGVTALRM || sig == SIGXCPU) {
		cls = "hang";
		m = "no progress within the CPU limit in " + symbol(pc);
	}
	else {
		m = std::string(strsignal(sig)) + " in " + symbol(pc);
		if (sig == SIGSEGV) {
			uintptr_t a = (uintptr_t)si->si_addr;
			m += a < 65536 ? " (null pointer)" : "";
		}
	}
	finish(2, cls, m.c_str());
}

// ------------------------------------------------------------------------------------------------
// Race detector and memory checker (thread-sanitizer callbacks)
// ------------------------------------------------------------------------------------------------
#if !defined(SIM_ASAN)
static inline uint64_t mk(uint32_t clk, unsigned mask, int tid, bool w, bool at) { return (uint64_t)clk << 32 | (uint64_t)mask << 16 | (uint64_t)(tid + 1) << 8 | (w ? 2 : 0) | (at ? 1 : 0); }
static uintptr_t g_watch = 0;

NOINLINE static void report_race(uintptr_t word, uint64_t old, bool w, bool at, void* pc)
{
	int ot = (int)((old >> 8) & 0xFF) - 1;
	char b[1200];
	const char* what = word >= HEAP_END && word < ARENA_END ? "stack" : word >= ARENA && word < HEAP_END ? "heap" : "global";
	snprintf(b,
		 sizeof(b),
		 "data race on %s memory: %s%s in %s by %s thread %d, unordered with %s%s by %s thread %d [word %lx]",
		 what,
		 at ? "atomic " : "",
		 w ? "write" : "read",
		 symbol(pc).c_str(),
		 g_cur->client ? "caller" : "library",
		 g_cur->id,
		 (old & 1) ? "atomic " : "",
		 (old & 2) ? "write" : "read",
		 g_thr[ot]->client ? "caller" : "library",
		 ot,
		 (unsigned long)word);
	finish(2, "race", b);
}
NOINLINE static void report_bad(uintptr_t a, size_t sz, bool w, void* pc)
{
	char b[900];
	// find whether memory is freed or never allocated: decided by the allocator tables
	extern const char* describe_addr(uintptr_t a, char* buf, size_t n);
	char d[200];
	snprintf(b, sizeof(b), "invalid %s of %zu bytes in %s: %s", w ? "write" : "read", sz, symbol(pc).c_str(), describe_addr(a, d, sizeof(d)));
	finish(2, "memory", b);
}
static inline void race_word(uint64_t* cell, uintptr_t word, unsigned mask, bool w, bool at, void* pc)
{
	Thread* me = g_cur;
	const uint64_t nv = mk(me->vc.c[me->id], mask, me->id, w, at);
	if (cell[0] == nv || cell[1] == nv || cell[2] == nv || cell[3] == nv)
		return;
	int slot = -1;
	int old_slot = -1;
	for (int i = 0; i < 4; ++i) {
		uint64_t s = cell[i];
		if (!s) {
			if (slot < 0)
				slot = i;
			break;
		}
		int t = (int)((s >> 8) & 0xFF) - 1;
		unsigned sm = (unsigned)(s >> 16) & 0xFF;
		uint32_t sc = (uint32_t)(s >> 32);
		if (t == me->id) {
			if ((sm & ~mask) == 0 && (w || !(s & 2)) && (!at || (s & 1)) && slot < 0)
				slot = i;
			else if (old_slot < 0)
				old_slot = i;
			continue;
		}
		bool hb = sc <= me->vc.c[t];
		if (hb) {
			if (old_slot < 0)
				old_slot = i;
		}
		else if ((sm & mask) && (w || (s & 2)) && !(at && (s & 1)))
			report_race(word, s, w, at, pc);
	}
	if (slot < 0)
		slot = old_slot >= 0 ? old_slot : (int)(g_acc & 3);
	cell[slot] = nv;
}
static inline uint64_t* cell_of(uintptr_t word)
{
	if (word - ARENA < ARENA_SIZE)
		return g_shadow + ((word - ARENA) >> 3) * 4;
	for (int i = 0; i < g_nsegs; ++i)
		if (word - g_segs[i].lo < g_segs[i].hi - g_segs[i].lo)
			return g_segs[i].shadow + ((word - g_segs[i].lo) >> 3) * 4;
	return nullptr;
}
NOINLINE static void plain_preempt();

static uintptr_t g_reg_lo = 0;
static size_t g_reg_n = 0, g_reg_gran = 4096;
static std::vector<uint64_t>* g_reg_t = nullptr;
NOINLINE static void region_access(uintptr_t a, size_t sz)
{
	if (!g_cur->sut)
		return;
	size_t i = (a - g_reg_lo) / g_reg_gran, e = (a + sz - 1 - g_reg_lo) / g_reg_gran;
	for (; i <= e && i < g_reg_t->size(); ++i)
		if ((*g_reg_t)[i] == ~0ull) {
			bill();
			(*g_reg_t)[i] = g_now;
		}
}
static inline void check_state(uintptr_t a, size_t sz, bool w, void* pc)
{
	uintptr_t g = (a - ARENA) >> 3, ge = (a + sz - 1 - ARENA) >> 3;
	for (uintptr_t i = g; i <= ge; ++i) {
		unsigned end = i == ge ? (unsigned)((a + sz - 1) & 7) + 1 : 8;
		if (g_state[i] < end)
			report_bad(a, sz, w, pc);
	}
}
static inline void access(uintptr_t a, size_t sz, bool w, void* pc, bool at = false)
{
	if (!g_active || g_in_rt)
		return;
	++g_acc;
	if (g_acc == g_plain_cd && !at)
		plain_preempt();
	if (a - g_reg_lo < g_reg_n)
		region_access(a, sz);
	if (a - ARENA >= ARENA_SIZE && !g_nsegs)
		return;
	if (g_trace && g_watch && a <= g_watch + 7 && a + sz > g_watch)
		fprintf(stderr, "[t%d step %llu] %s %zu at %lx in %s\n", g_cur->id, (unsigned long long)g_step, w ? "write" : "read", sz, (unsigned long)a, symbol(pc).c_str());
	if (a - ARENA < HEAP_SIZE)
		check_state(a, sz, w, pc);
	uintptr_t word = a & ~7ull;
	uint64_t* c = cell_of(word);
	if (!c)
		return;
	unsigned off = (unsigned)(a & 7);
	size_t left = sz;
	while (left) {
		size_t n = 8 - off;
		if (n > left)
			n = left;
		race_word(c, word, (((1u << n) - 1) << off) & 0xFF, w, at, pc);
		left -= n;
		off = 0;
		word += 8;
		c += 4;
	}
}
NOINLINE static void plain_preempt()
{
	if (g_plan->explicit_sched) {
		++g_xp_i;
		reschedule(true, 99, false, true);
		g_plain_cd = g_xp_i < g_xp.size() ? g_xp[g_xp_i].at : 0;
	}
	else {
		g_plain_cd = g_acc + 1 + g_srng.below(2 * K.plainpre);
		reschedule(true, 99, false, true);
	}
}
#define PC __builtin_return_address(0)
#define RW(n)                                                                                                                                                                                          \
	EXPORT void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, PC); }                                                                                                                    \
	EXPORT void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, PC); }                                                                                                                    \
	EXPORT void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, PC); }                                                                                                          \
	EXPORT void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, PC); }                                                                                                          \
	EXPORT void __tsan_volatile_read##n(void* p) { vol(p, n, false, PC); }                                                                                                                         \
	EXPORT void __tsan_volatile_write##n(void* p) { vol(p, n, true, PC); }                                                                                                                         \
	EXPORT void __tsan_unaligned_volatile_read##n(void* p) { vol(p, n, false, PC); }                                                                                                               \
	EXPORT void __tsan_unaligned_volatile_write##n(void* p) { vol(p, n, true, PC); }
static void vol(void* p, size_t n, bool w, void* pc)
{
	// volatile accesses are treated as atomic accesses with acquire/release ordering
	if (!simmed()) return;
	sched_point(20);
	access((uintptr_t)p, n, w, pc, true);
	Sync& s = sync_of(p);
	if (w)
		release(s, false);
	else
		acquire(s);
}
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_read_range(void* p, size_t n)
{
	if (n)
		access((uintptr_t)p, n, false, PC);
}
EXPORT void __tsan_write_range(void* p, size_t n)
{
	if (n)
		access((uintptr_t)p, n, true, PC);
}
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void** p, void* v)
{
	if (*p != v)
		access((uintptr_t)p, 8, true, PC);
}
EXPORT void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }

// atomics
static void at_pre(const volatile void* p, size_t n, bool w, void* pc)
{
	if (!simmed())
		return;
	if (K.atomic_sched)
		sched_point(10);
	access((uintptr_t)p, n, w, pc, true);
}
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hb_load(const volatile void* p, int mo)
{
	if (!simmed())
		return;
	Sync& s = sync_of((const void*)p);
	if (is_acq(mo))
		acquire(s);
	else if (s.vcset)
		g_cur->apend.join(s.vc);
}
static void hb_store(const volatile void* p, int mo, bool rmw)
{
	if (!simmed())
		return;
	Sync& s = sync_of((const void*)p);
	if (is_rel(mo))
		release(s, rmw);
	else {
		// relaxed store publishes what the last release fence published
		if (rmw && s.vcset)
			s.vc.join(g_cur->frel);
		else
			s.vc = g_cur->frel;
		s.vcset = true;
	}
}
#define ATOMICS(T, bits)                                                                                                                                                                               \
	EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int mo)                                                                                                                               \
	{                                                                                                                                                                                              \
		at_pre(p, sizeof(T), false, PC);                                                                                                                                                       \
		T r = *p;                                                                                                                                                                              \
		hb_load(p, mo);                                                                                                                                                                        \
		return r;                                                                                                                                                                              \
	}                                                                                                                                                                                              \
	EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int mo)                                                                                                                            \
	{                                                                                                                                                                                              \
		at_pre(p, sizeof(T), true, PC);                                                                                                                                                        \
		*p = v;                                                                                                                                                                                \
		hb_store(p, mo, false);                                                                                                                                                                \
	}                                                                                                                                                                                              \
	EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo)                                                                                                                            \
	{                                                                                                                                                                                              \
		at_pre(p, sizeof(T), true, PC);                                                                                                                                                        \
		T r = *p;                                                                                                                                                                              \
		*p = v;                                                                                                                                                                                \
		hb_load(p, mo);                                                                                                                                                                        \
		hb_store(p, mo, true);                                                                                                                                                                 \
		return r;                                                                                                                                                                              \
	}                                                                                                                                                                                              \
	ATOMIC_RMW(T, bits, fetch_add, r + v)                                                                                                                                                          \
	ATOMIC_RMW(T, bits, fetch_sub, r - v)                                                                                                                                                          \
	ATOMIC_RMW(T, bits, fetch_and, r& v)                                                                                                                                                           \
	ATOMIC_RMW(T, bits, fetch_or, r | v)                                                                                                                                                           \
	ATOMIC_RMW(T, bits, fetch_xor, r ^ v)                                                                                                                                                          \
	ATOMIC_RMW(T, bits, fetch_nand, ~(r & v))                                                                                                                                                      \
	static int cas##bits(volatile T* p, T* e, T v, int mo, int fmo, bool weak, void* pc)                                                                                                           \
	{                                                                                                                                                                                              \
		at_pre(p, sizeof(T), true, pc);                                                                                                                                                        \
		T cur = *p;                                                                                                                                                                            \
		if (cur == *e) {                                                                                                                                                                       \
			*p = v;                                                                                                                                                                        \
			hb_load(p, mo);                                                                                                                                                                \
			hb_store(p, mo, true);                                                                                                                                                         \
			return 1;                                                                                                                                                                      \
		}                                                                                                                                                                                      \
		*e = cur;                                                                                                                                                                              \
		hb_load(p, fmo);                                                                                                                                                                       \
		return 0;                                                                                                                                                                              \
	}                                                                                                                                                                                              \
	EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return cas##bits(p, e, v, mo, fmo, false, PC); }                                         \
	EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return cas##bits(p, e, v, mo, fmo, true, PC); }                                            \
	EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)                                                                                                  \
	{                                                                                                                                                                                              \
		cas##bits(p, &e, v, mo, fmo, false, PC);                                                                                                                                               \
		return e;                                                                                                                                                                              \
	}
#define ATOMIC_RMW(T, bits, op, expr)                                                                                                                                                                  \
	EXPORT T __tsan_atomic##bits##_##op(volatile T* p, T v, int mo)                                                                                                                                \
	{                                                                                                                                                                                              \
		at_pre(p, sizeof(T), true, PC);                                                                                                                                                        \
		T r = *p;                                                                                                                                                                              \
		*p = (T)(expr);                                                                                                                                                                        \
		hb_load(p, mo);                                                                                                                                                                        \
		hb_store(p, mo, true);                                                                                                                                                                 \
		return r;                                                                                                                                                                              \
	}
ATOMICS(uint8_t, 8)
ATOMICS(uint16_t, 16)
ATOMICS(uint32_t, 32)
ATOMICS(uint64_t, 64)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
	if (!simmed())
		return;
	sched_point(11);
	if (is_acq(mo))
		g_cur->vc.join(g_cur->apend);
	if (mo == __ATOMIC_SEQ_CST) {
		static Sync* f = nullptr;
		if (!f)
			f = new Sync();
		acquire(*f);
		release(*f);
	}
	if (is_rel(mo)) {
		g_cur->frel = g_cur->vc;
		++g_cur->vc.c[g_cur->id];
	}
}
EXPORT void __tsan_atomic_signal_fence(int) {}
#else
static inline void access(uintptr_t, size_t, bool, void*, bool = false) {}
#define PC nullptr
#endif

// ------------------------------------------------------------------------------------------------
// Allocator of the system under test
// ------------------------------------------------------------------------------------------------
struct Block
{
	size_t size, rsize;
	bool live, sut, aligned;
	int tid;
	uint64_t serial;
};
static std::map<uintptr_t, Block>* g_blocks; // live and freed (T flavour), live (ASAN flavour)
static std::unordered_map<size_t, std::vector<uintptr_t>>* g_free;
static uintptr_t g_brk = ARENA + 64;
static size_t g_live_blocks = 0, g_live_bytes = 0;
static uint64_t g_allocs = 0;
static std::vector<Scope*> g_scopes;

const char* describe_addr(uintptr_t a, char* buf, size_t n)
{
	auto it = g_blocks->upper_bound(a);
	if (it != g_blocks->begin()) {
		--it;
		const Block& b = it->second;
		if (a < it->first + b.rsize) {
			if (!b.live)
				snprintf(buf, n, "%zu bytes into a freed block of %zu bytes", (size_t)(a - it->first), b.size);
			else
				snprintf(buf, n, "offset %zu of a live %s of %zu bytes", (size_t)(a - it->first), b.sut ? "block" : "client buffer", b.size);
			return buf;
		}
	}
	snprintf(buf, n, "unallocated memory");
	return buf;
}

// a fault that hits a library thread may concern any of the calls in progress
static void fault_seen(Thread* me)
{
	if (!me->client)
		for (Scope* s : g_scopes)
			++s->fired;
}
static bool alloc_should_fail(size_t n)
{
	(void)n;
	if (!simmed())
		return false;
	Thread* me = g_cur;
	bool fail = false;
	for (Scope* s : g_scopes) {
		if (me->client && me->scope != s)
			continue;
		uint64_t c = s->count++;
		if (s->healed)
			continue;
		for (const Item* f : s->faults)
			if (f->name == "alloc" && c >= f->get("nth") && c < f->get("nth") + f->get("len", 1)) {
				fail = true;
				++s->fired;
			}
	}
	if (fail) {
		fault_seen(me);
		sim_fault("alloc_failure");
	}
	return fail;
}
static bool ext_should_fail(const char* kind, uint64_t Scope::*ctr)
{
	if (!simmed())
		return false;
	Thread* me = g_cur;
	bool fail = false;
	for (Scope* s : g_scopes) {
		if (me->client && me->scope != s)
			continue;
		uint64_t c = (s->*ctr)++;
		if (s->healed)
			continue;
		for (const Item* f : s->faults)
			if (f->name == kind && c >= f->get("nth") && c < f->get("nth") + f->get("len", 1)) {
				fail = true;
				++s->fired;
			}
	}
	if (fail) {
		fault_seen(me);
		sim_fault(kind);
	}
	return fail;
}
static bool in_sut_now() { return simmed() && (!g_cur->client || g_cur->sut > 0); }

#if !defined(SIM_ASAN)
static void set_state(uintptr_t a, size_t n, bool on)
{
	uintptr_t g = (a - ARENA) >> 3;
	if (on) {
		memset(g_state + g, 8, n >> 3);
		if (n & 7)
			g_state[g + (n >> 3)] = (uint8_t)(n & 7);
	}
	else
		memset(g_state + g, 0, (n + 7) >> 3);
}
static const size_t RED = 64;
static void* arena_alloc(size_t n, bool sut, size_t align = 16)
{
	if (n > HEAP_SIZE / 2)
		return nullptr;
	size_t rs = (n + RED + 15) & ~(size_t)15;
	if (rs > 4096)
		rs = (rs + 4095) & ~(size_t)4095;
	uintptr_t a = 0;
	if (align < 16)
		align = 16;
	if (K.reuse && align == 16) {
		auto it = g_free->find(rs);
		if (it != g_free->end() && !it->second.empty()) {
			size_t i = it->second.size() - 1;
			if (K.reuse == 2)
				i = g_frng.below(it->second.size());
			a = it->second[i];
			it->second.erase(it->second.begin() + i);
		}
	}
	if (!a) {
		uintptr_t p = (g_brk + RED + align - 1) & ~(uintptr_t)(align - 1);
		if (p + rs > HEAP_END)
			return nullptr;
		a = p;
		g_brk = p + rs;
	}
	Block& b = (*g_blocks)[a];
	b = Block{ n, rs, true, sut, align != 16, g_cur ? g_cur->id : -1, ++g_allocs };
	set_state(a, n, true);
	// new lifetime: forget former accesses
	memset(g_shadow + ((a - ARENA) >> 3) * 4, 0, ((n + 7) >> 3) * 32);
	if (K.fill) {
		if (n <= 262144 || sut)
			memset((void*)a, (int)(K.fill == 2 ? 0xFF : K.fill == 3 ? (g_allocs * 37 + 11) : 0xA5), n);
	}
	memset((void*)(a + n), 0xCA, rs - n < RED ? rs - n : RED);
	return (void*)a;
}
static void check_red(uintptr_t a, const Block& b)
{
	const uint8_t* p = (const uint8_t*)a + b.size;
	size_t n = b.rsize - b.size < RED ? b.rsize - b.size : RED;
	for (size_t i = 0; i < n; ++i)
		if (p[i] != 0xCA)
			sim_fail("memory", "%zu bytes %s was written past its end (at +%zu)", b.size, b.sut ? "heap block" : "client buffer", i);
}
static void arena_free(void* p, void* pc)
{
	auto it = g_blocks->find((uintptr_t)p);
	if (it == g_blocks->end())
		sim_fail("memory", "release of a pointer that was never allocated, in %s", symbol(pc).c_str());
	Block& b = it->second;
	if (!b.live)
		sim_fail("memory", "double release of a block of %zu bytes, in %s", b.size, symbol(pc).c_str());
	check_red(it->first, b);
	if (g_active && simmed()) { // counts as a write by the releasing thread
		int rt = g_in_rt;
		g_in_rt = 0;
		uint64_t acc0 = g_acc, cd = g_plain_cd;
		g_plain_cd = 0;
		size_t n = b.size > 4096 ? 4096 : b.size;
		if (n)
			access((uintptr_t)p, n, true, pc);
		g_acc = acc0;
		g_plain_cd = cd;
		g_in_rt = rt;
	}
	b.live = false;
	if (b.sut) {
		--g_live_blocks;
		g_live_bytes -= b.size;
	}
	set_state(it->first, b.size, false);
	if (K.fill)
		memset(p, 0xDD, b.size > 65536 ? 65536 : b.size);
	if (K.reuse && !b.aligned)
		(*g_free)[b.rsize].push_back(it->first);
}
static bool is_arena(void* p) { return (uintptr_t)p - ARENA < HEAP_SIZE; }
#else
static void* arena_alloc(size_t n, bool sut, size_t align = 16)
{
	if (n > HEAP_SIZE / 2)
		return nullptr;
	void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n);
	if (p) {
		(*g_blocks)[(uintptr_t)p] = Block{ n, n, true, sut, false, g_cur ? g_cur->id : -1, ++g_allocs };
		if (K.fill)
			memset(p, (int)(K.fill == 2 ? 0xFF : K.fill == 3 ? (g_allocs * 37 + 11) : 0xA5), n);
	}
	return p;
}
static void arena_free(void* p, void*)
{
	auto it = g_blocks->find((uintptr_t)p);
	if (it != g_blocks->end()) {
		if (it->second.sut) {
			--g_live_blocks;
			g_live_bytes -= it->second.size;
		}
		g_blocks->erase(it);
	}
	free(p);
}
static bool is_arena(void* p) { return g_blocks && g_blocks->count((uintptr_t)p); }
#endif
static void* sut_alloc(size_t n, size_t align = 16)
{
	bool sut = in_sut_now();
	if (sut) {
		sched_point(30);
		if (alloc_should_fail(n))
			return nullptr;
	}
	int rt = g_in_rt;
	g_in_rt = 1;
	void* p = arena_alloc(n, sut, align);
	if (p && sut) {
		++g_live_blocks;
		g_live_bytes += n;
	}
	g_in_rt = rt;
	return p;
}
EXPORT void* sim_malloc(size_t n) { return g_active ? sut_alloc(n) : malloc(n); }
EXPORT void sim_free(void* p)
{
	if (!p)
		return;
	if (is_arena(p))
		arena_free(p, __builtin_return_address(0));
	else
		free(p);
}
EXPORT void* sim_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n))
		return nullptr;
	void* p = sim_malloc(n);
	if (p)
		memset(p, 0, n);
	return p;
}
EXPORT void* sim_realloc(void* p, size_t n)
{
	if (!p)
		return sim_malloc(n);
	if (!is_arena(p))
		return realloc(p, n);
	void* q = sim_malloc(n);
	if (!q)
		return nullptr;
	size_t o = (*g_blocks)[(uintptr_t)p].size;
	memcpy(q, p, o < n ? o : n);
	arena_free(p, __builtin_return_address(0));
	return q;
}
EXPORT void* sim_aligned_alloc(size_t al, size_t n) { return g_active ? sut_alloc(n, al) : aligned_alloc(al, n); }
EXPORT int sim_posix_memalign(void** r, size_t al, size_t n)
{
	void* p = sim_aligned_alloc(al, n);
	if (!p)
		return ENOMEM;
	*r = p;
	return 0;
}
EXPORT void* sim_mm_malloc(size_t n, size_t al) { return sim_aligned_alloc(al, n); }
EXPORT void* sim_new(size_t n)
{
	void* p = sim_malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
EXPORT void* sim_new_nt(size_t n, const std::nothrow_t&) { return sim_malloc(n ? n : 1); }
EXPORT void sim_delete(void* p)
{
	if (!p)
		return;
	if (is_arena(p))
		arena_free(p, __builtin_return_address(0));
	else
		free(p);
}
EXPORT void sim_delete_sz(void* p, size_t) { sim_delete(p); }
EXPORT void sim_delete_nt(void* p, const std::nothrow_t&) { sim_delete(p); }
EXPORT void* sim_new_al(size_t n, std::align_val_t al)
{
	void* p = sim_aligned_alloc((size_t)al, n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
EXPORT void sim_delete_al(void* p, std::align_val_t) { sim_delete(p); }
EXPORT void sim_delete_sz_al(void* p, size_t, std::align_val_t) { sim_delete(p); }

// memory allocated by the node and released by libstdc++ (and vice versa)
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void* operator new(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }

// block memory functions called by the node
EXPORT void* sim_memcpy(void* d, const void* s, size_t n)
{
	if (n) {
		access((uintptr_t)s, n, false, PC);
		access((uintptr_t)d, n, true, PC);
	}
	return memcpy(d, s, n);
}
EXPORT void* sim_memmove(void* d, const void* s, size_t n)
{
	if (n) {
		access((uintptr_t)s, n, false, PC);
		access((uintptr_t)d, n, true, PC);
	}
	return memmove(d, s, n);
}
EXPORT void* sim_memset(void* d, int c, size_t n)
{
	if (n)
		access((uintptr_t)d, n, true, PC);
	return memset(d, c, n);
}
EXPORT int sim_memcmp(const void* a, const void* b, size_t n)
{
	if (n) {
		access((uintptr_t)a, n, false, PC);
		access((uintptr_t)b, n, false, PC);
	}
	return memcmp(a, b, n);
}
EXPORT void* sim_buf(size_t n)
{
	int rt = g_in_rt;
	g_in_rt = 1;
	void* p = arena_alloc(n, false);
	if (!p) {
		fprintf(stderr, "simulator: arena exhausted\n");
		_exit(98);
	}
	g_in_rt = rt;
	return p;
}
EXPORT void sim_buf_free(void* p)
{
	if (p)
		arena_free(p, __builtin_return_address(0));
}
EXPORT void sim_touch(const void* p, size_t n, int write)
{
	if (n)
		access((uintptr_t)p, n, write != 0, PC);
}
EXPORT size_t sim_live_blocks(void) { return g_live_blocks; }
EXPORT size_t sim_live_bytes(void) { return g_live_bytes; }
EXPORT uint64_t sim_alloc_count(void) { return g_allocs; }
EXPORT size_t sim_block_size(const void* p)
{
	if (!g_blocks)
		return ~(size_t)0;
	auto it = g_blocks->find((uintptr_t)p);
	return it == g_blocks->end() || !it->second.live ? ~(size_t)0 : it->second.size;
}

// ------------------------------------------------------------------------------------------------
// Scopes
// ------------------------------------------------------------------------------------------------
EXPORT void sim_enter(int op)
{
	Thread* me = g_cur;
	++me->sut;
	if (me->sut > 1)
		return;
	Scope* s = new Scope();
	s->op = op;
	s->count = s->fired = s->zcount = s->dcount = s->ccount = 0;
	s->healed = false;
	for (auto& f : g_plan->faults)
		if (f.get("op", ~0ull) == (uint64_t)op && op > 0)
			s->faults.push_back(&f);
	me->scope = s;
	g_scopes.push_back(s);
}
static uint64_t g_last_fired[MAXT];
EXPORT void sim_leave(void)
{
	Thread* me = g_cur;
	if (--me->sut > 0)
		return;
	Scope* s = me->scope;
	g_last_fired[me->id] = s->fired;
	g_scopes.erase(std::find(g_scopes.begin(), g_scopes.end(), s));
	me->scope = nullptr;
	delete s;
}
EXPORT uint64_t sim_faults_fired(void)
{
	Thread* me = g_cur;
	return me->scope ? me->scope->fired : g_last_fired[me->id];
}
EXPORT void sim_heal(void)
{
	for (auto* s : g_scopes)
		s->healed = true;
}
EXPORT int sim_pause(void)
{
	int d = g_cur->sut;
	g_cur->sut = 0;
	return d;
}
EXPORT void sim_resume(int d) { g_cur->sut = d; }

// ------------------------------------------------------------------------------------------------
// Time interface
// ------------------------------------------------------------------------------------------------
struct ZCall
{
	uint64_t t, bytes;
	int level;
};
static std::vector<ZCall>* g_zcalls;
static size_t g_live_cctx = 0;
EXPORT uint64_t sim_now(void)
{
	bill();
	return g_now;
}
EXPORT void sim_set_now(uint64_t ns)
{
	bill();
	g_now = ns;
}
EXPORT void sim_advance(uint64_t ns)
{
	bill();
	g_now += ns;
}
EXPORT void sim_region(const void* p, size_t n, size_t gran)
{
#if !defined(SIM_ASAN)
	g_reg_lo = (uintptr_t)p;
	g_reg_n = n;
	if (n) {
		g_reg_gran = gran;
		delete g_reg_t;
		g_reg_t = new std::vector<uint64_t>((n + gran - 1) / gran, ~0ull);
	}
#endif
}
EXPORT uint64_t sim_region_time(size_t i)
{
#if !defined(SIM_ASAN)
	return g_reg_t && i < g_reg_t->size() ? (*g_reg_t)[i] : ~0ull;
#else
	return ~0ull;
#endif
}
EXPORT uint64_t sim_last_clock(void) { return g_cur->last_clock; }
EXPORT uint64_t sim_zstd_calls(void) { return g_zcalls->size(); }
EXPORT uint64_t sim_zstd_calls_after(uint64_t t)
{
	uint64_t n = 0;
	for (auto& z : *g_zcalls)
		n += z.t >= t;
	return n;
}
EXPORT uint64_t sim_zstd_bytes_after(uint64_t t)
{
	uint64_t n = 0;
	for (auto& z : *g_zcalls)
		if (z.t >= t)
			n += z.bytes;
	return n;
}
EXPORT size_t sim_live_cctx(void) { return g_live_cctx; }

EXPORT int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (!simmed())
		return real_clock_gettime ? real_clock_gettime(id, ts) : (int)syscall(SYS_clock_gettime, id, ts);
	if (g_cur->client && !g_cur->sut)
		; // client reading: same clock
	sched_point(40);
	g_now += 25;
	uint64_t n = now_reading();
	g_cur->last_clock = n;
	if (id == CLOCK_REALTIME)
		n += 1700000000ull * 1000000000ull;
	ts->tv_sec = (time_t)(n / 1000000000ull);
	ts->tv_nsec = (long)(n % 1000000000ull);
	hash_add(n);
	return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void* tz) noexcept
{
	if (!simmed())
		return real_gettimeofday ? real_gettimeofday(tv, (decltype(tz))tz) : -1;
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
EXPORT int sched_yield() noexcept
{
	if (!simmed())
		return real_sched_yield();
	sched_point(41, true);
	return 0;
}
static void sim_sleep(uint64_t ns)
{
	bill();
	++g_step;
	block(K_SLEEP, nullptr, true, g_now + ns);
}
EXPORT int nanosleep(const struct timespec* r, struct timespec* rem)
{
	if (!simmed())
		return real_nanosleep(r, rem);
	sim_sleep((uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec);
	return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec* r, struct timespec* rem)
{
	if (!simmed())
		return real_clock_nanosleep(id, flags, r, rem);
	uint64_t ns = (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec;
	if (flags & TIMER_ABSTIME) {
		bill();
		ns = ns > g_now ? ns - g_now : 0;
	}
	sim_sleep(ns);
	return 0;
}
EXPORT int usleep(useconds_t us)
{
	struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
	return nanosleep(&t, nullptr);
}
EXPORT int get_nprocs() noexcept { return (int)(g_active ? K.hc : 8); }
EXPORT int get_nprocs_conf() noexcept { return (int)(g_active ? K.hc : 8); }

// ------------------------------------------------------------------------------------------------
// Threads and synchronisation interposition
// ------------------------------------------------------------------------------------------------
static void run_tls_dtors(Thread* me)
{
	while (!me->dtors.empty()) {
		TlsDtor d = me->dtors.back();
		me->dtors.pop_back();
		d.fn(d.obj);
	}
}
static void alt_stack()
{
	stack_t ss{};
	ss.ss_size = 65536;
	ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	sigaltstack(&ss, nullptr);
}
static void* thread_main(void* p)
{
	Thread* me = (Thread*)p;
	t_self = me;
	alt_stack();
	wait_go(me);
	if (!me->client)
		me->sut = 1;
	me->ret = me->fn(me->arg);
	int d = me->sut;
	me->sut = 1; // thread-local destructors belong to the system under test
	run_tls_dtors(me);
	me->sut = d;
	// done
	Sync& s = sync_of(me);
	release(s);
	me->state = ST_DONE;
	wake_all(K_JOIN, me);
	reschedule(false, 50);
	return nullptr;
}
static Thread* new_thread(void* (*fn)(void*), void* arg, bool client)
{
	if (g_nthr >= MAXT) {
		fprintf(stderr, "simulator: too many threads\n");
		_exit(98);
	}
	Thread* t = new Thread();
	t->id = g_nthr;
	t->fn = fn;
	t->arg = arg;
	t->client = client;
	t->prio = (1u << 20) + 1 + g_srng.below(1u << 20);
	if (g_cur) {
		t->vc = g_cur->vc;
		++g_cur->vc.c[g_cur->id];
	}
	t->vc.c[t->id] = 1;
	g_thr[g_nthr++] = t;
	pthread_attr_t at;
	pthread_attr_init(&at);
#if !defined(SIM_ASAN)
	uintptr_t st = HEAP_END + (size_t)t->id * STACK_SIZE;
	pthread_attr_setstack(&at, (void*)st, STACK_SIZE);
#else
	pthread_attr_setstacksize(&at, STACK_SIZE);
#endif
	if (real_pthread_create(&t->pt, &at, thread_main, t) != 0) {
		fprintf(stderr, "simulator: cannot create thread\n");
		_exit(98);
	}
	pthread_attr_destroy(&at);
	return t;
}
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
	if (!simmed()) {
		if (!real_pthread_create)
			resolve();
		return real_pthread_create(out, a, fn, arg);
	}
	sched_point(51);
	Thread* t = new_thread(fn, arg, false);
	*out = (pthread_t)(uintptr_t)t;
	return 0;
}
static void join_thread(Thread* t)
{
	sched_point(52);
	while (t->state != ST_DONE)
		block(K_JOIN, t);
	acquire(sync_of(t));
}
EXPORT int pthread_join(pthread_t p, void** ret)
{
	if (!simmed())
		return real_pthread_join(p, ret);
	Thread* t = (Thread*)(uintptr_t)p;
	join_thread(t);
	if (ret)
		*ret = t->ret;
	return 0;
}
EXPORT int pthread_detach(pthread_t p) noexcept
{
	if (!simmed())
		return real_pthread_detach(p);
	((Thread*)(uintptr_t)p)->detached = true;
	return 0;
}
EXPORT pthread_t pthread_self() noexcept
{
	static pthread_t (*real)() = nullptr;
	if (simmed())
		return (pthread_t)(uintptr_t)t_self;
	if (!real)
		real = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self");
	return real();
}
struct ClientArg
{
	void (*fn)(void*);
	void* arg;
};
static void* client_main(void* p)
{
	ClientArg a = *(ClientArg*)p;
	delete (ClientArg*)p;
	try {
		a.fn(a.arg);
	}
	catch (std::exception& e) {
		sim_fail("exception", "exception escaped to the caller: %s", e.what());
	}
	return nullptr;
}
EXPORT int sim_spawn(void (*fn)(void*), void* arg)
{
	sched_point(53);
	return new_thread(client_main, new ClientArg{ fn, arg }, true)->id;
}
EXPORT void sim_join(int tid) { join_thread(g_thr[tid]); }
EXPORT void sim_yield(void) { sched_point(54); }
EXPORT int sim_tid(void) { return g_cur->id; }

static void mutex_lock(void* m)
{
	Sync& s = sync_of(m);
	if (s.owner == g_cur) {
		// recursive mutex type or self deadlock
		if (((pthread_mutex_t*)m)->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP) {
			++s.depth;
			return;
		}
		sim_fail("deadlock", "thread locks a mutex it already holds");
	}
	while (s.owner)
		block(K_MUTEX, m);
	s.owner = g_cur;
	s.depth = 1;
	acquire(s);
}
static void mutex_unlock(void* m)
{
	Sync& s = sync_of(m);
	if (s.owner != g_cur)
		sim_fail("misuse", "unlock of a mutex not held by the thread");
	if (--s.depth)
		return;
	s.owner = nullptr;
	release(s, false);
	wake_all(K_MUTEX, m);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	if (!simmed()) {
		if (!real_pthread_mutex_lock)
			resolve();
		return real_pthread_mutex_lock(m);
	}
	sched_point(1);
	mutex_lock(m);
	return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	if (!simmed()) {
		if (!real_pthread_mutex_trylock)
			resolve();
		return real_pthread_mutex_trylock(m);
	}
	sched_point(2);
	Sync& s = sync_of(m);
	if (s.owner)
		return EBUSY;
	s.owner = g_cur;
	s.depth = 1;
	acquire(s);
	return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	if (!simmed()) {
		if (!real_pthread_mutex_unlock)
			resolve();
		return real_pthread_mutex_unlock(m);
	}
	mutex_unlock(m);
	sched_point(3);
	return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t until)
{
	sched_point(4);
	Sync& s = sync_of(c);
	Thread* me = g_cur;
	s.waiters.push_back(me);
	me->woken = false;
	mutex_unlock(m);
	block(K_COND, c, timed, until);
	bool timeout = timed && !me->woken && g_now >= until;
	auto it = std::find(s.waiters.begin(), s.waiters.end(), me);
	if (it != s.waiters.end())
		s.waiters.erase(it);
	mutex_lock(m);
	return timeout ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!simmed())
		return real_pthread_cond_wait(c, m);
	return cond_wait(c, m, false, 0);
}
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
	uint64_t u = ts_ns(t), off = 1700000000ull * 1000000000ull;
	return cond_wait(c, m, true, u > off ? u - off : 0);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* t)
{
	uint64_t u = ts_ns(t), off = id == CLOCK_REALTIME ? 1700000000ull * 1000000000ull : 0;
	return cond_wait(c, m, true, u > off ? u - off : 0);
}
static void cond_wake(pthread_cond_t* c, bool all)
{
	Sync& s = sync_of(c);
	// waiters already made runnable by a spurious wakeup or timeout do not consume a signal
	std::vector<Thread*> w;
	for (Thread* t : s.waiters)
		if (t->state == ST_BLOCKED)
			w.push_back(t);
	if (w.empty())
		return;
	if (all) {
		for (Thread* t : w) {
			t->state = ST_RUN;
			t->woken = true;
		}
		s.waiters.clear();
		return;
	}
	size_t i = 0;
	if (g_plan->explicit_sched) {
		auto it = g_xw.find(g_step);
		if (it != g_xw.end())
			for (size_t k = 0; k < w.size(); ++k)
				if ((uint32_t)w[k]->id == it->second)
					i = k;
	}
	else if (w.size() > 1) {
		i = g_srng.below(w.size());
		if (i)
			record('w', g_step, (uint32_t)w[i]->id);
	}
	w[i]->state = ST_RUN;
	w[i]->woken = true;
	s.waiters.erase(std::find(s.waiters.begin(), s.waiters.end(), w[i]));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept
{
	if (!simmed())
		return real_pthread_cond_signal(c);
	sched_point(5);
	cond_wake(c, false);
	return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
	if (!simmed())
		return real_pthread_cond_broadcast(c);
	sched_point(6);
	cond_wake(c, true);
	return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
	if (simmed()) {
		Sync& s = sync_of(c);
		if (!s.waiters.empty())
			sim_fail("misuse", "condition variable destroyed while threads wait on it");
	}
	return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
	if (simmed() && sync_of(m).owner)
		sim_fail("misuse", "mutex destroyed while locked");
	return 0;
}
// reader/writer locks
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
	sched_point(7);
	Sync& s = sync_of(l);
	while (s.owner)
		block(K_RW, l);
	++s.readers;
	acquire(s);
	return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
	sched_point(7);
	Sync& s = sync_of(l);
	while (s.owner || s.readers)
		block(K_RW, l);
	s.owner = g_cur;
	acquire(s);
	return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept
{
	sched_point(7);
	Sync& s = sync_of(l);
	if (s.owner)
		return EBUSY;
	++s.readers;
	acquire(s);
	return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept
{
	sched_point(7);
	Sync& s = sync_of(l);
	if (s.owner || s.readers)
		return EBUSY;
	s.owner = g_cur;
	acquire(s);
	return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
	Sync& s = sync_of(l);
	if (s.owner)
		s.owner = nullptr;
	else
		--s.readers;
	release(s);
	wake_all(K_RW, l);
	sched_point(8);
	return 0;
}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)())
{
	static int (*real)(pthread_once_t*, void (*)()) = nullptr;
	if (!simmed()) {
		if (!real)
			real = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
		return real(o, fn);
	}
	sched_point(9);
	Sync& s = sync_of(o);
	while (s.value == 1)
		block(K_ONCE, o);
	if (s.value == 0 && *o == 2)
		s.value = 2; // done before the simulation started
	if (s.value == 0) {
		s.value = 1;
		fn();
		s.value = 2;
		*o = 2;
		release(s);
		wake_all(K_ONCE, o);
	}
	acquire(s);
	return 0;
}
// static initialisation guards
EXPORT int __cxa_guard_acquire(long long* g)
{
	uint8_t* b = (uint8_t*)g;
	if (!simmed()) {
		if (b[0])
			return 0;
		b[1] = 1;
		return 1;
	}
	sched_point(12);
	Sync& s = sync_of(g);
	while (b[1])
		block(K_GUARD, g);
	acquire(s);
	if (b[0])
		return 0;
	b[1] = 1;
	return 1;
}
EXPORT void __cxa_guard_release(long long* g)
{
	uint8_t* b = (uint8_t*)g;
	b[0] = 1;
	b[1] = 0;
	if (simmed()) {
		release(sync_of(g));
		wake_all(K_GUARD, g);
		sched_point(13);
	}
}
EXPORT void __cxa_guard_abort(long long* g)
{
	uint8_t* b = (uint8_t*)g;
	b[1] = 0;
	if (simmed())
		wake_all(K_GUARD, g);
}
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso)
{
	if (simmed()) {
		t_self->dtors.push_back(TlsDtor{ fn, obj });
		return 0;
	}
	static int (*real)(void (*)(void*), void*, void*) = nullptr;
	if (!real)
		real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_thread_atexit");
	return real(fn, obj, dso);
}
// static destructors of the node run as ordinary simulated code, not inside dlclose (which holds the loader lock)
struct AtExit
{
	void (*fn)(void*);
	void* obj;
	void* dso;
};
static std::vector<AtExit>* g_atexit = nullptr;
EXPORT int __cxa_atexit(void (*fn)(void*), void* obj, void* dso)
{
	if (simmed() && g_cur->sut) {
		g_atexit->push_back(AtExit{ fn, obj, dso });
		return 0;
	}
	static int (*real)(void (*)(void*), void*, void*) = nullptr;
	if (!real)
		real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_atexit");
	return real(fn, obj, dso);
}
// cpuid as seen by the node: the machine's features, less those masked by the knobs cpu0..cpu3
// (bit 0: no SSE4.1 and above, bit 1: no AVX2, bit 2: no SSSE3 and above)
static std::vector<uintptr_t> g_lib_base;
#include <cpuid.h>
EXPORT void sim_cpuid(unsigned leaf, unsigned sub, unsigned* out)
{
	__cpuid_count(leaf, sub, out[0], out[1], out[2], out[3]);
	if (!g_plan)
		return;
	Dl_info di;
	size_t lib = 0;
	if (dladdr(__builtin_return_address(0), &di) && di.dli_fname)
		for (size_t i = 0; i < g_libs.size(); ++i)
			if (g_libs[i] == di.dli_fname)
				lib = i;
	char k[8] = "cpu0";
	k[3] = (char)('0' + lib);
	uint64_t m = g_plan->knob(k, 0);
	if (leaf == 1) {
		if (m & 5)
			out[2] &= ~(1u << 19 | 1u << 20 | 1u << 28 | 1u << 12); // sse4.1 sse4.2 avx fma
		if (m & 4)
			out[2] &= ~(1u << 9); // ssse3
	}
	if (leaf == 7 && (m & 7))
		out[1] &= ~(1u << 5 | 1u << 16 | 1u << 17 | 1u << 30 | 1u << 31); // avx2, avx512
}
EXPORT long sysconf_nprocs() { return (long)K.hc; }

// ------------------------------------------------------------------------------------------------
// zstd: real code behind a seam (faults, cost model, buffer checks)
// ------------------------------------------------------------------------------------------------
static uint64_t zstd_cost(size_t n, int level)
{
	static const int lv[] = { 1, 3, 5, 7, 9, 11, 13, 15, 22 };
	static const double rate[] = { 300e6, 230e6, 60e6, 40e6, 20e6, 9e6, 7e6, 5e6, 1e6 };
	double r = rate[8];
	for (int i = 0; i < 9; ++i)
		if (level <= lv[i]) {
			r = rate[i];
			break;
		}
	double sp = (double)(K.speed ? K.speed : 100) / 100.;
	return (uint64_t)((double)n * 1e9 / (r * sp)) + 200;
}
struct RtScope
{
	RtScope() { ++g_in_rt; }
	~RtScope() { --g_in_rt; }
};
static void znote(size_t n, int level)
{
	if (!simmed())
		return;
	bill();
	g_zcalls->push_back(ZCall{ g_now, n, level });
}
static void zelapse(size_t n, int level)
{
	if (simmed() && K.timed)
		sim_sleep(zstd_cost(n, level));
}
EXPORT ZSTD_CCtx* ZSTD_createCCtx(void)
{
	if (g_in_rt || !simmed())
		return real_ZSTD_createCCtx();
	sched_point(60);
	if (ext_should_fail("zstd_create_failure", &Scope::ccount))
		return nullptr;
	RtScope r;
	auto* c = real_ZSTD_createCCtx();
	if (c)
		++g_live_cctx;
	return c;
}
EXPORT size_t ZSTD_freeCCtx(ZSTD_CCtx* c)
{
	if (g_in_rt || !simmed())
		return real_ZSTD_freeCCtx(c);
	RtScope r;
	if (c)
		--g_live_cctx;
	return real_ZSTD_freeCCtx(c);
}
static size_t zfail() { return (size_t)-ZSTD_error_memory_allocation; }
template<class F>
static size_t zcompress(void* dst, size_t cap, const void* src, size_t n, int level, void* pc, F f, void* cctx)
{
	sched_point(61);
	if (cctx) // a zstd context is not to be used by two threads at once
		access((uintptr_t)cctx, 1, true, pc);
	access((uintptr_t)src, n ? n : 1, false, pc);
	znote(n, level);
	if (ext_should_fail("zstd_compress_failure", &Scope::zcount))
		return zfail();
	size_t r;
	{
		RtScope s;
		r = f();
	}
	if (!ZSTD_isError(r) && r)
		access((uintptr_t)dst, r, true, pc);
	zelapse(n, level);
	return r;
}
EXPORT size_t ZSTD_compressCCtx(ZSTD_CCtx* c, void* dst, size_t cap, const void* src, size_t n, int level)
{
	if (g_in_rt || !simmed())
		return real_ZSTD_compressCCtx(c, dst, cap, src, n, level);
	return zcompress(dst, cap, src, n, level, PC, [&] { return real_ZSTD_compressCCtx(c, dst, cap, src, n, level); }, c);
}
EXPORT size_t ZSTD_compress(void* dst, size_t cap, const void* src, size_t n, int level)
{
	if (g_in_rt || !simmed())
		return real_ZSTD_compress(dst, cap, src, n, level);
	return zcompress(dst, cap, src, n, level, PC, [&] { return real_ZSTD_compress(dst, cap, src, n, level); }, nullptr);
}
EXPORT size_t ZSTD_compress_usingCDict(ZSTD_CCtx* c, void* dst, size_t cap, const void* src, size_t n, const ZSTD_CDict* d)
{
	if (g_in_rt || !simmed())
		return real_ZSTD_compress_usingCDict(c, dst, cap, src, n, d);
	return zcompress(dst, cap, src, n, 3, PC, [&] { return real_ZSTD_compress_usingCDict(c, dst, cap, src, n, d); }, c);
}
template<class F>
static size_t zdecompress(void* dst, size_t cap, const void* src, size_t n, void* pc, F f)
{
	sched_point(62);
	if (n)
		access((uintptr_t)src, n, false, pc);
	if (ext_should_fail("zstd_decompress_failure", &Scope::dcount))
		return zfail();
	if (cap)
		access((uintptr_t)dst, cap, true, pc); // zstd may use the whole capacity
	size_t r;
	{
		RtScope s;
		r = f();
	}
	if (simmed() && K.timed)
		sim_sleep(n + 200);
	return r;
}
EXPORT size_t ZSTD_decompress(void* dst, size_t cap, const void* src, size_t n)
{
	if (g_in_rt || !simmed())
		return real_ZSTD_decompress(dst, cap, src, n);
	return zdecompress(dst, cap, src, n, PC, [&] { return real_ZSTD_decompress(dst, cap, src, n); });
}
EXPORT size_t ZSTD_decompressDCtx(ZSTD_DCtx* c, void* dst, size_t cap, const void* src, size_t n)
{
	if (g_in_rt || !simmed())
		return real_ZSTD_decompressDCtx(c, dst, cap, src, n);
	return zdecompress(dst, cap, src, n, PC, [&] { return real_ZSTD_decompressDCtx(c, dst, cap, src, n); });
}

// ------------------------------------------------------------------------------------------------
// One run
// ------------------------------------------------------------------------------------------------

static int seg_cb(struct dl_phdr_info* i, size_t, void* p)
{
#if !defined(SIM_ASAN)
	const char* want = (const char*)p;
	if (!i->dlpi_name || !strstr(i->dlpi_name, want))
		return 0;
	for (int k = 0; k < i->dlpi_phnum; ++k) {
		auto& ph = i->dlpi_phdr[k];
		if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W) && g_nsegs < 16) {
			DataSeg& s = g_segs[g_nsegs];
			s.lo = (i->dlpi_addr + ph.p_vaddr) & ~7ull;
			s.hi = i->dlpi_addr + ph.p_vaddr + ph.p_memsz + 8;
			s.shadow = (uint64_t*)mmap(nullptr, (s.hi - s.lo) * 4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			++g_nsegs;
		}
	}
#endif
	return 0;
}
EXPORT void sim_register_lib(void* addr_in_lib)
{
	Dl_info di;
	if (dladdr(addr_in_lib, &di)) {
		const char* f = strrchr(di.dli_fname, '/');
		dl_iterate_phdr(seg_cb, (void*)(f ? f + 1 : di.dli_fname));
	}
}
static void check_all_redzones()
{
#if !defined(SIM_ASAN)
	for (auto& b : *g_blocks)
		if (b.second.live)
			check_red(b.first, b.second);
#endif
}
static void* main_thread(void*)
{
	typedef void (*entry_t)(const Plan*);
	size_t nl = g_plan->knob("libs", 1);
	if (nl > g_libs.size())
		nl = g_libs.size();
	std::vector<void*> hs;
	std::vector<entry_t> es;
	g_cur->sut = 1;
	for (size_t i = 0; i < nl; ++i) {
		void* h = dlopen(g_libs[i].c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!h) {
			fprintf(stderr, "simulator: %s\n", dlerror());
			_exit(97);
		}
		hs.push_back(h);
		es.push_back((entry_t)dlsym(h, "sut_entry"));
		sim_register_lib((void*)es.back());
		if (!es.back()) {
			fprintf(stderr, "simulator: no entry\n");
			_exit(97);
		}
	}
	g_cur->sut = 0;
	typedef void (*multi_t)(const Plan*, void**, int);
	try {
		if (nl > 1) {
			multi_t m = (multi_t)dlsym(hs[0], "sut_multi");
			m(g_plan, hs.data(), (int)nl);
		}
		else
			es[0](g_plan);
	}
	catch (std::exception& e) {
		sim_fail("exception", "exception escaped to the caller: %s", e.what());
	}
	g_cur->sut = 1;
	run_tls_dtors(g_cur);
	while (!g_atexit->empty()) {
		AtExit a = g_atexit->back();
		g_atexit->pop_back();
		a.fn(a.obj);
	}
	for (size_t i = nl; i-- > 0;)
		dlclose(hs[i]);
	g_cur->sut = 0;
	check_all_redzones();
	for (int i = 1; i < g_nthr; ++i)
		if (g_thr[i]->state != ST_DONE && !g_thr[i]->client)
			sim_fail("leak", "a library thread survives unloading the library");
	if (g_plan->knob("leakcheck", 1)) {
		if (g_live_blocks) {
			std::string d;
			int c = 0;
			for (auto& b : *g_blocks)
				if (b.second.live && b.second.sut && c++ < 4)
					d += " " + std::to_string(b.second.size);
			sim_fail("leak", "%zu blocks (%zu bytes) allocated by the library are never released; sizes:%s", g_live_blocks, g_live_bytes, d.c_str());
		}
		if (g_live_cctx)
			sim_fail("leak", "%zu zstd contexts are never released", g_live_cctx);
	}
	hash_add(g_now);
	hash_add(g_acc);
	finish(1, "", "");
	return nullptr;
}
static void setup_signals(int cpu)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM };
	for (int s : sg)
		sigaction(s, &sa, nullptr);
	struct itimerval it;
	memset(&it, 0, sizeof(it));
	it.it_value.tv_sec = cpu;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
#if defined(SIM_ASAN)
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:exitcode=0:quarantine_size_mb=8:malloc_context_size=0:alloc_dealloc_mismatch=0:use_sigaltstack=0:print_cmdline=0:symbolize=0:detect_odr_violation=0:verify_asan_link_order=0";
}
static void on_asan(const char* rep)
{
	// "ERROR: AddressSanitizer: heap-buffer-overflow on address ... at pc ..."
	std::string m = rep ? rep : "";
	size_t p = m.find("AddressSanitizer: ");
	std::string what = "memory error";
	if (p != std::string::npos) {
		size_t q = m.find(' ', p + 18);
		what = m.substr(p + 18, q - p - 18);
	}
	std::string acc;
	for (const char* k : { "\nREAD of size", "\nWRITE of size" }) {
		size_t a = m.find(k);
		if (a != std::string::npos) {
			size_t e = m.find(" at ", a + 1);
			acc = m.substr(a + 1, e - a - 1);
		}
	}
	// first frames
	std::string frames;
	size_t f = 0;
	int n = 0;
	while (n < 3 && (f = m.find("    #", f)) != std::string::npos) {
		size_t e = m.find('\n', f);
		std::string l = m.substr(f + 4, e - f - 4);
		size_t pcs = l.find("0x");
		void* pc = pcs != std::string::npos ? (void*)strtoull(l.c_str() + pcs, nullptr, 16) : nullptr;
		frames += (n ? " < " : "") + symbol(pc ? (char*)pc + 1 : nullptr);
		f = e;
		++n;
	}
	sim_fail("memory", "%s: %s in %s", what.c_str(), acc.c_str(), frames.c_str());
}
#endif

static void child_run(const Plan& plan, int cpu)
{
	g_plan = &plan;
	setup_signals(cpu);
	alt_stack();
	// knobs
	K.policy = plan.knob("policy", 0);
	K.pre = plan.knob("pre", 10);
	if (!K.pre)
		K.pre = 1;
	K.plainpre = plan.knob("plainpre", 0);
	K.spurious = plan.knob("spurious", 0);
	K.hc = plan.knob("hc", 2);
	K.reuse = plan.knob("reuse", 0);
	K.fill = plan.knob("fill", 1);
	K.timed = plan.knob("timed", 0);
	K.speed = plan.knob("speed", 100);
	K.gran = plan.knob("gran", 1);
	K.stall = plan.knob("stall", 0);
	K.stallns = plan.knob("stallns", 1000000);
	K.memns = plan.knob("memns", 16);
	K.maxsteps = plan.knob("maxsteps", 3000000);
	K.atomic_sched = plan.knob("atomic_sched", 1);
	g_now = plan.knob("t0", 1000000000ull);
	uint64_t ss = plan.knob("sched", 1);
	g_srng = Rng(mix64(ss, 1));
	g_trng = Rng(mix64(plan.knob("tseed", 7), 2));
	g_frng = Rng(mix64(ss, 3));
	if (K.policy == 1) {
		uint64_t d = plan.knob("pctd", 3), len = plan.knob("pctlen", 2000);
		for (uint64_t i = 0; i < d; ++i)
			g_pct_points.push_back(1 + g_srng.below(len));
		std::sort(g_pct_points.rbegin(), g_pct_points.rend());
	}
	if (plan.explicit_sched) {
		for (auto& d : plan.sched) {
			if (d.type == 's')
				g_xs[d.at] = d.val;
			else if (d.type == 'w')
				g_xw[d.at] = d.val;
			else if (d.type == 'u')
				g_xu[d.at] = d.val;
			else if (d.type == 'p')
				g_xp.push_back(d);
		}
		g_plain_cd = g_xp.empty() ? 0 : g_xp[0].at;
	}
	else if (K.plainpre)
		g_plain_cd = 1 + g_srng.below(2 * K.plainpre);
	g_sync = new std::unordered_map<uintptr_t, Sync*>();
	g_blocks = new std::map<uintptr_t, Block>();
	g_free = new std::unordered_map<size_t, std::vector<uintptr_t>>();
	g_zcalls = new std::vector<ZCall>();
	g_atexit = new std::vector<AtExit>();
#if !defined(SIM_ASAN)
	int prot = PROT_READ | PROT_WRITE, fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
	void* a = mmap((void*)ARENA, ARENA_SIZE, prot, fl | MAP_FIXED_NOREPLACE, -1, 0);
	g_state = (uint8_t*)mmap(nullptr, HEAP_SIZE >> 3, prot, fl, -1, 0);
	g_shadow = (uint64_t*)mmap(nullptr, (ARENA_SIZE >> 3) * 32, prot, fl, -1, 0);
	if (a != (void*)ARENA || g_state == MAP_FAILED || g_shadow == MAP_FAILED) {
		fprintf(stderr, "simulator: cannot map arena\n");
		_exit(96);
	}
#else
	__asan_set_error_report_callback(on_asan);
#endif
	R->hash = 0xcbf29ce484222325ull;
	Thread* m = new_thread(main_thread, nullptr, true);
	g_cur = m;
	g_active = true;
	go(m);
	// signals of this process go to the simulated threads
	sigset_t all;
	sigfillset(&all);
	pthread_sigmask(SIG_BLOCK, &all, nullptr);
	for (;;)
		pause();
}

// ------------------------------------------------------------------------------------------------
// Parent
// ------------------------------------------------------------------------------------------------
static int g_cpu = 20;
static void run_one(const Plan& p)
{
	memset(R, 0, offsetof(Result, dec));
	pid_t pid = fork();
	if (pid == 0) {
		child_run(p, g_cpu);
		_exit(95);
	}
	int st = 0;
	// wall clock guard: only for failures of the simulator itself
	struct timespec t0, t1;
	real_clock_gettime(CLOCK_MONOTONIC, &t0);
	for (unsigned spin = 0;; ++spin) {
		pid_t r = waitpid(pid, &st, spin < 1 ? 0 : 0);
		if (r == pid)
			break;
		if (r < 0 && errno == EINTR) {
			real_clock_gettime(CLOCK_MONOTONIC, &t1);
			if (t1.tv_sec - t0.tv_sec > 60 + 3 * g_cpu) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				break;
			}
		}
	}
	if (R->status == 0) {
		if (WIFEXITED(st) && WEXITSTATUS(st) >= 90) {
			R->status = 3; // simulator error
			snprintf(R->cls, sizeof(R->cls), "simerror");
			snprintf(R->msg, sizeof(R->msg), "simulator exit code %d", WEXITSTATUS(st));
		}
		else {
			R->status = 2;
			if (WIFSIGNALED(st)) {
				snprintf(R->cls, sizeof(R->cls), WTERMSIG(st) == SIGKILL ? "simerror" : "crash");
				if (WTERMSIG(st) == SIGKILL)
					R->status = 3;
				snprintf(R->msg, sizeof(R->msg), "process died: %s", strsignal(WTERMSIG(st)));
			}
			else {
				snprintf(R->cls, sizeof(R->cls), "exit");
				snprintf(R->msg, sizeof(R->msg), "process exited with code %d inside a call", WEXITSTATUS(st));
			}
		}
	}
}
static std::string jstr(const char* s)
{
	std::string r = "\"";
	for (; *s; ++s) {
		if (*s == '"' || *s == '\\')
			r += '\\';
		if (*s == '\n') {
			r += "\\n";
			continue;
		}
		if ((unsigned char)*s < 32)
			r += ' ';
		else
			r += *s;
	}
	return r + "\"";
}
static void print_result(const Plan& p, const char* tag)
{
	printf("%s {\"seed\":%llu,\"status\":%d,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"steps\":%llu,\"acc\":%llu,\"switches\":%llu,\"simtime\":%llu,\"ndec\":%u}\n",
	       tag,
	       (unsigned long long)p.seed,
	       R->status,
	       jstr(R->cls).c_str(),
	       jstr(R->msg).c_str(),
	       (unsigned long long)R->hash,
	       (unsigned long long)R->steps,
	       (unsigned long long)R->acc,
	       (unsigned long long)R->switches,
	       (unsigned long long)R->simtime,
	       R->ndec);
	fflush(stdout);
}
static void on_alarm(int) {}
// memory of ended runs is given back by the kernel with a delay: wait when it becomes short
static void memory_throttle()
{
	for (int k = 0; k < 400; ++k) {
		FILE* f = fopen("/proc/meminfo", "r");
		if (!f)
			return;
		unsigned long long total = 0, avail = 0;
		char l[200];
		while (fgets(l, sizeof(l), f))
			if (sscanf(l, "MemTotal: %llu", &total) == 1 || sscanf(l, "MemAvailable: %llu", &avail) == 1) {
			}
		fclose(f);
		if (!total || avail > total / 10 * 6)
			return;
		struct timespec ts = { 0, 25000000 };
		syscall(SYS_nanosleep, &ts, nullptr);
	}
}

int main(int argc, char** argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_REEXEC")) {
			setenv("SIM_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	resolve();
	std::string prop, planfile, dump, save;
	uint64_t nsamples = 0, seed = 1, count = 100, stride = 1, offset = 0, single = 0, dup = 50;
	double tlimit = 1e9;
	bool explicit_out = false, have_single = false, all = false;
	int pin = -1;
	std::vector<std::string> knob_over;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nxt = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--lib")
			g_libs.push_back(nxt());
		else if (a == "--prop")
			prop = nxt();
		else if (a == "--seed")
			seed = strtoull(nxt(), nullptr, 10);
		else if (a == "--count")
			count = strtoull(nxt(), nullptr, 10);
		else if (a == "--stride")
			stride = strtoull(nxt(), nullptr, 10);
		else if (a == "--offset")
			offset = strtoull(nxt(), nullptr, 10);
		else if (a == "--time")
			tlimit = atof(nxt());
		else if (a == "--plan")
			planfile = nxt();
		else if (a == "--single") {
			single = strtoull(nxt(), nullptr, 10);
			have_single = true;
		}
		else if (a == "--save")
			save = nxt();
		else if (a == "--explicit")
			explicit_out = true;
		else if (a == "--trace")
			g_trace = true;
		else if (a == "--all")
			all = true;
		else if (a == "--scale")
			g_scale = strtoull(nxt(), nullptr, 10);
		else if (a == "--samples")
			nsamples = strtoull(nxt(), nullptr, 10);
		else if (a == "--pin")
			pin = atoi(nxt());
		else if (a == "--dup")
			dup = strtoull(nxt(), nullptr, 10);
		else if (a == "--cpu")
			g_cpu = atoi(nxt());
		else if (a == "--knob")
			knob_over.push_back(nxt());
#if !defined(SIM_ASAN)
		else if (a == "--watch")
			g_watch = strtoull(nxt(), nullptr, 16);
#endif
	}
	if (pin >= 0) {
		cpu_set_t cs;
		CPU_ZERO(&cs);
		CPU_SET(pin, &cs);
		sched_setaffinity(0, sizeof(cs), &cs);
	}
	R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = on_alarm;
	sigaction(SIGALRM, &sa, nullptr);
	struct itimerval it;
	memset(&it, 0, sizeof(it));
	it.it_value.tv_sec = it.it_interval.tv_sec = 5;
	setitimer(ITIMER_REAL, &it, nullptr);
	setlinebuf(stdout);

	auto over = [&](Plan& p) {
		for (auto& k : knob_over) {
			size_t e = k.find('=');
			p.knobs.set(k.substr(0, e).c_str(), strtoull(k.c_str() + e + 1, nullptr, 10));
		}
	};
	auto write_plan = [&](Plan p) {
		if (save.empty())
			return;
		if (explicit_out && R->ndec < MAX_DEC) {
			p.explicit_sched = true;
			p.sched.assign(R->dec, R->dec + R->ndec);
		}
		FILE* f = fopen(save.c_str(), "w");
		if (f) {
			std::string s = p.str();
			fwrite(s.data(), 1, s.size(), f);
			fclose(f);
		}
	};
	if (!planfile.empty()) {
		// one plan, or a list of plans separated by "---" lines (minimiser)
		std::string text;
		FILE* f = planfile == "-" ? stdin : fopen(planfile.c_str(), "r");
		if (!f) {
			fprintf(stderr, "cannot open %s\n", planfile.c_str());
			return 4;
		}
		char b[65536];
		size_t n;
		while ((n = fread(b, 1, sizeof(b), f)) > 0)
			text.append(b, n);
		Plan p;
		if (!p.parse(text)) {
			fprintf(stderr, "bad plan\n");
			return 4;
		}
		over(p);
		run_one(p);
		print_result(p, "RESULT");
		write_plan(p);
		return R->status == 1 ? 0 : R->status == 2 ? 1 : 4;
	}
	if (have_single) {
		Plan p;
		p.prop = prop;
		p.seed = single;
		gen_plan(p);
		over(p);
		if (g_trace)
			fputs(p.str().c_str(), stderr);
		run_one(p);
		print_result(p, "RESULT");
		write_plan(p);
		return R->status == 1 ? 0 : R->status == 2 ? 1 : 4;
	}
	// batch
	struct timespec t0, t1;
	real_clock_gettime(CLOCK_MONOTONIC, &t0);
	std::map<std::string, uint64_t> probes, faults, proberuns, opk;
	uint64_t runs = 0, steps = 0, acc = 0, sw = 0, simt = 0, dups = 0, dupbad = 0, viol = 0, faultruns = 0, mt = 0;
	std::vector<uint64_t> shashes, ihashes;
	double el = 0;
	for (uint64_t i = offset; i < count; i += stride) {
		real_clock_gettime(CLOCK_MONOTONIC, &t1);
		el = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-9;
		if (el > tlimit)
			break;
		if (runs % 32 == 0)
			memory_throttle();
		Plan p;
		p.prop = prop;
		p.seed = mix64(seed, i);
		gen_plan(p);
		over(p);
		run_one(p);
		if (R->status == 3)
			run_one(p); // the machine, not the run: once more
		if (R->status == 3) {
			print_result(p, "SIMERROR");
			return 4;
		}
		if (nsamples && (R->switches || R->nfaults || R->nprobes)) {
			--nsamples;
			printf("SAMPLE {\"plan\":%s,\"steps\":%llu,\"switches\":%llu,\"status\":%d}\n", jstr(p.str().c_str()).c_str(), (unsigned long long)R->steps, (unsigned long long)R->switches, R->status);
		}
		++runs;
		steps += R->steps;
		acc += R->acc;
		sw += R->switches;
		simt += R->simtime;
		mt += R->switches > 0;
		if (R->switches || R->nfaults || R->nprobes)
			shashes.push_back(R->shash ^ R->hash);
		if (R->switches)
			ihashes.push_back(R->shash);
		faultruns += R->nfaults > 0;
		for (uint32_t k = 0; k < R->nprobes; ++k)
			probes[R->probes[k].name] += R->probes[k].n, ++proberuns[R->probes[k].name];
		for (uint32_t k = 0; k < R->nfaults; ++k)
			faults[R->faults[k].name] += R->faults[k].n;
		for (auto& o : p.ops)
			++opk[o.name];
		if (R->status == 2) {
			++viol;
			print_result(p, "VIOL");
			if (!all)
				break;
		}
		else if (dup && runs % dup == 0) {
			uint64_t h = R->hash;
			run_one(p);
			++dups;
			if (R->hash != h || R->status != 1) {
				++dupbad;
				print_result(p, "NONDET");
			}
		}
	}
	std::string j = "STATS {\"runs\":" + std::to_string(runs) + ",\"steps\":" + std::to_string(steps) + ",\"acc\":" + std::to_string(acc) + ",\"switches\":" + std::to_string(sw) +
			",\"simtime\":" + std::to_string(simt) + ",\"mt\":" + std::to_string(mt) + ",\"dups\":" + std::to_string(dups) + ",\"dupbad\":" + std::to_string(dupbad) + ",\"violations\":" + std::to_string(viol) + ",\"faultruns\":" + std::to_string(faultruns) +
			",\"elapsed\":" + std::to_string(el);
	auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) {
		j += std::string(",\"") + n + "\":{";
		bool first = true;
		for (auto& x : m) {
			j += (first ? "" : ",") + jstr(x.first.c_str()) + ":" + std::to_string(x.second);
			first = false;
		}
		j += "}";
	};
	mp("probes", probes);
	mp("proberuns", proberuns);
	mp("faults", faults);
	mp("ops", opk);
	auto list = [&](const char* n, std::vector<uint64_t>& v) {
		std::sort(v.begin(), v.end());
		v.erase(std::unique(v.begin(), v.end()), v.end());
		j += std::string(",\"") + n + "\":[";
		for (size_t i = 0; i < v.size(); ++i) {
			char b[40];
			snprintf(b, sizeof(b), "%s\"%llx\"", i ? "," : "", (unsigned long long)v[i]);
			j += b;
		}
		j += "]";
	};
	list("hashes", shashes);
	list("ihashes", ihashes);
	j += "}\n";
	fputs(j.c_str(), stdout);
	return viol ? 1 : 0;
}
