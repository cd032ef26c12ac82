// Simulated clients of the compression API. Interprets the operations of a plan; every check is made
// on what the public API returns and on the memory it touches.
#include "sim.h"
#include "datagen.h"
#include "w_common.h"
#include <stenos/stenos.h>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <string>
#include <vector>

extern "C" size_t stenos_cvx(int cfg, int mode, uint64_t* x, size_t n, uint8_t* buf, size_t cap); // w_cvec.cpp

namespace
{
	struct Api
	{
		decltype(&stenos_make_context) make_context;
		decltype(&stenos_destroy_context) destroy_context;
		decltype(&stenos_reset_context) reset_context;
		decltype(&stenos_set_level) set_level;
		decltype(&stenos_set_threads) set_threads;
		decltype(&stenos_set_max_nanoseconds) set_max_nanoseconds;
		decltype(&stenos_set_block_size) set_block_size;
		decltype(&stenos_memory_footprint) memory_footprint;
		decltype(&stenos_has_error) has_error;
		decltype(&stenos_bound) bound;
		decltype(&stenos_compress_generic) compress_generic;
		decltype(&stenos_decompress_generic) decompress_generic;
		decltype(&stenos_compress) compress;
		decltype(&stenos_decompress) decompress;
		decltype(&stenos_get_info) get_info;
		decltype(&stenos_make_timer) make_timer;
		decltype(&stenos_destroy_timer) destroy_timer;
		decltype(&stenos_tick) tick;
		decltype(&stenos_tock) tock;
		decltype(&stenos_cvx) cvx;
	};
	Api g_api[4];
	int g_napi = 0;

	void load_api(Api& a, void* h)
	{
#define SYM(n) a.n = (decltype(a.n))(h ? dlsym(h, "stenos_" #n) : (void*)&stenos_##n)
		SYM(make_context);
		SYM(destroy_context);
		SYM(reset_context);
		SYM(set_level);
		SYM(set_threads);
		SYM(set_max_nanoseconds);
		SYM(set_block_size);
		SYM(memory_footprint);
		SYM(has_error);
		SYM(bound);
		SYM(compress_generic);
		SYM(decompress_generic);
		SYM(compress);
		SYM(decompress);
		SYM(get_info);
		SYM(make_timer);
		SYM(destroy_timer);
		SYM(tick);
		SYM(tock);
		SYM(cvx);
	}

	const Plan* g_plan;

	struct Buf // client memory with exact end
	{
		uint8_t* base = nullptr;
		uint8_t* p = nullptr;
		size_t n = 0;
		Buf() {}
		Buf(size_t n, unsigned mis = 0)
		  : n(n)
		{
			mis &= 15;
			base = (uint8_t*)sim_buf(n + mis);
			p = base + mis;
		}
		Buf(Buf&& o) noexcept
		  : base(o.base)
		  , p(o.p)
		  , n(o.n)
		{
			o.base = nullptr;
		}
		Buf& operator=(Buf&& o) noexcept
		{
			std::swap(base, o.base);
			std::swap(p, o.p);
			std::swap(n, o.n);
			return *this;
		}
		Buf(const Buf&) = delete;
		~Buf()
		{
			if (base) {
				if (n)
					sim_touch(p, n, 1); // whoever still uses the buffer now is in conflict
				sim_buf_free(base);
			}
		}
	};
	uint64_t fnv(const uint8_t* p, size_t n)
	{
		uint64_t h = 1469598103934665603ull ^ n;
		while (n >= 8) {
			uint64_t v;
			memcpy(&v, p, 8);
			h = (h ^ v) * 0x100000001B3ull;
			h ^= h >> 31;
			p += 8;
			n -= 8;
		}
		while (n--)
			h = (h ^ *p++) * 0x100000001B3ull;
		return h;
	}

	struct Client
	{
		int idx = 0;
		std::vector<const Item*> ops;
		std::map<std::pair<int, int>, stenos_context*> ctx; // (library, slot)
		std::map<int, stenos_timer*> timers;
		std::map<int, uint64_t> timer_start;
		int cursut = 0;
	};

	struct Enter
	{
		Enter(uint64_t op) { sim_enter((int)op); }
		~Enter() { sim_leave(); }
	};

	// parameters of one compression
	struct Par
	{
		size_t bt, n;
		unsigned k, mis;
		uint64_t ds;
		int lv, th, dt;
		uint64_t sh, ns; // sh: 0 none, otherwise shift + 1
		int x, y, la, lb;
		uint64_t id;
		int c;
		bool simple, dsimple, same, vf, keep;
		uint64_t pad;
		Par(const Item& o)
		{
			bt = o.get("bt", 4);
			n = o.get("n", 1000) / bt * bt;
			k = (unsigned)o.get("k", 2);
			mis = (unsigned)o.get("mis", 0);
			ds = o.get("ds", 1);
			lv = (int)o.get("lv", 1);
			th = (int)o.get("th", 1);
			dt = (int)o.get("dt", 1);
			sh = o.get("sh", 0);
			ns = o.get("ns", 0);
			x = (int)o.get("x", 0);
			y = (int)o.get("y", o.get("x", 0));
			la = (int)o.get("la", 0);
			lb = (int)o.get("lb", 0);
			if (la >= g_napi)
				la = 0;
			if (lb >= g_napi)
				lb = 0;
			id = o.get("id", 0) * 4;
			c = (int)o.get("c", 0);
			simple = o.get("simple", 0) != 0 && !sh && !ns && th <= 1;
			dsimple = o.get("dsimple", 0) != 0;
			same = o.get("same", 0) != 0;
			vf = o.get("vf", 0) != 0;
			pad = o.get("pad", 0);
		}
		size_t cap(Api& a) const
		{
			size_t b = a.bound(n);
			if (sh)
				b += 4 * (n / (bt * 256) + 2) + 16;
			return b;
		}
		std::string str() const
		{
			char b[300];
			snprintf(b, sizeof(b), "bytes=%zu bytesoftype=%zu level=%d threads=%d dthreads=%d shift=%d ns=%llu kind=%u", n, bt, lv, th, dt, (int)sh - 1, (unsigned long long)ns, k);
			return b;
		}
	};

	Buf input(const Par& p)
	{
		Buf b(p.n, p.mis);
		if (p.n) {
			gen_data(b.p, p.n, p.bt, p.k, p.ds);
			sim_touch(b.p, p.n, 1);
		}
		return b;
	}

	stenos_context* get_ctx(Client& c, int lib, int slot, uint64_t op)
	{
		auto& r = c.ctx[{ lib, slot }];
		if (!r) {
			Enter e(op);
			r = g_api[lib].make_context();
			if (!r && !sim_faults_fired())
				sim_fail("result", "stenos_make_context failed without a fault");
			if (!r)
				sim_probe("context_creation_failed");
		}
		return r;
	}
	void drop_ctx(Client& c, int lib, int slot)
	{
		auto it = c.ctx.find({ lib, slot });
		if (it == c.ctx.end())
			return;
		if (it->second) {
			Enter e(0);
			g_api[lib].destroy_context(it->second);
		}
		c.ctx.erase(it);
	}

	void set_params(Api& a, stenos_context* x, const Par& p)
	{
		size_t e = 0;
		e |= a.set_level(x, p.lv);
		e |= a.set_threads(x, p.th);
		e |= a.set_max_nanoseconds(x, p.ns);
		e |= a.set_block_size(x, p.sh ? (size_t)p.sh - 1 : STENOS_NO_BLOCK_SHIFT);
		if (e)
			sim_fail("result", "a parameter setter rejected a valid value: %s", p.str().c_str());
	}

	bool isd(size_t r) { return r == STENOS_ERROR_ALLOC; }

	struct CRes
	{
		size_t r;
		bool faulted;
	};
	// A call without faults of its own may still be hit by a fault armed for a call of another client
	// (through a library thread both use): repeat it; after a while all faults stop.
	bool again(uint64_t op, const CRes& r, int k)
	{
		if (op || !r.faulted || !stenos_has_error(r.r))
			return false;
		if (k > 300)
			sim_fail("result", "a call keeps failing once faults stopped");
		if (k >= 20)
			sim_heal();
		sim_probe("hit_by_fault_of_another_client");
		sim_yield();
		return true;
	}
	CRes do_compress(Client& c, const Par& p, const Buf& src, Buf& dst, stenos_context* x, uint64_t op)
	{
		Api& a = g_api[p.la];
		CRes res;
		if (dst.n)
			sim_touch(dst.p, dst.n, 1);
		uint64_t h = fnv(src.p, src.n);
		for (int k = 0;; ++k) {
			{
				Enter e(op);
				if (p.simple)
					res.r = a.compress(src.p, p.bt, p.n, dst.p, dst.n, p.lv);
				else {
					set_params(a, x, p);
					res.r = a.compress_generic(x, src.p, p.bt, p.n, dst.p, dst.n);
				}
				res.faulted = sim_faults_fired() != 0;
			}
			if (!again(op, res, k))
				break;
		}
		sim_note("client %d compress %s cap=%zu -> %zd%s", c.idx, p.str().c_str(), dst.n, (ssize_t)res.r, res.faulted ? " (faulted)" : "");
		sim_hash(res.r);
		// nothing may run on the buffers any more
		if (src.n)
			sim_touch(src.p, src.n, 1);
		if (dst.n)
			sim_touch(dst.p, dst.n, 1);
		if (fnv(src.p, src.n) != h)
			sim_fail("memory", "compression modified its source: %s", p.str().c_str());
		if (!a.has_error(res.r)) {
			if (res.r > dst.n)
				sim_fail("result", "compression reports %zu bytes for a destination of %zu: %s", res.r, dst.n, p.str().c_str());
			sim_hash(fnv(dst.p, res.r));
		}
		return res;
	}
	// decompress into a buffer of outn bytes
	CRes do_decompress(Client& c, const Par& p, const uint8_t* frame, size_t fn, Buf& out, stenos_context* y, uint64_t op)
	{
		Api& a = g_api[p.lb];
		// exact copy: reading one byte too far is an error
		Buf f(fn, p.mis >> 4);
		memcpy(f.p, frame, fn);
		if (fn)
			sim_touch(f.p, fn, 1);
		if (out.n)
			sim_touch(out.p, out.n, 1);
		CRes res;
		for (int k = 0;; ++k) {
			{
				Enter e(op);
				if (p.dsimple)
					res.r = a.decompress(f.p, p.bt, fn, out.p, out.n);
				else {
					a.set_threads(y, p.dt);
					res.r = a.decompress_generic(y, f.p, p.bt, fn, out.p, out.n);
				}
				res.faulted = sim_faults_fired() != 0;
			}
			if (!again(op, res, k))
				break;
		}
		sim_note("client %d decompress frame=%zu cap=%zu -> %zd%s", c.idx, fn, out.n, (ssize_t)res.r, res.faulted ? " (faulted)" : "");
		sim_hash(res.r);
		if (fn)
			sim_touch(f.p, fn, 1);
		if (out.n)
			sim_touch(out.p, out.n, 1);
		if (fn && memcmp(f.p, frame, fn) != 0)
			sim_fail("memory", "decompression modified its source");
		if (!a.has_error(res.r) && res.r > out.n)
			sim_fail("result", "decompression reports %zu bytes for a destination of %zu", res.r, out.n);
		return res;
	}

	void check_info(Client&, const Par& p, const uint8_t* frame, size_t fn)
	{
		Api& a = g_api[p.lb];
		stenos_info i = { 12345, 12345 };
		Buf f(fn);
		memcpy(f.p, frame, fn);
		sim_touch(f.p, fn, 1);
		size_t r;
		{
			Enter e(0);
			r = a.get_info(f.p, p.bt, fn, &i);
		}
		if (a.has_error(r))
			sim_fail("result", "stenos_get_info fails on a valid frame: %s", p.str().c_str());
		if (i.decompressed_size != p.n)
			sim_fail("result", "stenos_get_info reports size %zu instead of %zu", i.decompressed_size, p.n);
		if (r > 12)
			sim_fail("result", "stenos_get_info reports a header of %zu bytes", r);
	}

	struct Frame
	{
		std::vector<uint8_t> d;
		Par p;
	};
	std::map<std::string, std::pair<uint64_t, size_t>> g_same; // inputs to frame
	std::vector<std::unique_ptr<Frame>> g_alone;		     // to compare with the calls made alone

	std::string input_key(const Par& p)
	{
		char b[200];
		// one thread and several threads give different (equally valid) frames: the former may use
		// the whole destination while encoding a superblock
		snprintf(b, sizeof(b), "%zu/%zu/%u/%llu/%d/%llu/%d/%llu/%d", p.n, p.bt, p.k, (unsigned long long)p.ds, p.lv, (unsigned long long)p.sh, p.th > 1, (unsigned long long)p.pad, (int)p.simple);
		return b;
	}

	const char* code(size_t r)
	{
		static thread_local char b[40];
		snprintf(b, sizeof(b), "%lld", (long long)r);
		return b;
	}

	void compare(const Par& p, const Buf& src, const Buf& out)
	{
		for (size_t i = 0; i < p.n; ++i)
			if (src.p[i] != out.p[i])
				sim_fail("content", "decompressed data differs from the input at byte %zu: %s", i, p.str().c_str());
	}

	// compress, check, decompress, check. Returns false if a fault made it fail
	bool roundtrip(Client& c, const Par& p, bool faults = true)
	{
		Api& a = g_api[p.la];
		Buf src = input(p);
		bool needx = !p.simple, needy = !p.dsimple;
		stenos_context *x = nullptr, *y = nullptr;
		if (needx && !(x = get_ctx(c, p.la, p.x, faults ? p.id + 2 : 0)))
			return false;
		Buf dst(p.cap(a) + p.pad, p.mis >> 8);
		CRes r = do_compress(c, p, src, dst, x, faults ? p.id : 0);
		if (a.has_error(r.r)) {
			if (!r.faulted)
				sim_fail("result", "compression failed with code %s: %s", code(r.r), p.str().c_str());
			sim_probe("compress_error_under_fault");
			return false;
		}
		if (r.faulted)
			sim_probe("compress_ok_under_fault");
		if (p.n == 0) {
			sim_probe("empty_input");
		}
		if (p.vf && !p.ns && !r.faulted) { // a fresh context must give the same result
			Client tmp;
			stenos_context* f = get_ctx(tmp, p.la, 0, 0);
			Buf d2(dst.n, p.mis >> 8);
			CRes r2 = do_compress(c, p, src, d2, f, 0);
			if (r2.r != r.r || memcmp(d2.p, dst.p, r.r) != 0)
				sim_fail("result", "a used context returned %s where a fresh one returns %s%s: %s", code(r.r), std::to_string((long long)r2.r).c_str(), r2.r == r.r ? " (other bytes)" : "", p.str().c_str());
			drop_ctx(tmp, p.la, 0);
			sim_probe("compared_with_fresh_context");
		}
		if (p.same && !p.ns && !r.faulted) {
			auto h = std::make_pair(fnv(dst.p, r.r), r.r);
			auto it = g_same.find(input_key(p));
			if (it == g_same.end())
				g_same[input_key(p)] = h;
			else {
				sim_probe("compared_same_input");
				if (it->second != h)
					sim_fail("result", "the same input gives another frame (%zu bytes instead of %zu): %s", r.r, it->second.second, p.str().c_str());
			}
		}
		if (g_plan->knob("alone") && !p.ns) {
			auto f = std::unique_ptr<Frame>(new Frame{ std::vector<uint8_t>(dst.p, dst.p + r.r), p });
			g_alone.push_back(std::move(f));
		}
		check_info(c, p, dst.p, r.r);
		if (needy && !(y = get_ctx(c, p.lb, p.y, faults ? p.id + 2 : 0)))
			return false;
		Buf out(p.n + (p.pad & 7), p.mis >> 12);
		CRes d = do_decompress(c, p, dst.p, r.r, out, y, faults ? p.id + 1 : 0);
		if (g_api[p.lb].has_error(d.r)) {
			if (!d.faulted)
				sim_fail("result", "decompression failed with code %s: frame of %zu bytes, %s", code(d.r), r.r, p.str().c_str());
			sim_probe("decompress_error_under_fault");
			return false;
		}
		if (d.faulted)
			sim_probe("decompress_ok_under_fault");
		if (d.r != p.n)
			sim_fail("result", "decompression returned %zu bytes instead of %zu: %s", d.r, p.n, p.str().c_str());
		compare(p, src, out);
		if (p.th > 1)
			sim_probe("rt_mt_compress");
		if (p.dt > 1)
			sim_probe("rt_mt_decompress");
		if (r.r < p.n)
			sim_probe("rt_compressed");
		return true;
	}

	void op_rt(Client& c, const Item& o)
	{
		Par p(o);
		for (uint64_t i = 0, e = o.get("rep", 1); i < e; ++i)
			if (!roundtrip(c, p)) {
				// memory is available again: the same call on the same context and thread must work
				// (it may still be hit by a fault meant for a call of another client)
				sim_probe("retry_after_fault");
				for (int k = 0; !roundtrip(c, p, false); ++k) {
					if (k > 300)
						sim_fail("result", "the call keeps failing once faults stopped: %s", p.str().c_str());
					sim_yield();
				}
			}
			else
				for (auto& f : g_plan->faults)
					if (f.get("op") / 4 == p.id / 4) {
						roundtrip(c, p, false);
						break;
					}
	}

	// a vector filled and serialized on one node, deserialized on another
	void op_cvx(Client&, const Item& o)
	{
		static const int cfgs[] = { 0, 1, 3, 6, 7, 8 }, width[] = { 4, 8, 12, 1, 40, 3 };
		int q = (int)(o.get("cfg") % 6);
		Api &a = g_api[o.get("la") % (uint64_t)g_napi], &b = g_api[o.get("lb") % (uint64_t)g_napi];
		size_t n = o.get("n"), w = (size_t)width[q], k = w < 8 ? w : 8;
		std::vector<uint8_t> raw(n * k + 1);
		gen_data(raw.data(), n * k, k, (unsigned)o.get("k"), o.get("ds"));
		std::vector<uint64_t> x(n), y(n);
		for (size_t i = 0; i < n; ++i)
			memcpy(&x[i], raw.data() + i * k, k);
		Buf d(a.bound(n * w) + 64 * (n / 256 + 2) + 1024);
		size_t r, e;
		{
			Enter en(0);
			r = a.cvx(cfgs[q], 0, x.data(), n, d.p, d.n);
		}
		if (a.has_error(r))
			sim_fail("result", "serializing a vector of %zu elements of %zu bytes fails with %lld", n, w, (long long)r);
		Buf f(r);
		memcpy(f.p, d.p, r);
		{
			Enter en(0);
			e = b.cvx(cfgs[q], 1, y.data(), n, f.p, f.n);
		}
		if (e != n)
			sim_fail("result", "a vector of %zu elements of %zu bytes written by node %d: reading it on node %d returns %lld", n, w, (int)o.get("la"), (int)o.get("lb"), (long long)e);
		if (memcmp(x.data(), y.data(), n * 8))
			sim_fail("content", "a vector of %zu elements of %zu bytes written by node %d is read differently by node %d", n, w, (int)o.get("la"), (int)o.get("lb"));
		sim_probe("vector_moved_between_nodes");
	}

	void op_destroy(Client& c, const Item& o) { drop_ctx(c, (int)o.get("la"), (int)o.get("x")); }

	// parameters left by earlier calls, then reset: defaults must be back
	void op_reset(Client& c, const Item& o)
	{
		Par p(o);
		Api& a = g_api[p.la];
		stenos_context* x = get_ctx(c, p.la, p.x, 0);
		Buf src = input(p), d1(p.cap(a) + 1024), d2(p.cap(a) + 1024);
		sim_touch(d1.p, d1.n, 1);
		sim_touch(d2.p, d2.n, 1);
		{
			Enter e(0);
			if (o.get("dirty")) {
				a.set_level(x, p.lv);
				a.set_threads(x, p.th);
				a.set_max_nanoseconds(x, p.ns);
				a.set_block_size(x, p.sh ? (size_t)p.sh - 1 : STENOS_NO_BLOCK_SHIFT);
				if (o.get("use"))
					a.compress_generic(x, src.p, p.bt, p.n, d1.p, d1.n);
			}
			a.reset_context(x);
		}
		stenos_context* f;
		size_t r1, r2;
		uint64_t z0;
		{
			Enter e(0);
			f = a.make_context();
			z0 = sim_now();
			(void)z0;
			r1 = a.compress_generic(x, src.p, p.bt, p.n, d1.p, d1.n);
			r2 = a.compress_generic(f, src.p, p.bt, p.n, d2.p, d2.n);
			a.destroy_context(f);
		}
		sim_hash(r1);
		if (r1 != r2 || (!a.has_error(r1) && memcmp(d1.p, d2.p, r1) != 0))
			sim_fail("result", "a reset context returned %s where a fresh one returns %lld (before the reset: %s)", code(r1), (long long)r2, p.str().c_str());
		sim_probe("reset_compared");
	}

	// destination of any capacity
	void op_cap(Client& c, const Item& o)
	{
		Par p(o);
		Api& a = g_api[p.la];
		Buf src = input(p);
		stenos_context* x = get_ctx(c, p.la, p.x, 0);
		size_t full = p.cap(a);
		Buf dst(full);
		CRes r = do_compress(c, p, src, dst, x, 0);
		if (a.has_error(r.r))
			sim_fail("result", "compression failed with code %s: %s", code(r.r), p.str().c_str());
		size_t L = r.r;
		Rng rg(o.get("cs", 1));
		for (uint64_t i = 0, e = o.get("cc", 4); i < e; ++i) {
			size_t cap;
			switch (rg.below(6)) {
				case 0: cap = rg.below(L + 1); break;
				case 1: cap = L - (L ? rg.below(L < 64 ? L : 64) : 0); break;
				case 2: cap = rg.below(40); break;
				case 3: cap = L + rg.below(full - L + 1); break;
				case 4: cap = L - (L ? rg.below(L < 1100 ? L : 1100) : 0); break;
				default: cap = L; break;
			}
			Buf d(cap, (unsigned)rg.below(16));
			stenos_context* x2 = rg.chance(1, 3) ? x : get_ctx(c, p.la, p.x + 10, 0);
			CRes q = do_compress(c, p, src, d, x2, 0);
			if (a.has_error(q.r)) {
				sim_probe("small_destination_rejected");
				continue;
			}
			if (cap < full)
				sim_probe("small_destination_accepted");
			Buf out(p.n);
			CRes u = do_decompress(c, p, d.p, q.r, out, get_ctx(c, p.lb, p.y, 0), 0);
			if (u.r != p.n)
				sim_fail("result", "compression into %zu bytes gave a frame that decompresses with code %s: %s", cap, code(u.r), p.str().c_str());
			compare(p, src, out);
		}
		for (uint64_t i = 0, e = o.get("dc", 3); i < e && p.n; ++i) {
			size_t cap = i == 0 ? p.n - 1 : i == 1 ? p.n + rg.below(100) : rg.below(p.n + 50);
			Buf out(cap);
			CRes u = do_decompress(c, p, dst.p, L, out, get_ctx(c, p.lb, p.y, 0), 0);
			if (cap < p.n) {
				if (!a.has_error(u.r))
					sim_fail("result", "decompression of %zu bytes into %zu returned %s", p.n, cap, code(u.r));
				sim_probe("small_output_rejected");
			}
			else {
				if (u.r != p.n)
					sim_fail("result", "decompression into a larger buffer returned %s instead of %zu", code(u.r), p.n);
				compare(p, src, out);
			}
		}
	}

	bool make_frame(Client& c, const Par& p, Buf& src, std::vector<uint8_t>& f)
	{
		Api& a = g_api[p.la];
		src = input(p);
		Buf dst(p.cap(a));
		CRes r = do_compress(c, p, src, dst, get_ctx(c, p.la, p.x, 0), 0);
		if (a.has_error(r.r))
			sim_fail("result", "compression failed with code %s: %s", code(r.r), p.str().c_str());
		f.assign(dst.p, dst.p + r.r);
		return true;
	}
	std::vector<size_t> boundaries(const std::vector<uint8_t>& f)
	{
		std::vector<size_t> b;
		if (f.size() < 8)
			return b;
		size_t i = f[0] == 255 ? 12 : 8;
		while (i <= f.size()) {
			b.push_back(i);
			if (i + 4 > f.size())
				break;
			i += 4 + (f[i + 1] | f[i + 2] << 8 | f[i + 3] << 16);
		}
		return b;
	}

	void op_trunc(Client& c, const Item& o)
	{
		Par p(o);
		Api& a = g_api[p.la];
		Buf src;
		std::vector<uint8_t> f;
		make_frame(c, p, src, f);
		if (!p.n)
			return;
		auto b = boundaries(f);
		Rng rg(o.get("cs", 1));
		for (uint64_t i = 0, e = o.get("cc", 8); i < e; ++i) {
			size_t cut = 0;
			switch (rg.below(5)) {
				case 0: cut = rg.below(f.size()); break;
				case 1: cut = f.size() - 1 - rg.below(f.size() < 6 ? f.size() : 6); break;
				case 2: cut = rg.below(20); break;
				default:
					cut = b.empty() ? 0 : b[rg.below(b.size())] + rg.below(12);
					cut = cut >= 6 ? cut - 6 : 0;
					break;
			}
			if (cut >= f.size())
				cut = f.size() - 1;
			Par q = p;
			if (rg.chance(1, 3))
				q.dt = (int)rg.range(1, 4);
			Buf out(p.n + (rg.chance(1, 4) ? rg.below(3000) : 0));
			CRes u = do_decompress(c, q, f.data(), cut, out, get_ctx(c, p.lb, p.y, 0), 0);
			if (!a.has_error(u.r))
				sim_fail("result", "a frame of %zu bytes cut at %zu decompresses without error (%zu): %s", f.size(), cut, u.r, p.str().c_str());
			sim_probe("truncation_detected");
			// header
			size_t need = f[0] == 255 ? 12 : 8;
			stenos_info inf = { 0, 0 };
			Buf h(cut);
			memcpy(h.p, f.data(), cut);
			if (cut)
				sim_touch(h.p, cut, 1);
			size_t r;
			{
				Enter e2(0);
				r = a.get_info(h.p, p.bt, cut, &inf);
			}
			if (cut < need ? !a.has_error(r) : (a.has_error(r) || inf.decompressed_size != p.n))
				sim_fail("result", "stenos_get_info on the first %zu bytes returned %s, size %zu (header is %zu bytes, size %zu)", cut, code(r), inf.decompressed_size, need, p.n);
		}
		// the context still works
		Buf out(p.n);
		CRes u = do_decompress(c, p, f.data(), f.size(), out, get_ctx(c, p.lb, p.y, 0), 0);
		if (u.r != p.n)
			sim_fail("result", "decompression fails with code %s after truncated frames were rejected: %s", code(u.r), p.str().c_str());
		compare(p, src, out);
	}

	void damage(std::vector<uint8_t>& f, Rng& rg, size_t bt)
	{
		auto b = boundaries(f);
		auto pos = [&]() -> size_t {
			if (f.empty())
				return 0;
			switch (rg.below(4)) {
				case 0: return rg.below(f.size());
				case 1: return rg.below(f.size() < 16 ? f.size() : 16);
				case 2: {
					if (b.empty())
						return 0;
					size_t q = b[rg.below(b.size())] + rg.below(24);
					return q < f.size() ? q : f.size() - 1;
				}
				default: {
					// inside the payload of a superblock, close to its beginning: block headers
					if (b.empty())
						return 0;
					size_t q = b[rg.below(b.size())] + 4 + rg.below(bt + 64);
					return q < f.size() ? q : f.size() - 1;
				}
			}
		};
		if (f.empty())
			return;
		switch (rg.below(12)) {
			case 0: f[pos()] ^= 1u << rg.below(8); break;
			case 1: f[pos()] = (uint8_t)rg.next(); break;
			case 2: f[pos()] = rg.chance(1, 2) ? 255 : 0; break;
			case 3: { // lost region
				size_t i = pos(), n = 1 + rg.below(rg.chance(1, 2) ? 8 : 400);
				f.erase(f.begin() + i, f.begin() + std::min(f.size(), i + n));
			} break;
			case 4: { // duplicated region
				size_t i = pos(), n = 1 + rg.below(rg.chance(1, 2) ? 8 : 400);
				n = std::min(n, f.size() - i);
				std::vector<uint8_t> t(f.begin() + i, f.begin() + i + n);
				f.insert(f.begin() + i, t.begin(), t.end());
			} break;
			case 5: { // torn: rest is zero or garbage
				size_t i = pos();
				bool z = rg.chance(1, 2);
				for (; i < f.size(); ++i)
					f[i] = z ? 0 : (uint8_t)rg.next();
			} break;
			case 6: { // reordered regions
				size_t i = pos(), j = pos(), n = 1 + rg.below(64);
				for (size_t k = 0; k < n && i + k < f.size() && j + k < f.size(); ++k)
					std::swap(f[i + k], f[j + k]);
			} break;
			case 7: f.resize(rg.below(f.size() + 1)); break;
			case 8: { // superblock header
				if (b.empty())
					break;
				size_t q = b[rg.below(b.size())];
				if (q + 4 > f.size())
					break;
				unsigned cs = f[q + 1] | f[q + 2] << 8 | f[q + 3] << 16;
				if (rg.chance(1, 3))
					f[q] = (uint8_t)rg.range(0, 7);
				else {
					switch (rg.below(5)) {
						case 0: cs = (unsigned)rg.below(20); break;
						case 1: cs += (unsigned)rg.below(9) - 4; break;
						case 2: cs = (unsigned)(f.size() - q - 4); break;
						case 3: cs = (unsigned)rg.next(); break;
						default: cs = 0; break;
					}
					f[q + 1] = (uint8_t)cs;
					f[q + 2] = (uint8_t)(cs >> 8);
					f[q + 3] = (uint8_t)(cs >> 16);
				}
			} break;
			case 9: { // frame header
				switch (rg.below(5)) {
					case 0: f[0] = (uint8_t)rg.range(0, 5); break;
					case 1: f[0] = 255; break;
					case 2:
						if (f.size() > 8) {
							uint64_t v = 0;
							for (int i = 0; i < 7; ++i)
								v |= (uint64_t)f[1 + i] << (8 * i);
							v = rg.chance(1, 2) ? v + rg.below(600) - 300 : rg.logu(1, 1ull << 55);
							for (int i = 0; i < 7; ++i)
								f[1 + i] = (uint8_t)(v >> (8 * i));
						}
						break;
					default:
						if (f.size() > 12 && f[0] == 255) {
							uint32_t v = rg.chance(1, 3) ? 0 : (uint32_t)rg.logu(1, 1u << 31);
							if (rg.chance(1, 3))
								v = (uint32_t)(256 * bt * (1 + rg.below(4)) + rg.below(2));
							memcpy(&f[8], &v, 4);
						}
						break;
				}
			} break;
			case 10: { // several flips close together
				size_t i = pos();
				for (size_t k = 0; k < 8 && i + k < f.size(); ++k)
					if (rg.chance(1, 2))
						f[i + k] = (uint8_t)rg.next();
			} break;
			default: { // a superblock with a random payload of a random kind
				if (b.empty())
					break;
				size_t q = b[rg.below(b.size())];
				if (q + 4 > f.size())
					break;
				size_t e = q + 4 + (f[q + 1] | f[q + 2] << 8 | f[q + 3] << 16);
				unsigned mode = (unsigned)rg.below(3);
				for (size_t i = q + 4; i < e && i < f.size(); ++i)
					if (mode == 0)
						f[i] = (uint8_t)rg.next();
					else if (mode == 1)
						f[i] = (uint8_t)rg.below(16) * 17;
					else if (rg.chance(1, 4))
						f[i] ^= 1u << rg.below(8);
				if (rg.chance(2, 3))
					f[q] = 1;
			} break;
		}
	}

	void op_dmg(Client& c, const Item& o)
	{
		Par p(o);
		Api& a = g_api[p.la];
		Buf src;
		std::vector<uint8_t> f;
		make_frame(c, p, src, f);
		Rng rg(o.get("cs", 1));
		for (uint64_t i = 0, e = o.get("cc", 8); i < e; ++i) {
			std::vector<uint8_t> g = f;
			Par q = p;
			unsigned nd = (unsigned)o.get("nd", 3), k = (unsigned)rg.below(nd + 1);
			for (unsigned j = 0; j < k; ++j)
				damage(g, rg, p.bt);
			if (rg.chance(1, 6))
				q.bt = rg.chance(1, 2) ? rg.range(1, 40) : rg.range(1, 400);
			if (rg.chance(1, 4))
				q.dt = (int)rg.range(1, 4);
			size_t cap = p.n;
			if (rg.chance(1, 3))
				cap = rg.chance(1, 2) ? rg.below(p.n + 1) : p.n + rg.below(5000);
			Buf out(cap);
			if (rg.chance(1, 8)) {
				stenos_info inf;
				Buf h(g.size());
				memcpy(h.p, g.data(), g.size());
				if (!g.empty())
					sim_touch(h.p, g.size(), 1);
				Enter e2(0);
				a.get_info(h.p, q.bt, g.size(), &inf);
			}
			CRes u = do_decompress(c, q, g.data(), g.size(), out, get_ctx(c, p.lb, p.y, 0), 0);
			sim_probe(a.has_error(u.r) ? "damage_rejected" : "damage_accepted");
		}
		Buf out(p.n);
		CRes u = do_decompress(c, p, f.data(), f.size(), out, get_ctx(c, p.lb, p.y, 0), 0);
		if (u.r != p.n)
			sim_fail("result", "decompression fails with code %s after damaged frames were processed: %s", code(u.r), p.str().c_str());
		compare(p, src, out);
	}

	// frames written from the format description, not by the compressor
	void op_craft(Client& c, const Item& o)
	{
		Par p(o);
		Api& a = g_api[0];
		Rng rg(o.get("cs", 1));
		for (uint64_t i = 0, e = o.get("cc", 8); i < e; ++i) {
			std::vector<uint8_t> g;
			size_t nblk = 1 + rg.below(3), bs = p.bt * 256, n = nblk * bs + (rg.chance(1, 3) ? rg.below(256) * p.bt : 0);
			bool custom = rg.chance(1, 2);
			g.push_back(custom ? 255 : (uint8_t)rg.below(5));
			for (int k = 0; k < 7; ++k)
				g.push_back(k < 6 ? (uint8_t)(n >> (8 * k)) : 0);
			size_t sb = (131072 / bs ? 131072 / bs * bs : bs);
			if (custom) {
				sb = bs << rg.below(3);
				for (int k = 0; k < 4; ++k)
					g.push_back((uint8_t)(sb >> (8 * k)));
			}
			size_t left = n;
			while (left) {
				size_t d = left < sb ? left : sb;
				left -= d;
				std::vector<uint8_t> pay;
				size_t want = rg.below(d + 40);
				unsigned style = (unsigned)rg.below(4);
				size_t blocks = (d + bs - 1) / bs;
				if (style < 3)
					for (size_t bl = 0; bl < blocks && pay.size() < want + 4; ++bl) {
						// block kind, then one nibble per byte lane, then something
						if (rg.chance(1, 8))
							pay.push_back((uint8_t)rg.range(250, 255));
						else
							pay.push_back((uint8_t)rg.below(16));
						for (size_t j = 0; j < (p.bt + 1) / 2; ++j)
							pay.push_back(style == 0 ? (uint8_t)rg.next() : (uint8_t)(rg.below(16) | rg.below(16) << 4));
						size_t m = rg.below(rg.chance(1, 2) ? 16 : 300);
						for (size_t j = 0; j < m; ++j)
							pay.push_back(style == 1 ? (uint8_t)rg.below(17) : (uint8_t)rg.next());
					}
				else
					while (pay.size() < want)
						pay.push_back((uint8_t)rg.next());
				g.push_back(rg.chance(5, 6) ? 1 : (uint8_t)rg.below(8));
				size_t cs = pay.size();
				if (rg.chance(1, 8))
					cs = rg.below(cs + 5);
				g.push_back((uint8_t)cs);
				g.push_back((uint8_t)(cs >> 8));
				g.push_back((uint8_t)(cs >> 16));
				g.insert(g.end(), pay.begin(), pay.end());
			}
			Par q = p;
			q.dt = rg.chance(1, 4) ? 3 : 1;
			Buf out(n);
			CRes u = do_decompress(c, q, g.data(), g.size(), out, get_ctx(c, 0, p.y, 0), 0);
			sim_probe(a.has_error(u.r) ? "crafted_rejected" : "crafted_accepted");
		}
	}

	// repeated calls: memory does not grow
	void op_grow(Client& c, const Item& o)
	{
		Par p(o);
		size_t rep = o.get("rep", 40), blocks0 = 0, bytes0 = 0;
		for (size_t i = 0; i < rep; ++i) {
			roundtrip(c, p, false);
			if (i == 1) {
				blocks0 = sim_live_blocks();
				bytes0 = sim_live_bytes();
			}
		}
		size_t hc = g_plan->knob("hc", 2);
		// buffers owned by pool threads and recycled tasks may still appear: a few per thread
		size_t allowed = (hc ? hc : 1) * 2 * 2 + 2 * (size_t)(p.th > p.dt ? p.th : p.dt) + 4;
		size_t blocks = sim_live_blocks();
		if (blocks > blocks0 + allowed)
			sim_fail("leak", "%zu repetitions of one call grew the library's memory from %zu blocks (%zu bytes) to %zu blocks (%zu bytes): %s", rep, blocks0, bytes0, blocks, sim_live_bytes(), p.str().c_str());
		sim_probe("growth_checked");
	}

	// time limited compression
	void op_tl(Client& c, const Item& o)
	{
		Par p(o);
		Api& a = g_api[0];
		Buf src = input(p);
		Buf dst(p.cap(a));
		stenos_context* x = get_ctx(c, 0, p.x, 0);
		stenos_info inf;
		uint64_t t0 = sim_now();
		sim_region(src.p, p.n, 4096);
		CRes r = do_compress(c, p, src, dst, x, p.id);
		uint64_t t1 = sim_now();
		sim_region(nullptr, 0, 0);
		if (a.has_error(r.r))
			sim_fail("result", "time limited compression failed with code %s: %s", code(r.r), p.str().c_str());
		{
			Enter e(0);
			a.get_info(dst.p, p.bt, r.r, &inf);
		}
		sim_touch(dst.p, dst.n, 1);
		size_t sb = inf.superblock_size;
		size_t nsb = (p.n + sb - 1) / sb;
		uint64_t slack = o.get("slack", 50000) + p.ns / 50;
		uint64_t deadline = t0 + p.ns + slack;
		int lanes = p.th < 1 ? 1 : p.th;
		if ((size_t)lanes > nsb)
			lanes = (int)nsb;
		if (t1 > deadline) {
			sim_probe("budget_expired");
			uint64_t after = sim_zstd_calls_after(deadline);
			if (after > (uint64_t)lanes)
				sim_fail("budget",
					 "%llu entropy coding passes started after the budget of %llu ns had run out (at most %d superblocks were in progress): %s",
					 (unsigned long long)after,
					 (unsigned long long)p.ns,
					 lanes,
					 p.str().c_str());
			// superblocks first read after the deadline are copied, but for those in progress
			std::vector<uint8_t> f(dst.p, dst.p + r.r);
			auto b = boundaries(f);
			size_t late = 0, coded = 0;
			for (size_t i = 0; i < nsb && i < b.size(); ++i) {
				// first access to the superblock: its first 4096-byte granule that lies inside
				uint64_t t = ~0ull;
				size_t lo = i * sb, hi = std::min(p.n, lo + sb);
				for (size_t g = (lo + 4095) / 4096; g < hi / 4096; ++g)
					t = std::min(t, sim_region_time(g));
				if (t == ~0ull || t < deadline)
					continue;
				++late;
				if (b[i] < f.size() && f[b[i]] != 6)
					++coded;
			}
			if (late > (size_t)lanes)
				sim_probe("superblocks_after_deadline");
			if (coded > 2 * (size_t)lanes)
				sim_fail("budget", "%zu of %zu superblocks started after the budget of %llu ns had run out were still compressed: %s", coded, late, (unsigned long long)p.ns, p.str().c_str());
		}
		else
			sim_probe("budget_kept");
		Par q = p;
		Buf out(p.n);
		CRes u = do_decompress(c, q, dst.p, r.r, out, get_ctx(c, 0, p.y, 0), 0);
		if (u.r != p.n)
			sim_fail("result", "a time limited frame decompresses with code %s: %s", code(u.r), p.str().c_str());
		compare(p, src, out);
	}

	// timers
	void op_tnew(Client& c, const Item& o)
	{
		int t = (int)o.get("t");
		if (c.timers[t])
			return;
		Enter e(0);
		c.timers[t] = g_api[0].make_timer();
		if (!c.timers[t])
			sim_fail("result", "stenos_make_timer failed");
	}
	void op_tdel(Client& c, const Item& o)
	{
		auto it = c.timers.find((int)o.get("t"));
		if (it == c.timers.end())
			return;
		Enter e(0);
		g_api[0].destroy_timer(it->second);
		c.timers.erase(it);
		c.timer_start.erase((int)o.get("t"));
	}
	void op_tick(Client& c, const Item& o)
	{
		op_tnew(c, o);
		int t = (int)o.get("t");
		if (o.has("at") && o.get("at") > sim_now())
			sim_set_now(o.get("at"));
		Enter e(0);
		g_api[0].tick(c.timers[t]);
		c.timer_start[t] = sim_last_clock();
	}
	void op_tock(Client& c, const Item& o)
	{
		int t = (int)o.get("t");
		if (!c.timers.count(t) || !c.timer_start.count(t))
			return;
		if (o.has("at") && o.get("at") > sim_now())
			sim_set_now(o.get("at"));
		if (o.has("adv"))
			sim_advance(o.get("adv"));
		uint64_t v, e1;
		{
			Enter e(0);
			v = g_api[0].tock(c.timers[t]);
			e1 = sim_last_clock();
		}
		uint64_t want = e1 - c.timer_start[t];
		sim_hash(v);
		if (v != want)
			sim_fail("result", "timer started at %llu ns read at %llu ns returned %llu instead of %llu", (unsigned long long)c.timer_start[t], (unsigned long long)e1, (unsigned long long)v, (unsigned long long)want);
		sim_probe("timer_checked");
		if (c.timer_start[t] % 1000000000ull > e1 % 1000000000ull)
			sim_probe("timer_second_wrap");
	}

	void run_ops(Client& c)
	{
		for (const Item* o : c.ops) {
			const std::string& n = o->name;
			if (n == "rt")
				op_rt(c, *o);
			else if (n == "destroy")
				op_destroy(c, *o);
			else if (n == "reset")
				op_reset(c, *o);
			else if (n == "cap")
				op_cap(c, *o);
			else if (n == "trunc")
				op_trunc(c, *o);
			else if (n == "dmg")
				op_dmg(c, *o);
			else if (n == "craft")
				op_craft(c, *o);
			else if (n == "grow")
				op_grow(c, *o);
			else if (n == "tl")
				op_tl(c, *o);
			else if (n == "cvx")
				op_cvx(c, *o);
			else if (n == "tick")
				op_tick(c, *o);
			else if (n == "tock")
				op_tock(c, *o);
			else if (n == "tdel")
				op_tdel(c, *o);
			else if (n == "yield")
				sim_yield();
			else
				sim_fail("plan", "unknown operation %s", n.c_str());
		}
		while (!c.ctx.empty())
			drop_ctx(c, c.ctx.begin()->first.first, c.ctx.begin()->first.second);
		while (!c.timers.empty()) {
			Item o;
			o.set("t", (uint64_t)c.timers.begin()->first);
			op_tdel(c, o);
		}
	}
	void client_main(void* p) { run_ops(*(Client*)p); }

	void run_codec()
	{
		size_t nc = g_plan->knob("clients", 1);
		std::vector<std::unique_ptr<Client>> cl;
		for (size_t i = 0; i < nc; ++i) {
			cl.emplace_back(new Client());
			cl.back()->idx = (int)i;
		}
		for (auto& o : g_plan->ops)
			cl[o.get("c") % nc]->ops.push_back(&o);
		if (g_plan->knob("inmain")) {
			run_ops(*cl[0]);
			return;
		}
		std::vector<int> t;
		for (auto& c : cl)
			t.push_back(sim_spawn(client_main, c.get()));
		for (int i : t)
			sim_join(i);
		// the same calls, made alone
		for (auto& f : g_alone) {
			Client c;
			Buf src = input(f->p);
			Buf dst(f->p.cap(g_api[0]) + f->p.pad);
			CRes r = do_compress(c, f->p, src, dst, f->p.simple ? nullptr : get_ctx(c, 0, 0, 0), 0);
			if (r.r != f->d.size() || memcmp(dst.p, f->d.data(), r.r) != 0)
				sim_fail("result", "a call made concurrently with others returned another frame than the same call made alone (%zu, alone %s): %s", f->d.size(), code(r.r), f->p.str().c_str());
			sim_probe("compared_with_call_alone");
			drop_ctx(c, 0, 0);
		}
	}
}

extern "C" __attribute__((visibility("default"))) void sut_entry(const Plan* p)
{
	g_plan = p;
	load_api(g_api[0], nullptr);
	g_napi = 1;
	if (p->knob("cvec"))
		run_cvec(p);
	else
		run_codec();
}
extern "C" __attribute__((visibility("default"))) void sut_multi(const Plan* p, void** h, int n)
{
	g_plan = p;
	for (int i = 0; i < n && i < 4; ++i)
		load_api(g_api[i], h[i]);
	g_napi = n;
	run_codec();
}
