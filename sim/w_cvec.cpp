// Simulated users of stenos::cvector: histories compared with a reference model (std::vector of values),
// element lifetimes tracked one by one, allocator and element faults, concurrent readers and visitors,
// serialization through faulty streams.
#define CVEC_INSERT_COUNT
#include "w_common.h"
#include "sim.h"
#include <stenos/cvector.hpp>
#include <algorithm>
#include <istream>
#include <list>
#include <memory>
#include <numeric>
#include <ostream>
#include <streambuf>
#include <string>
#include <vector>

#ifdef CVEC_CFG
#define NOTSAN __attribute__((no_sanitize("thread"), noinline))

namespace
{
	const Plan* P;

	struct Boom
	{
	};

	// ---- faults of one client -----------------------------------------------------------------
	struct Faults
	{
		int64_t alloc = 0, alloc_len = 1; // fail from the alloc-th allocation of the operation on (1 = first)
		int64_t thr = 0;		  // throw from the thr-th element operation
		bool alloc_fired = false, thr_fired = false;
	};
	Faults g_f[16];
	thread_local int t_client = 0;

	NOTSAN bool alloc_fault()
	{
		Faults& f = g_f[t_client];
		if (!f.alloc)
			return false;
		if (f.alloc > 1) {
			--f.alloc;
			return false;
		}
		if (--f.alloc_len <= 0)
			f.alloc = 0;
		f.alloc_fired = true;
		sim_fault("allocator_failure");
		return true;
	}
	NOTSAN bool elem_fault()
	{
		Faults& f = g_f[t_client];
		if (!f.thr)
			return false;
		if (--f.thr)
			return false;
		f.thr_fired = true;
		sim_fault("element_exception");
		return true;
	}

	// ---- allocator ----------------------------------------------------------------------------
	// memory obtained by the vectors: bytes, and blocks big enough for a decompressed chunk
	size_t g_big_min = ~(size_t)0, g_big, g_big_limit = ~(size_t)0, g_al_bytes;
	NOTSAN void count_alloc(size_t n, bool chunk, bool add)
	{
		if (!add) {
			g_al_bytes -= n;
			g_big -= chunk && n >= g_big_min;
			return;
		}
		g_al_bytes += n;
		g_big += chunk && n >= g_big_min;
		if (g_big > g_big_limit)
			sim_fail("memory_bound", "%zu decompressed chunks are kept, the accesses in progress and held references justify no more than %zu", g_big, g_big_limit);
	}
	NOTSAN size_t big() { return g_big; }
	NOTSAN size_t al_bytes() { return g_al_bytes; }
	NOTSAN void big_limit(size_t n) { g_big_limit = n; }

	template<class T>
	struct Al
	{
		using value_type = T;
		Al() noexcept {}
		template<class U>
		Al(const Al<U>&) noexcept
		{
		}
		T* allocate(size_t n)
		{
			if (alloc_fault())
				throw std::bad_alloc();
			T* p = (T*)::operator new(n * sizeof(T));
			count_alloc(n * sizeof(T), std::is_same<T, char>::value, true);
			return p;
		}
		void deallocate(T* p, size_t n) noexcept
		{
			if (p) {
				count_alloc(n * sizeof(T), std::is_same<T, char>::value, false);
				size_t s = sim_block_size(p);
				if (s != ~(size_t)0 && s != n * sizeof(T))
					sim_fail("memory", "a block of %zu bytes is given back to the allocator as %zu bytes", s, n * sizeof(T));
			}
			::operator delete(p);
		}
	};
	template<class T, class U>
	bool operator==(const Al<T>&, const Al<U>&)
	{
		return true;
	}
	template<class T, class U>
	bool operator!=(const Al<T>&, const Al<U>&)
	{
		return false;
	}

	// ---- element types ------------------------------------------------------------------------
	template<int N>
	struct Triv // trivial type of N bytes holding a value of min(N,8) bytes
	{
		uint8_t b[N];
	};
	// identity of each live element
	const uint32_t MAXID = 1u << 22;
	uint8_t g_state[MAXID]; // 0 never, 1 live, 2 destroyed
	uint32_t g_next;
	int64_t g_live;
	NOTSAN uint32_t new_id()
	{
		uint32_t id = ++g_next;
		if (id >= MAXID)
			sim_fail("plan", "too many elements");
		g_state[id] = 1;
		++g_live;
		return id;
	}
	NOTSAN void check_id(uint32_t id, const char* what)
	{
		if (id == 0 || id >= MAXID || g_state[id] == 0)
			sim_fail("lifetime", "%s an element that was never constructed", what);
		if (g_state[id] == 2)
			sim_fail("lifetime", "%s an element that was already destroyed", what);
	}
	NOTSAN void end_id(uint32_t id)
	{
		check_id(id, "destroying");
		g_state[id] = 2;
		--g_live;
	}
	NOTSAN int64_t live() { return g_live; }

	template<int PAD, bool COPY>
	struct Tracked
	{
		uint64_t v;
		uint32_t id;
		uint32_t chk;
		uint8_t pad[PAD];

		void put(uint64_t x)
		{
			v = x;
			seal();
		}
		void seal()
		{
			chk = (uint32_t)(v * 2654435761u) ^ (uint32_t)(v >> 32) ^ id;
			memset(pad, (int)(v & 7), PAD);
		}
		void check(const char* what) const
		{
			check_id(id, what);
			if (chk != ((uint32_t)(v * 2654435761u) ^ (uint32_t)(v >> 32) ^ id))
				sim_fail("content", "%s an element with inconsistent content", what);
			for (int i = 0; i < PAD; ++i)
				if (pad[i] != (uint8_t)(v & 7))
					sim_fail("content", "%s an element with inconsistent content", what);
		}
		Tracked()
		{
			if (elem_fault())
				throw Boom();
			id = new_id();
			put(0);
		}
		explicit Tracked(uint64_t x)
		{
			if (elem_fault())
				throw Boom();
			id = new_id();
			put(x);
		}
		Tracked(const Tracked& o)
		{
			static_assert(COPY, "copy of a move only element");
			o.check("copying from");
			if (&o == this)
				sim_fail("lifetime", "an element is constructed from its own storage");
			if (elem_fault())
				throw Boom();
			id = new_id();
			put(o.v);
		}
		Tracked(Tracked&& o) noexcept
		{
			o.check("moving from");
			if (&o == this)
				sim_fail("lifetime", "an element is constructed from its own storage");
			id = new_id();
			put(o.v);
			o.put(0);
		}
		Tracked& operator=(const Tracked& o)
		{
			static_assert(COPY, "copy of a move only element");
			check("assigning to");
			o.check("assigning from");
			bool fault = elem_fault();
			if (fault && (o.v & 1))
				throw Boom();
			if (this != &o) {
				// like a type that owns memory: the former content is gone
				end_id(id);
				id = new_id();
				put(o.v);
			}
			if (fault) // fails half way, the element keeps a new value
				throw Boom();
			return *this;
		}
		Tracked& operator=(Tracked&& o) noexcept
		{
			check("move assigning to");
			o.check("move assigning from");
			if (this != &o) {
				end_id(id);
				id = new_id();
				put(o.v);
				o.put(0);
			}
			return *this;
		}
		~Tracked()
		{
			check("destroying");
			end_id(id);
			id = 0;
		}
	};
	// move only variant: copy operations really deleted
	struct MoveOnly
	{
		Tracked<8, true> t;
		MoveOnly() {}
		explicit MoveOnly(uint64_t x)
		  : t(x)
		{
		}
		MoveOnly(MoveOnly&&) noexcept = default;
		MoveOnly& operator=(MoveOnly&&) noexcept = default;
		MoveOnly(const MoveOnly&) = delete;
		MoveOnly& operator=(const MoveOnly&) = delete;
	};

	template<class T>
	struct Val;
	template<int N>
	struct Val<Triv<N>>
	{
		static const bool trivial = true, copy = true;
		static uint64_t norm(uint64_t v) { return N >= 8 ? v : v & ((1ull << (8 * (N & 7))) - 1); }
		static Triv<N> mk(uint64_t v)
		{
			Triv<N> r;
			put(r, v);
			return r;
		}
		static uint64_t get(const Triv<N>& t)
		{
			uint64_t v = 0;
			memcpy(&v, t.b, N < 8 ? N : 8);
			for (int i = 8; i < N; ++i)
				if (t.b[i] != (uint8_t)((v >> (i & 7)) * 5))
					sim_fail("content", "an element with inconsistent content is read");
			return v;
		}
		static void put(Triv<N>& r, uint64_t v)
		{
			v = norm(v);
			memcpy(r.b, &v, N < 8 ? N : 8);
			for (int i = 8; i < N; ++i)
				r.b[i] = (uint8_t)((v >> (i & 7)) * 5);
		}
	};
	template<int PAD, bool C>
	struct Val<Tracked<PAD, C>>
	{
		using T = Tracked<PAD, C>;
		static const bool trivial = false, copy = true;
		static uint64_t norm(uint64_t v) { return v; }
		static T mk(uint64_t v) { return T(v); }
		static uint64_t get(const T& t)
		{
			t.check("reading");
			return t.v;
		}
		static void put(T& t, uint64_t v)
		{
			t.check("modifying");
			t.put(v);
		}
	};
	template<>
	struct Val<MoveOnly>
	{
		static const bool trivial = false, copy = false;
		static uint64_t norm(uint64_t v) { return v; }
		static MoveOnly mk(uint64_t v) { return MoveOnly(v); }
		static uint64_t get(const MoveOnly& t)
		{
			t.t.check("reading");
			return t.t.v;
		}
		static void put(MoveOnly& t, uint64_t v)
		{
			t.t.check("modifying");
			t.t.put(v);
		}
	};
#define CMP(TT, A)                                                                                                                                                                                     \
	A bool operator==(const TT& a, const TT& b) { return Val<TT>::get(a) == Val<TT>::get(b); }                                                                                                     \
	A bool operator!=(const TT& a, const TT& b) { return Val<TT>::get(a) != Val<TT>::get(b); }                                                                                                     \
	A bool operator<(const TT& a, const TT& b) { return Val<TT>::get(a) < Val<TT>::get(b); }                                                                                                       \
	A bool operator>(const TT& a, const TT& b) { return Val<TT>::get(a) > Val<TT>::get(b); }                                                                                                       \
	A bool operator<=(const TT& a, const TT& b) { return Val<TT>::get(a) <= Val<TT>::get(b); }                                                                                                     \
	A bool operator>=(const TT& a, const TT& b) { return Val<TT>::get(a) >= Val<TT>::get(b); }
#define COMMA ,
	CMP(Triv<N>, template<int N>)
	CMP(Tracked<PAD COMMA C>, template<int PAD COMMA bool C>)
	CMP(MoveOnly, )
}
namespace stenos
{
	template<int PAD, bool C>
	struct is_relocatable<Tracked<PAD, C>> : std::true_type
	{
	};
	template<>
	struct is_relocatable<MoveOnly> : std::true_type
	{
	};
}
namespace
{
	// ---- streams ------------------------------------------------------------------------------
	struct OutBuf : std::streambuf
	{
		std::string& s;
		size_t limit;
		bool seekable, thr;
		OutBuf(std::string& s, size_t limit, bool seekable, bool thr)
		  : s(s)
		  , limit(limit)
		  , seekable(seekable)
		  , thr(thr)
		{
		}
		std::streamsize xsputn(const char* p, std::streamsize n) override
		{
			size_t room = limit > s.size() ? limit - s.size() : 0;
			size_t k = (size_t)n < room ? (size_t)n : room;
			s.append(p, k);
			if (k < (size_t)n) {
				sim_fault("stream_write_failure");
				if (thr)
					throw Boom();
			}
			return (std::streamsize)k;
		}
		int overflow(int c) override
		{
			char x = (char)c;
			return xsputn(&x, 1) == 1 ? c : -1;
		}
		pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) override
		{
			if (!seekable)
				return pos_type(off_type(-1));
			if (d == std::ios_base::cur && off == 0)
				return pos_type((off_type)s.size());
			return pos_type(off_type(-1));
		}
	};
	struct InBuf : std::streambuf
	{
		std::string s;
		size_t chunk, fail_at;
		bool seekable, thr;
		size_t base = 0; // position of eback in s
		InBuf(std::string d, size_t chunk, size_t fail_at, bool seekable, bool thr)
		  : s(std::move(d))
		  , chunk(chunk ? chunk : 1)
		  , fail_at(fail_at)
		  , seekable(seekable)
		  , thr(thr)
		{
			setg(&s[0], &s[0], &s[0]);
		}
		int underflow() override
		{
			size_t pos = (size_t)(gptr() - &s[0]);
			size_t lim = fail_at < s.size() ? fail_at : s.size();
			if (pos >= lim) {
				if (fail_at < s.size())
					sim_fault("stream_read_failure");
				if (thr && fail_at < s.size())
					throw Boom();
				return -1;
			}
			size_t n = lim - pos < chunk ? lim - pos : chunk;
			setg(&s[0], &s[0] + pos, &s[0] + pos + n);
			return (unsigned char)*gptr();
		}
		pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) override
		{
			if (!seekable)
				return pos_type(off_type(-1));
			off_type p = d == std::ios_base::cur ? (off_type)(gptr() - &s[0]) + off : d == std::ios_base::beg ? off : (off_type)s.size() + off;
			if (p < 0 || p > (off_type)s.size())
				return pos_type(off_type(-1));
			setg(&s[0], &s[0] + p, &s[0] + p);
			return pos_type(p);
		}
		pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff((off_type)p, std::ios_base::beg, m); }
	};

	template<class T>
	struct InIt // input iterator over mk(value)
	{
		using iterator_category = std::input_iterator_tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = const T*;
		using reference = T;
		const uint64_t* p;
		T operator*() const { return Val<T>::mk(*p); }
		InIt& operator++()
		{
			++p;
			return *this;
		}
		InIt operator++(int)
		{
			InIt r = *this;
			++p;
			return r;
		}
		bool operator==(const InIt& o) const { return p == o.p; }
		bool operator!=(const InIt& o) const { return p != o.p; }
	};

	struct Enter
	{
		Enter(uint64_t op) { sim_enter((int)op); }
		~Enter() { sim_leave(); }
	};

	uint64_t value(uint64_t vk, uint64_t x)
	{
		switch (vk) {
			case 0: return x & 3;
			case 1: return x;
			case 2: return mix64(x, 77);
			case 3: return 42;
			default: return (x >> 8) & 1 ? mix64(x, 78) : x >> 4;
		}
	}

	template<class T, unsigned BS, int LV>
	struct Env
	{
		using V = stenos::cvector<T, BS, LV, Al<T>>;
		using VT = Val<T>;
		using Ref = typename V::ref_type;
		using CRef = typename V::const_ref_type;
		using It = typename V::iterator;
		using CIt = typename V::const_iterator;
		static const size_t B = 256u << BS;
		static const int NS = 3;

		struct Hold
		{
			int s;
			size_t i;
			int kind; // 0 const wrapper, 1 wrapper, 2 const iterator, 3 iterator
			std::unique_ptr<CRef> c;
			std::unique_ptr<Ref> r;
			std::unique_ptr<CIt> ci;
			std::unique_ptr<It> it;
			const T* p = nullptr; // address seen
		};

		std::unique_ptr<V> v[NS];
		std::vector<uint64_t> m[NS];
		std::vector<Hold> holds;
		uint64_t vk = 1;
		const Item* cur = nullptr;

		// ---- one call ---------------------------------------------------------------------
		template<class F>
		int call(const Item& o, F f)
		{
			Faults& fl = g_f[t_client];
			fl = Faults();
			fl.alloc = (int64_t)o.get("fa");
			fl.alloc_len = (int64_t)o.get("fl", 1);
			fl.thr = (int64_t)o.get("ft");
			int st = 0;
			{
				Enter e(o.get("id"));
				try {
					f();
				}
				catch (Boom&) {
					st = 1;
				}
				catch (std::bad_alloc&) {
					st = 2;
				}
				catch (std::out_of_range&) {
					st = 3;
				}
			}
			bool af = fl.alloc_fired, tf = fl.thr_fired;
			fl = Faults();
			if (st == 2 && !af)
				sim_fail("exception", "%s reports lack of memory without a failed allocation", o.name.c_str());
			if (st == 1 && !tf)
				sim_fail("exception", "%s throws an element's exception without cause", o.name.c_str());
			if (st == 3)
				sim_fail("exception", "%s throws out_of_range", o.name.c_str());
			if (st)
				sim_probe(st == 1 ? "op_failed_by_element_exception" : "op_failed_by_lack_of_memory");
			sim_hash((uint64_t)st);
			return st;
		}
		template<class F>
		void quiet(F f) // without faults
		{
			Enter e(0);
			f();
		}

		// ---- checks -----------------------------------------------------------------------
		void diff(int s, size_t i, uint64_t got)
		{
			sim_fail("content", "after %s element %zu of %zu is %llu instead of %llu", cur ? cur->name.c_str() : "start", i, m[s].size(), (unsigned long long)got, (unsigned long long)m[s][i]);
		}
		void one(int s, size_t i, const T& t)
		{
			uint64_t g = VT::get(t);
			if (g != m[s][i])
				diff(s, i, g);
		}
		void check_size(int s)
		{
			if (v[s]->size() != m[s].size())
				sim_fail("size", "after %s the size is %zu instead of %zu", cur ? cur->name.c_str() : "start", v[s]->size(), m[s].size());
			if (v[s]->empty() != m[s].empty())
				sim_fail("size", "empty() is wrong after %s", cur ? cur->name.c_str() : "start");
		}
		void check_live()
		{
			if (VT::trivial)
				return;
			int64_t want = 0;
			for (int s = 0; s < NS; ++s)
				want += (int64_t)m[s].size();
			if (live() != want)
				sim_fail("lifetime", "after %s %lld elements are alive, the vectors hold %lld", cur ? cur->name.c_str() : "start", (long long)live(), (long long)want);
		}
		void check_all(int s, uint64_t mode)
		{
			check_size(s);
			size_t n = m[s].size();
			V& w = *v[s];
			const V& c = w;
			quiet([&] {
				switch (mode % 9) {
					case 0:
						for (size_t i = 0; i < n; ++i)
							one(s, i, c[i]);
						break;
					case 1: {
						size_t i = 0;
						for (auto it = c.begin(); it != c.end(); ++it, ++i)
							one(s, i, (*it).get());
						if (i != n)
							sim_fail("content", "iteration visits %zu of %zu elements", i, n);
					} break;
					case 2: {
						size_t i = n;
						for (auto it = c.rbegin(); it != c.rend(); ++it)
							one(s, --i, (*it).get());
						if (i)
							sim_fail("content", "reverse iteration visits %zu of %zu elements", n - i, n);
					} break;
					case 3: {
						size_t i = 0;
						size_t r = c.for_each(0, n, [&](const T& t) { one(s, i++, t); });
						if (r != n || i != n)
							sim_fail("content", "for_each visits %zu, reports %zu of %zu elements", i, r, n);
					} break;
					case 4: {
						size_t i = n;
						size_t r = c.for_each_backward(0, n, [&](const T& t) { one(s, --i, t); });
						if (r != n || i)
							sim_fail("content", "for_each_backward visits %zu, reports %zu of %zu elements", n - i, r, n);
					} break;
					case 5: {
						size_t i = 0;
						for (auto it = w.begin(); it != w.end(); it++, ++i)
							one(s, i, (*it).get());
					} break;
					case 6:
						for (size_t k = 0; k < n; ++k) { // strided
							size_t i = (k * 101 + 7) % n;
							one(s, i, w.at(i).get());
						}
						if (n) {
							one(s, 0, w.front().get());
							one(s, n - 1, w.back().get());
						}
						break;
					case 7: {
						size_t i = n;
						for (auto it = c.end(); it != c.begin();) {
							--it;
							one(s, --i, *it.operator->());
						}
					} break;
					default: {
						auto it = c.cbegin();
						for (size_t k = 0; k < n; ++k) {
							size_t i = (k * 67 + 3) % n;
							one(s, i, it[(std::ptrdiff_t)i].get());
							one(s, i, (*(it + (std::ptrdiff_t)i)).get());
						}
					} break;
				}
			});
			check_live();
		}
		// after an operation that failed: take over what the vector holds now
		void resync(int s)
		{
			size_t n = v[s]->size();
			m[s].clear();
			m[s].reserve(n);
			quiet([&] {
				const V& c = *v[s];
				for (size_t i = 0; i < n; ++i)
					m[s].push_back(VT::get(c[i]));
			});
			sim_probe("vector_checked_after_failure");
			check_live();
		}
		void check_holds(bool deref, bool moved)
		{
			for (auto& h : holds) {
				if (moved)
					h.p = nullptr;
				if (!deref && (h.i & 3))
					continue;
				quiet([&] {
					const T* t = h.kind == 0 ? &h.c->get() : h.kind == 1 ? &h.r->get() : h.kind == 2 ? &(**h.ci).get() : &(**h.it).get();
					one(h.s, h.i, *t);
					// the decompressed chunk of a held reference is not taken away by accesses
					if (h.p && h.p != t && !moved)
						sim_fail("content", "a held reference to element %zu moved in memory during %s", h.i, cur->name.c_str());
					h.p = t;
				});
				sim_probe("held_reference_checked");
			}
		}
		void drop_holds(int s)
		{
			for (size_t k = holds.size(); k-- > 0;)
				if (holds[k].s == s)
					holds.erase(holds.begin() + (std::ptrdiff_t)k);
		}

		// ---- operations -------------------------------------------------------------------
		static size_t below(uint64_t a, size_t n) { return n ? (size_t)(a % n) : 0; }
		std::vector<uint64_t> vals(uint64_t x, size_t n)
		{
			std::vector<uint64_t> r;
			for (size_t i = 0; i < n; ++i)
				r.push_back(VT::norm(value(vk, x + i)));
			return r;
		}
		std::vector<T> elems(const std::vector<uint64_t>& x)
		{
			std::vector<T> r;
			r.reserve(x.size());
			for (uint64_t y : x)
				r.push_back(VT::mk(y));
			return r;
		}
		// strong: unchanged on failure
		void fin(int s, int st, bool strong, uint64_t chk, const std::vector<uint64_t>& want)
		{
			if (!st) {
				m[s] = want;
				check_size(s);
			}
			else if (strong) {
				check_size(s);
				check_all(s, chk);
				sim_probe("strong_guarantee_checked");
				return;
			}
			else
				resync(s);
			if (chk)
				check_all(s, chk);
		}

		void op(const Item& o)
		{
			cur = &o;
			const std::string& n = o.name;
			int s = (int)(o.get("s") % NS);
			uint64_t a = o.get("a"), b = o.get("b"), x = o.get("x"), cnt = o.get("n"), chk = o.get("chk");
			V& w = *v[s];
			size_t sz = m[s].size();
			uint64_t nv = VT::norm(value(vk, x));
			std::vector<uint64_t> want;
			bool inplace = n == "wr" || n == "wrr" || n == "mvr" || n == "swr" || n == "sort" || n == "rev" || n == "rot" || n == "fe" || n == "feb" || n == "cfe" || n == "cfb" || n == "stf" || n == "hold" || n == "hw" || n == "drop" ||
				       n == "rd" || n == "alg" || n == "mf" || n == "it" || n == "fill";
			if (!inplace)
				drop_holds(s);
			sim_note("%s slot=%d size=%zu", n.c_str(), s, sz);
			if (memck) {
				if (holds.size() > maxholds)
					maxholds = holds.size();
				big_limit(maxholds + 8);
			}

			if (n == "pb") { // append cnt values one by one
				for (uint64_t k = 0; k < (cnt ? cnt : 1); ++k) {
					uint64_t y = VT::norm(value(vk, x + k));
					int st;
					if (a % 4 == 0)
						st = call(o, [&] { w.push_back(VT::mk(y)); });
					else if (a % 4 == 1) {
						T t = VT::mk(y);
						st = call(o, [&] { w.push_back(std::move(t)); });
					}
					else if (a % 4 == 2) {
						st = call(o, [&] {
							uint64_t g = VT::get(emplace(w, y).get());
							if (g != y)
								sim_fail("content", "emplace_back returns a reference to %llu instead of %llu", (unsigned long long)g, (unsigned long long)y);
						});
					}
					else
						st = pushc(o, w, y);
					if (st) {
						check_live();
						fin(s, st, true, chk, want);
						return;
					}
					m[s].push_back(y);
					check_size(s);
				}
				if (chk)
					check_all(s, chk);
			}
			else if (n == "pbs") { // append a copy of an own element
				if (!sz)
					return;
				size_t i = below(a, sz);
				want = m[s];
				want.push_back(m[s][i]);
				int st = push_self(o, w, i);
				if (st >= 0)
					fin(s, st, true, chk, want);
			}
			else if (n == "pop") {
				for (uint64_t k = 0; k < (cnt ? cnt : 1) && m[s].size(); ++k) {
					int st = call(o, [&] { w.pop_back(); });
					if (st) {
						fin(s, st, true, chk, want);
						return;
					}
					m[s].pop_back();
					check_size(s);
				}
				if (chk)
					check_all(s, chk);
			}
			else if (n == "ins") {
				size_t i = below(a, sz + 1);
				want = m[s];
				want.insert(want.begin() + (std::ptrdiff_t)i, nv);
				fin(s, insert1(o, w, i, nv, b), false, chk, want);
			}
			else if (n == "insr")
				ins_range(o, s);
			else if (n == "er") {
				if (!sz)
					return;
				size_t i = below(a, sz);
				want = m[s];
				want.erase(want.begin() + (std::ptrdiff_t)i);
				int st = call(o, [&] {
					auto it = w.erase(w.begin() + (std::ptrdiff_t)i);
					if (it - w.begin() != (std::ptrdiff_t)i)
						sim_fail("content", "erase returns a wrong position");
				});
				fin(s, st, false, chk, want);
			}
			else if (n == "err") {
				if (!sz)
					return;
				size_t i = below(a, sz + 1), k = below(b, sz - i + 1);
				if (cnt && k > cnt)
					k = (size_t)cnt;
				want = m[s];
				want.erase(want.begin() + (std::ptrdiff_t)i, want.begin() + (std::ptrdiff_t)(i + k));
				int st = call(o, [&] {
					auto it = w.erase(w.begin() + (std::ptrdiff_t)i, w.begin() + (std::ptrdiff_t)(i + k));
					if (it - w.begin() != (std::ptrdiff_t)i)
						sim_fail("content", "erase of a range returns a wrong position");
				});
				fin(s, st, false, chk, want);
			}
			else if (n == "rs" || n == "rsv") {
				size_t k = (size_t)cnt;
				want = m[s];
				if (n == "rs") {
					want.resize(k, 0);
					fin(s, resize0(o, w, k, want, sz), false, chk, want);
				}
				else {
					want.resize(k, nv);
					int st = resizev(o, w, k, nv);
					if (st >= 0)
						fin(s, st, false, chk, want);
				}
			}
			else if (n == "as")
				assign(o, s);
			else if (n == "clr") {
				int st = call(o, [&] { w.clear(); });
				fin(s, st, false, chk, want);
			}
			else if (n == "stf") {
				want = m[s];
				int st = call(o, [&] { w.shrink_to_fit(); });
				fin(s, st, true, chk, want);
			}
			else if (n == "wr") {
				if (!sz)
					return;
				size_t i = below(a, sz);
				want = m[s];
				want[i] = nv;
				std::unique_ptr<T> pt(new T(VT::mk(nv)));
				T& t = *pt;
				int st = call(o, [&] {
					switch (b % 5) {
						case 0: w[i] = std::move(t); break;
						case 1: w.at(i).set(std::move(t)); break;
						case 2: *(w.begin() + (std::ptrdiff_t)i) = std::move(t); break;
						case 3: wcopy(w, i, t); break;
						default: w.begin()[(std::ptrdiff_t)i] = std::move(t); break;
					}
				});
				pt.reset();
				fin1(s, st, i, nv, chk);
			}
			else if (n == "wrr" || n == "mvr") {
				if (!sz)
					return;
				size_t i = below(a, sz), j = below(b, sz);
				want = m[s];
				int st;
				if (n == "wrr" && VT::copy) {
					want[i] = m[s][j];
					st = copy_elem(o, w, i, j);
				}
				else {
					// self move leaves the element as it is
					if (i != j) {
						want[i] = m[s][j];
						if (!VT::trivial)
							want[j] = 0;
					}
					st = call(o, [&] {
						if (i != j)
							w[i] = std::move(w[j].move());
					});
				}
				fin(s, st, false, chk, want);
			}
			else if (n == "swr") {
				if (!sz)
					return;
				size_t i = below(a, sz), j = below(b, sz);
				want = m[s];
				std::swap(want[i], want[j]);
				int st = call(o, [&] {
					if (x & 1)
						std::iter_swap(w.begin() + (std::ptrdiff_t)i, w.begin() + (std::ptrdiff_t)j);
					else if (x & 2) {
						auto p = w[i];
						auto q = w[j];
						swap(p, q);
					}
					else
						swap(w[i], w[j]);
				});
				fin(s, st, false, chk, want);
			}
			else if (n == "fill") {
				if (!VT::copy)
					return;
				size_t i = below(a, sz + 1), k = below(b, sz - i + 1);
				want = m[s];
				std::fill(want.begin() + (std::ptrdiff_t)i, want.begin() + (std::ptrdiff_t)(i + k), nv);
				int st = fill_range(o, w, i, k, nv);
				fin(s, st, false, chk, want);
			}
			else if (n == "sort" || n == "rev" || n == "rot") {
				size_t i = below(a, sz + 1), k = below(b, sz - i + 1);
				if (cnt && k > cnt)
					k = (size_t)cnt;
				want = m[s];
				auto f = want.begin() + (std::ptrdiff_t)i, l = f + (std::ptrdiff_t)k;
				size_t mid = below(x, k + 1);
				if (n == "sort")
					std::sort(f, l);
				else if (n == "rev")
					std::reverse(f, l);
				else
					std::rotate(f, f + (std::ptrdiff_t)mid, l);
				int st = call(o, [&] {
					auto wf = w.begin() + (std::ptrdiff_t)i, wl = w.begin() + (std::ptrdiff_t)(i + k);
					if (n == "sort")
						std::sort(wf, wl);
					else if (n == "rev")
						std::reverse(wf, wl);
					else
						std::rotate(wf, wf + (std::ptrdiff_t)mid, wl);
				});
				// equal values are indistinguishable, so sorting has one result
				fin(s, st, false, chk, want);
			}
			else if (n == "fe" || n == "feb" || n == "cfe" || n == "cfb")
				visit(o, s);
			else if (n == "rd") {
				if (!sz)
					return;
				for (uint64_t k = 0; k < (cnt ? cnt : 1); ++k) {
					size_t i = below(mix64(a, k), sz);
					int st = call(o, [&] {
						const V& c = w;
						one(s, i, k & 1 ? c[i].get() : w[i].get());
					});
					if (st) {
						check_all(s, chk);
						return;
					}
				}
				bool thrown = false;
				quiet([&] {
					try {
						(void)w.at(sz + (b & 1023));
					}
					catch (std::out_of_range&) {
						thrown = true;
					}
				});
				if (!thrown)
					sim_fail("content", "at() accepts an index beyond the size");
			}
			else if (n == "alg") {
				quiet([&] {
					const V& c = w;
					uint64_t sum = 0, ws = 0;
					size_t i = below(a, sz + 1), k = below(b, sz - i + 1);
					auto f = c.begin() + (std::ptrdiff_t)i, l = c.begin() + (std::ptrdiff_t)(i + k);
					for (auto it = f; it != l; ++it)
						sum += VT::get((*it).get());
					for (size_t q = i; q < i + k; ++q)
						ws += m[s][q];
					if (sum != ws)
						sim_fail("content", "sum over a range is wrong");
					auto cntg = std::count_if(f, l, [&](const T& t) { return VT::get(t) == nv; });
					auto cntw = std::count(m[s].begin() + (std::ptrdiff_t)i, m[s].begin() + (std::ptrdiff_t)(i + k), nv);
					if (cntg != cntw)
						sim_fail("content", "count over a range is wrong");
					if ((size_t)(l - f) != k || (f < l) != (k > 0) || (f == l) != (k == 0))
						sim_fail("content", "iterator arithmetic is wrong");
				});
			}
			else if (n == "it") {
				if (!sz)
					return;
				size_t i = below(a, sz);
				int st = call(o, [&] { walk(w, s, i, x, cnt); });
				if (st)
					check_all(s, chk);
			}
			else if (n == "mf") {
				quiet([&] {
					size_t f = w.memory_footprint();
					if (f == 0 && sz)
						sim_fail("content", "memory_footprint() is 0 for a vector with content");
					float r = w.current_compression_ratio();
					if (sz && !(r > 0))
						sim_fail("content", "current_compression_ratio() is not positive");
				});
			}
			else if (n == "hold") {
				if (!sz || holds.size() >= 12)
					return;
				Hold h;
				h.s = s;
				h.i = below(a, sz);
				h.kind = (int)(b % 4);
				quiet([&] {
					const V& c = w;
					if (h.kind == 0)
						h.c.reset(new CRef(c[h.i]));
					else if (h.kind == 1)
						h.r.reset(new Ref(w[h.i]));
					else if (h.kind == 2) {
						h.ci.reset(new CIt(c.begin() + (std::ptrdiff_t)h.i));
						if (x & 1)
							(void)**h.ci;
					}
					else {
						h.it.reset(new It(w.begin() + (std::ptrdiff_t)h.i));
						if (x & 1)
							(void)**h.it;
					}
				});
				holds.push_back(std::move(h));
			}
			else if (n == "drop") {
				if (!holds.empty())
					holds.erase(holds.begin() + (std::ptrdiff_t)below(a, holds.size()));
			}
			else if (n == "hw") { // write through a held reference
				std::vector<size_t> c;
				for (size_t k = 0; k < holds.size(); ++k)
					if (holds[k].kind & 1)
						c.push_back(k);
				if (c.empty())
					return;
				Hold& h = holds[c[below(a, c.size())]];
				std::unique_ptr<T> pt(new T(VT::mk(nv)));
				T& t = *pt;
				int st = call(o, [&] {
					if (h.kind == 1)
						*h.r = std::move(t);
					else
						**h.it = std::move(t);
				});
				pt.reset();
				fin1(h.s, st, h.i, nv, chk);
			}
			else if (n == "ctor" || n == "cpc" || n == "cpa" || n == "mvc" || n == "mva" || n == "swp")
				special(o, s);
			else if (n == "ser" || n == "des")
				serial(o, s);
			else
				sim_fail("plan", "unknown operation %s", n.c_str());
			check_live();
			check_holds(chk != 0, n == "stf" || n == "ser" || n == "des");
		}
		void fin1(int s, int st, size_t i, uint64_t nv, uint64_t chk)
		{
			if (!st)
				m[s][i] = nv;
			else
				resync_same_size(s);
			if (chk)
				check_all(s, chk);
		}
		void resync_same_size(int s)
		{
			size_t n = m[s].size();
			resync(s);
			if (m[s].size() != n)
				sim_fail("size", "a failed %s changed the size from %zu to %zu", cur->name.c_str(), n, m[s].size());
		}

		// operations that need copies
		template<class W>
		static auto emplace_impl(W& w, uint64_t y, std::true_type) -> Ref
		{
			return w.emplace_back(VT::mk(y));
		}
		template<class W>
		static auto emplace_impl(W& w, uint64_t y, std::false_type) -> Ref
		{
			return w.emplace_back(y);
		}
		static Ref emplace(V& w, uint64_t y) { return emplace_impl(w, y, std::integral_constant<bool, VT::trivial>()); }
		int pushc(const Item& o, V& w, uint64_t y)
		{
			T t = VT::mk(y);
			if constexpr (VT::copy) {
				return call(o, [&] { w.push_back(t); });
			}
			else
				return call(o, [&] { w.push_back(std::move(t)); });
		}
		int push_self(const Item& o, V& w, size_t i)
		{
			if constexpr (VT::copy) {
				if (o.get("b") & 1)
					return call(o, [&] { w.push_back(w[i]); });
				return call(o, [&] { w.push_back(w.at(i).get()); });
			}
			return -1;
		}
		int insert1(const Item& o, V& w, size_t i, uint64_t nv, uint64_t b)
		{
			T t = VT::mk(nv);
			auto chk = [&](It it) {
				if (it - w.begin() != (std::ptrdiff_t)i)
					sim_fail("content", "insert returns position %lld instead of %zu", (long long)(it - w.begin()), i);
				uint64_t g = VT::get((*it).get());
				if (g != nv)
					sim_fail("content", "insert returns an iterator to %llu instead of %llu", (unsigned long long)g, (unsigned long long)nv);
			};
			if constexpr (VT::copy) {
				if (b % 3 == 0)
					return call(o, [&] { chk(w.insert(w.begin() + (std::ptrdiff_t)i, t)); });
			}
			if (b % 3 == 1)
				return call(o, [&] { chk(w.emplace(w.cbegin() + (std::ptrdiff_t)i, std::move(t))); });
			return call(o, [&] { chk(w.insert(w.cbegin() + (std::ptrdiff_t)i, std::move(t))); });
		}
		void ins_range(const Item& o, int s)
		{
			if constexpr (VT::copy) {
				V& w = *v[s];
				size_t i = below(o.get("a"), m[s].size() + 1), n = (size_t)o.get("n");
				std::vector<uint64_t> x = vals(o.get("x"), n);
				uint64_t b = o.get("b") % 5;
				if (b == 2 || b == 3)
					for (auto& y : x)
						y = x[0];
				if (b == 4)
					x = vals(o.get("x"), 3);
				std::vector<uint64_t> want = m[s];
				want.insert(want.begin() + (std::ptrdiff_t)i, x.begin(), x.end());
				std::vector<T> e = elems(x);
				int st;
				auto pos = [&] { return w.cbegin() + (std::ptrdiff_t)i; };
				auto chk = [&](It it) {
					if (it - w.begin() != (std::ptrdiff_t)i)
						sim_fail("content", "insert of a range returns position %lld instead of %zu", (long long)(it - w.begin()), i);
				};
				if (b == 0)
					st = call(o, [&] { chk(w.insert(pos(), e.begin(), e.end())); });
				else if (b == 1)
					st = call(o, [&] { chk(w.insert(pos(), InIt<T>{ x.data() }, InIt<T>{ x.data() + x.size() })); });
				else if (b == 2 && n)
					st = call(o, [&] { chk(w.insert(pos(), n, e[0])); });
				else if (b == 3 && n)
					st = call(o, [&] { ins_count(w, i, n, e[0]); });
				else if (b == 4)
					st = call(o, [&] { chk(w.insert(pos(), { e[0], e[1], e[2] })); });
				else
					st = call(o, [&] { chk(w.insert(pos(), e.begin(), e.end())); });
				e.clear();
				e.shrink_to_fit();
				fin(s, st, false, o.get("chk"), want);
			}
		}
#ifdef CVEC_INSERT_COUNT
		void ins_count(V& w, size_t i, size_t n, const T& t) { w.insert(i, n, t); }
#else
		void ins_count(V& w, size_t i, size_t n, const T& t) { w.insert(w.cbegin() + (std::ptrdiff_t)i, n, t); }
#endif
		int resize0(const Item& o, V& w, size_t k, std::vector<uint64_t>& want, size_t sz)
		{
			// default inserted trivial elements: value initialised by emplace_back, unspecified inside
			// bulk chunks (default initialised): write them afterwards
			int st = call(o, [&] { w.resize(k); });
			if (!st && VT::trivial && k > sz)
				quiet([&] {
					w.for_each(sz, k, [](T& t) { VT::put(t, 0); });
				});
			return st;
		}
		int resizev(const Item& o, V& w, size_t k, uint64_t nv)
		{
			if constexpr (VT::copy) {
				T t = VT::mk(nv);
				return call(o, [&] { w.resize(k, t); });
			}
			return -1;
		}
		void wcopy(V& w, size_t i, T& t)
		{
			if constexpr (VT::copy) {
				w[i] = (const T&)t;
			}
			else
				w[i] = std::move(t);
		}
		int copy_elem(const Item& o, V& w, size_t i, size_t j)
		{
			if constexpr (VT::copy) {
				return call(o, [&] {
					if (o.get("x") & 1)
						w[i] = w[j].get();
					else {
						const V& c = w;
						auto r = w[i];
						r = c[j];
					}
				});
			}
			return 0;
		}
		int fill_range(const Item& o, V& w, size_t i, size_t k, uint64_t nv)
		{
			if constexpr (VT::copy) {
				T t = VT::mk(nv);
				return call(o, [&] { std::fill(w.begin() + (std::ptrdiff_t)i, w.begin() + (std::ptrdiff_t)(i + k), t); });
			}
			return 0;
		}
		void assign(const Item& o, int s)
		{
			if constexpr (VT::copy) {
				V& w = *v[s];
				size_t n = (size_t)o.get("n");
				std::vector<uint64_t> x = vals(o.get("x"), n);
				uint64_t b = o.get("b") % 4;
				if (b == 2)
					for (auto& y : x)
						y = x[0];
				if (b == 3)
					x = vals(o.get("x"), 3);
				std::vector<T> e = elems(x);
				int st;
				if (b == 0)
					st = call(o, [&] { w.assign(e.begin(), e.end()); });
				else if (b == 1)
					st = call(o, [&] { w.assign(InIt<T>{ x.data() }, InIt<T>{ x.data() + x.size() }); });
				else if (b == 2 && n)
					st = call(o, [&] { w.assign(n, e[0]); });
				else if (b == 3)
					st = call(o, [&] { w.assign({ e[0], e[1], e[2] }); });
				else
					st = call(o, [&] { w.assign(e.begin(), e.end()); });
				e.clear();
				e.shrink_to_fit();
				fin(s, st, false, o.get("chk"), x);
			}
		}
		void walk(V& w, int s, size_t i, uint64_t x, uint64_t steps)
		{
			const V& c = w;
			size_t sz = m[s].size();
			CIt it = c.begin() + (std::ptrdiff_t)i;
			Rng r(x + 1);
			for (uint64_t k = 0; k < steps; ++k) {
				size_t j = i;
				switch (r.below(8)) {
					case 0:
						if (i + 1 < sz) {
							++it;
							++i;
						}
						break;
					case 1:
						if (i) {
							--it;
							--i;
						}
						break;
					case 2:
						j = r.below(sz);
						it += (std::ptrdiff_t)j - (std::ptrdiff_t)i;
						i = j;
						break;
					case 3:
						j = r.below(sz);
						it -= (std::ptrdiff_t)i - (std::ptrdiff_t)j;
						i = j;
						break;
					case 4: {
						j = r.below(sz);
						one(s, j, it[(std::ptrdiff_t)j - (std::ptrdiff_t)i].get());
					} break;
					case 5: {
						CIt q = it;
						CIt z;
						z = q;
						if (!(z == it) || z - it != 0)
							sim_fail("content", "a copied iterator differs");
						if (i + 1 < sz) {
							if (it++ != q)
								sim_fail("content", "post increment returns a wrong iterator");
							++i;
						}
					} break;
					case 6:
						if (i) {
							CIt q = it--;
							--i;
							if (q - it != 1 || !(it < q) || !(q > it) || !(it <= q) || !(q >= it))
								sim_fail("content", "iterator comparison is wrong");
						}
						break;
					default: break;
				}
				if (it - c.begin() != (std::ptrdiff_t)i)
					sim_fail("content", "iterator position is wrong");
				if (r.chance(3, 4))
					one(s, i, (*it).get());
			}
		}
		void visit(const Item& o, int s)
		{
			V& w = *v[s];
			const V& c = w;
			size_t sz = m[s].size();
			const std::string& n = o.name;
			size_t i = below(o.get("a"), sz + 1), k = below(o.get("b"), sz - i + 1);
			if (o.get("n") && k > o.get("n"))
				k = (size_t)o.get("n");
			bool back = n == "feb" || n == "cfb", mut = n == "fe" || n == "feb";
			if (mut) // for_each excludes all other users of a block: holding a reference there is a deadlock
				for (size_t q = holds.size(); q-- > 0;)
					if (k && holds[q].s == s && holds[q].i / B >= i / B && holds[q].i / B <= (i + k - 1) / B)
						holds.erase(holds.begin() + (std::ptrdiff_t)q);
			uint64_t stop = o.get("stop"), x = o.get("x"); // stop: 1-based visit that returns false; thr: that throws
			uint64_t thr = o.get("thr");
			std::vector<uint64_t> want = m[s];
			size_t visits = 0, r = 0;
			bool boom = false;
			auto f = [&](size_t pos, const T& t) -> bool {
				size_t idx = back ? i + k - 1 - pos : i + pos;
				if (pos >= k)
					sim_fail("content", "%s visits more than %zu elements", n.c_str(), k);
				one(s, idx, t);
				return true;
			};
			int st = call(o, [&] {
				try {
					auto fm = [&](T& t) -> bool {
						f(visits, t);
						size_t idx = back ? i + k - 1 - visits : i + visits;
						++visits;
						uint64_t y = VT::norm(value(vk, x + visits));
						want[idx] = y;
						VT::put(t, y);
						if (thr && visits == thr)
							throw 7;
						return !(stop && visits == stop);
					};
					auto fc = [&](const T& t) -> bool {
						f(visits, t);
						++visits;
						if (thr && visits == thr)
							throw 7;
						return !(stop && visits == stop);
					};
					auto fv = [&](const T& t) {
						f(visits, t);
						++visits;
					};
					if (n == "fe")
						r = w.for_each(i, i + k, fm);
					else if (n == "feb")
						r = w.for_each_backward(i, i + k, fm);
					else if (n == "cfe") {
						if (stop || thr)
							r = w.const_for_each(i, i + k, fc);
						else
							r = c.for_each(i, i + k, fv);
					}
					else if (stop || thr)
						r = w.const_for_each_backward(i, i + k, fc);
					else
						r = c.for_each_backward(i, i + k, fv);
				}
				catch (int) {
					boom = true;
				}
			});
			m[s] = want;
			if (boom)
				sim_fault("visitor_exception");
			if (!st && !boom) {
				size_t ev = stop && stop <= k ? (size_t)stop : k, er = stop && stop <= k ? (size_t)stop - 1 : k;
				if (visits != ev || r != er)
					sim_fail("content", "%s over %zu elements visits %zu and reports %zu (stopping at %llu)", n.c_str(), k, visits, r, (unsigned long long)stop);
				if (stop && stop <= k)
					sim_probe("visitor_stopped");
			}
			if (o.get("chk"))
				check_all(s, o.get("chk"));
		}
		void special(const Item& o, int s)
		{
			const std::string& n = o.name;
			int d = (int)(o.get("d") % NS);
			uint64_t b = o.get("b"), chk = o.get("chk");
			drop_holds(d);
			if (n == "ctor") {
				size_t k = (size_t)o.get("n");
				std::vector<uint64_t> x = vals(o.get("x"), k);
				std::unique_ptr<V> nw;
				int st = -1;
				if (b % 5 == 1) {
					st = call(o, [&] { nw.reset(new V(k)); });
					for (auto& y : x)
						y = 0;
					if (!st && VT::trivial)
						quiet([&] { nw->for_each(0, k, [](T& t) { VT::put(t, 0); }); });
				}
				else if (b % 5 == 0) {
					x.clear();
					st = call(o, [&] { nw.reset(o.get("x") & 1 ? new V() : new V(Al<T>())); });
				}
				else if constexpr (VT::copy) {
					std::vector<T> e = elems(x);
					if (b % 5 == 2 && k) {
						for (auto& y : x)
							y = x[0];
						st = call(o, [&] { nw.reset(new V(k, e[0])); });
					}
					else if (b % 5 == 3)
						st = call(o, [&] { nw.reset(new V(InIt<T>{ x.data() }, InIt<T>{ x.data() + x.size() })); });
					else
						st = call(o, [&] { nw.reset(new V(e.begin(), e.end())); });
				}
				if (st == 0) {
					quiet([&] { std::swap(v[s], nw); nw.reset(); });
					m[s] = x;
				}
				else if (st > 0)
					sim_probe("constructor_failed");
				check_size(s);
				if (chk)
					check_all(s, chk);
				return;
			}
			if (n == "cpc" || n == "cpa") {
				if constexpr (VT::copy) {
					if (n == "cpc") {
						std::unique_ptr<V> nw;
						int st = call(o, [&] { nw.reset(new V(*v[s])); });
						if (!st) {
							quiet([&] { std::swap(v[d], nw); nw.reset(); });
							m[d] = std::vector<uint64_t>(m[s]);
						}
						else
							sim_probe("constructor_failed");
					}
					else {
						int st = call(o, [&] { *v[d] = *(const V*)v[s].get(); });
						if (!st)
							m[d] = std::vector<uint64_t>(m[s]);
						else if (d != s) {
							resync(d);
						}
					}
				}
			}
			else if (n == "mvc") {
				std::unique_ptr<V> nw;
				int st = call(o, [&] { nw.reset(b & 1 ? new V(std::move(*v[s]), Al<T>()) : new V(std::move(*v[s]))); });
				if (!st) {
					std::vector<uint64_t> c = std::move(m[s]);
					m[s].clear();
					check_size(s);
					quiet([&] { std::swap(v[d], nw); nw.reset(); });
					m[d] = c;
					if (s == d)
						; // the moved-from vector was just replaced
				}
			}
			else if (n == "mva") {
				if (d != s) {
					int st = call(o, [&] { *v[d] = std::move(*v[s]); });
					if (!st) {
						m[d] = std::move(m[s]);
						// a moved-from vector is valid but unspecified
						resync(s);
					}
				}
			}
			else if (n == "swp") {
				int st = call(o, [&] { v[s]->swap(*v[d]); });
				if (!st && d != s)
					std::swap(m[s], m[d]);
			}
			check_size(s);
			check_size(d);
			if (chk) {
				check_all(d, chk);
				check_all(s, chk + 1);
			}
		}

		// ---- serialization ----------------------------------------------------------------
		std::string ser(const Item& o, int s, uint64_t how, size_t limit, size_t& r, int& st)
		{
			V& w = *v[s];
			std::string out;
			size_t full = 12 + (m[s].size() / B + 1) * (stenos_bound(B * sizeof(T)) + 16);
			if (how == 0) { // memory
				size_t cap = limit < full ? limit : full;
				uint8_t* p = (uint8_t*)sim_buf(cap);
				st = call(o, [&] { r = w.serialize(p, cap); });
				if (!st && !stenos_has_error(r)) {
					if (r > cap)
						sim_fail("content", "serialize reports %zu bytes for a buffer of %zu", r, cap);
					out.assign((char*)p, r);
				}
				sim_buf_free(p);
			}
			else { // 1 seekable stream, 2 not seekable, 3 throwing
				OutBuf ob(out, limit, how != 2, how == 3);
				std::ostream os(&ob);
				st = call(o, [&] { r = w.serialize(os); });
				if (!st && !stenos_has_error(r) && r != out.size())
					sim_fail("content", "serialize to a stream reports %zu bytes, %zu were written", r, out.size());
			}
			return out;
		}
		size_t des(const Item& o, V& w, const std::string& data, uint64_t how, size_t chunk, size_t fail_at, int& st)
		{
			size_t r = 0;
			if (how == 0) {
				size_t n = data.size() < fail_at ? data.size() : fail_at;
				uint8_t* p = (uint8_t*)sim_buf(n);
				memcpy(p, data.data(), n);
				st = call(o, [&] { r = w.deserialize(p, n); });
				if (memcmp(p, data.data(), n) != 0)
					sim_fail("memory", "deserialize modified its source");
				sim_buf_free(p);
			}
			else {
				InBuf ib(data, chunk, fail_at, how != 2, how == 3);
				std::istream is(&ib);
				st = call(o, [&] { r = w.deserialize(is); });
			}
			return r;
		}
		void serial(const Item& o, int s)
		{
			if constexpr (VT::trivial) {
				int d = (int)(o.get("d") % NS);
				uint64_t chk = o.get("chk", 1), how = o.get("how") % 4, dhow = o.get("dhow") % 4;
				Item nf = o; // same call without faults
				nf.set("fa", 0);
				size_t r = 0;
				int st = 0;
				size_t limit = ~(size_t)0;
				std::string good = ser(nf, s, how == 3 ? 1 : how, limit, r, st);
				if (stenos_has_error(r) || st)
					sim_fail("result", "serialize fails with %lld for a vector of %zu elements", (long long)r, m[s].size());
				check_all(s, chk); // serializing changes nothing
				// too little room, failing stream
				if (o.has("lim")) {
					size_t l = below(o.get("lim"), good.size());
					std::string part = ser(o, s, how, l, r, st);
					if (!st && !stenos_has_error(r))
						sim_fail("result", "serialize reports success (%zu) with room for %zu of %zu bytes", r, l, good.size());
					sim_probe("serialize_refused");
					check_all(s, chk + 1);
				}
				// a valid frame of the same elements
				{
					size_t n = m[s].size() * sizeof(T);
					uint8_t* p = (uint8_t*)sim_buf(n);
					uint8_t* q = (uint8_t*)sim_buf(good.size());
					memcpy(q, good.data(), good.size());
					size_t dr;
					{
						Enter e(0);
						dr = stenos_decompress(q, sizeof(T), good.size(), p, n);
					}
					if (dr != n)
						sim_fail("result", "the serialized form is not a frame of %zu bytes: decompression returns %lld", n, (long long)dr);
					for (size_t i = 0; i < m[s].size(); ++i) {
						T t;
						memcpy(&t, p + i * sizeof(T), sizeof(T));
						one(s, i, t);
					}
					sim_buf_free(p);
					sim_buf_free(q);
					sim_probe("serialized_form_is_a_frame");
				}
				drop_holds(d);
				if (o.name == "ser") {
					std::vector<uint64_t> want = m[s];
					r = des(o, *v[d], good, dhow == 3 ? 1 : dhow, (size_t)o.get("chunk", 1000), ~(size_t)0, st);
					if (!st) {
						if (stenos_has_error(r))
							sim_fail("result", "deserialize fails with %lld for %zu elements, %zu bytes", (long long)r, want.size(), good.size());
						if (r != want.size())
							sim_fail("result", "deserialize returns %zu for %zu elements", r, want.size());
						m[d] = want;
						check_all(d, chk);
						sim_probe("deserialized");
					}
					else
						resync(d);
					return;
				}
				// damaged data into slot d
				std::vector<uint64_t> src = m[s];
				uint64_t dmg = o.get("dmg") % 3;
				std::string bad = good;
				size_t cut = ~(size_t)0;
				if (dmg == 0) { // truncated
					cut = below(o.get("x"), good.size());
					if (dhow == 0 || (o.get("x") >> 40 & 1)) {
						bad.resize(cut);
						cut = ~(size_t)0;
					}
					sim_fault("data_truncated");
				}
				else { // bits flipped or a region lost: whatever the result, no memory error
					size_t p = below(o.get("x"), bad.size());
					if (o.get("x") >> 41 & 1 && bad.size() > 12)
						p = 12 + below(o.get("x"), bad.size() - 12 < 8 ? bad.size() - 12 : 8);
					if (dmg == 1)
						bad[p] = (char)(bad[p] ^ (1 << (o.get("x") >> 33 & 7)));
					else
						bad.erase(p, 1 + below(o.get("x") >> 20, 600));
					sim_fault("data_damaged");
				}
				r = des(o, *v[d], bad, dhow, (size_t)o.get("chunk", 1000), cut, st);
				sim_hash(r);
				if (dmg == 0) {
					if (!st && !stenos_has_error(r))
						sim_fail("result", "deserialize accepts %zu of %zu bytes", bad.size() < cut ? bad.size() : cut, good.size());
					sim_probe("truncation_reported");
				}
				// the vector can be used on
				size_t n = v[d]->size();
				m[d].clear();
				switch (o.get("next") % 4) {
					case 0:
						quiet([&] { v[d]->clear(); });
						break;
					case 1:
						quiet([&] { v[d].reset(); v[d].reset(new V()); });
						break;
					case 2:
						if (dmg == 0) {
							// complete blocks that were received are there
							if (n > src.size())
								sim_fail("content", "more elements than serialized");
							m[d].assign(src.begin(), src.begin() + (std::ptrdiff_t)n);
						}
						else
							quiet([&] { v[d]->clear(); });
						break;
					default: {
						int st2 = 0;
						size_t r2 = des(nf, *v[d], good, dhow == 3 ? 1 : dhow, 100, ~(size_t)0, st2);
						if (r2 != src.size())
							sim_fail("result", "deserialize of intact data after a failed one returns %lld", (long long)r2);
						m[d] = src;
					}
				}
				check_all(d, chk);
				size_t more = (size_t)(o.get("n") % 700);
				for (size_t k = 0; k < more; ++k) {
					uint64_t y = VT::norm(value(vk, k));
					quiet([&] { v[d]->push_back(VT::mk(y)); });
					m[d].push_back(y);
				}
				check_all(d, chk);
				check_all(d, chk + 3);
				sim_probe("used_after_failed_deserialize");
			}
		}

		// ---- memory use -------------------------------------------------------------------
		bool memck = false;
		size_t maxholds = 0; // references held at the same time since the chunks were last released
		void check_shrunk()
		{
			size_t b = big();
			if (b > 3)
				sim_fail("memory_bound", "%zu decompressed chunks survive shrink_to_fit", b);
			maxholds = holds.size();
			sim_probe("shrunk_memory_checked");
		}
		void check_footprint()
		{
			size_t f = 0;
			float r = 0;
			quiet([&] {
				for (int s = 0; s < NS; ++s)
					f += v[s]->memory_footprint();
				r = v[0]->current_compression_ratio();
			});
			size_t have = al_bytes(), all = sim_live_bytes();
			if (f < have)
				sim_fail("memory_footprint", "memory_footprint() reports %zu bytes, the allocator holds %zu", f, have);
			if (f > all + 4096)
				sim_fail("memory_footprint", "memory_footprint() reports %zu bytes, the library holds %zu in all", f, all);
			if (!m[0].empty()) {
				double want = (double)m[0].size() * sizeof(T) / (double)v[0]->memory_footprint();
				if (!(r > want * 0.99 && r < want * 1.01))
					sim_fail("memory_footprint", "current_compression_ratio() is %g instead of %g", (double)r, want);
			}
			sim_probe("footprint_checked");
		}
		void check_memory(const Item& o)
		{
			if (o.name == "stf" && holds.empty() && !o.has("fa"))
				check_shrunk();
			if (o.get("b") & 1)
				check_footprint();
			if (m[0].size() > 20 * B)
				sim_probe("many_blocks_few_chunks");
		}

		// ---- sequential history -----------------------------------------------------------
		void run_seq()
		{
			memck = P->knob("memck") != 0;
			vk = P->knob("vk", 1);
			for (int s = 0; s < NS; ++s)
				quiet([&] { v[s].reset(new V()); });
			if (memck)
				g_big_min = B * sizeof(T);
			for (auto& o : P->ops) {
				op(o);
				if (memck)
					check_memory(o);
			}
			holds.clear();
			if (memck) {
				quiet([&] { v[0]->shrink_to_fit(); });
				check_shrunk();
			}
			for (int s = 0; s < NS; ++s)
				check_all(s, P->knob("endchk", 1) + (uint64_t)s);
			for (int s = 0; s < NS; ++s) {
				quiet([&] { v[s].reset(); });
				m[s].clear();
			}
			cur = nullptr;
			if (live())
				sim_fail("lifetime", "%lld elements survive their vectors", (long long)live());
		}

		// ---- concurrent use ---------------------------------------------------------------
		// value of element i: index in the upper half, number of modifications in the lower one
		static const unsigned H = sizeof(T) >= 8 ? 32 : 16;
		struct Conc
		{
			Env* e;
			int idx;
			std::vector<const Item*> ops;
		};
		std::vector<uint32_t> started, done;
		std::vector<int8_t> busy;
		bool writers = false;

		NOTSAN static uint32_t ld(std::vector<uint32_t>& x, size_t i) { return x.data()[i]; }
		NOTSAN void begin_visit(size_t i)
		{
			if (busy.data()[i]++)
				sim_fail("exclusion", "two visitors modify element %zu at the same time", i);
			++started.data()[i];
		}
		NOTSAN void end_visit(size_t i)
		{
			++done.data()[i];
			--busy.data()[i];
		}
		uint64_t low(size_t i) { return ld(done, i); }
		void seen(size_t i, const T& t, uint64_t lo, const char* how)
		{
			uint64_t g = VT::get(t);
			uint64_t cnt = g & ((1ull << H) - 1);
			if (g >> H != VT::norm((uint64_t)i << H) >> H)
				sim_fail("content", "%s of element %zu gives element %llu", how, i, (unsigned long long)(g >> H));
			if (cnt < lo)
				sim_fail("content", "%s of element %zu misses %llu of its %llu modifications", how, i, (unsigned long long)(lo - cnt), (unsigned long long)lo);
			if (cnt > ld(started, i))
				sim_fail("content", "%s of element %zu shows %llu modifications, %u were made", how, i, (unsigned long long)cnt, ld(started, i));
		}
		void cop(const Item& o, std::vector<std::unique_ptr<CRef>>& refs, std::vector<size_t>& refi, std::unique_ptr<CIt>& it, size_t& iti)
		{
			const V& c = *v[0];
			V& w = *v[0];
			size_t sz = m[0].size();
			const std::string& n = o.name;
			if (!sz)
				return;
			uint64_t a = o.get("a"), b = o.get("b"), x = o.get("x"), cnt = o.get("n", 1), stop = o.get("stop"), thr = o.get("thr");
			size_t i = below(a, sz), k = below(b, sz - i + 1);
			if (cnt && k > cnt)
				k = (size_t)cnt;
			sim_note("client %d %s i=%zu k=%zu", t_client, n.c_str(), i, k);
			if (n == "rd") { // single elements
				for (uint64_t q = 0; q < cnt; ++q) {
					size_t j = below(mix64(a, q), sz);
					uint64_t lo = low(j);
					call(o, [&] {
						if (x & 1)
							seen(j, c.at(j), lo, "reading");
						else
							seen(j, c[j].get(), lo, "reading");
					});
				}
			}
			else if (n == "scan") {
				call(o, [&] {
					size_t j = i;
					for (auto p = c.begin() + (std::ptrdiff_t)i; j < i + k; ++p, ++j)
						seen(j, (*p).get(), low(j), "iterating");
				});
			}
			else if (n == "rscan") {
				call(o, [&] {
					size_t j = i + k;
					auto p = c.begin() + (std::ptrdiff_t)(i + k);
					while (j > i) {
						--p;
						--j;
						seen(j, *p.operator->(), 0, "iterating");
					}
				});
			}
			else if (n == "hold") {
				if (refs.size() < 6)
					call(o, [&] {
						refs.emplace_back(new CRef(c[i]));
						refi.push_back(i);
					});
			}
			else if (n == "use") {
				for (size_t q = 0; q < refs.size(); ++q)
					call(o, [&] { seen(refi[q], refs[q]->get(), 0, "reading through a held reference"); });
			}
			else if (n == "drop") {
				if (!refs.empty()) {
					size_t q = below(a, refs.size());
					refs.erase(refs.begin() + (std::ptrdiff_t)q);
					refi.erase(refi.begin() + (std::ptrdiff_t)q);
				}
			}
			else if (n == "it") {
				call(o, [&] {
					if (!it || x % 3 == 0) {
						it.reset(new CIt(c.begin() + (std::ptrdiff_t)i));
						iti = i;
					}
					else {
						*it += (std::ptrdiff_t)i - (std::ptrdiff_t)iti;
						iti = i;
					}
					seen(iti, (**it).get(), 0, "dereferencing a held iterator");
				});
			}
			else if (n == "mf") {
				call(o, [&] {
					if (!c.memory_footprint() || c.size() != sz || c.empty())
						sim_fail("content", "memory_footprint or size is wrong during concurrent reading");
					sim_hash((uint64_t)(c.current_compression_ratio() > 0));
				});
			}
			else if (n == "cfe" || n == "cfb") {
				bool back = n == "cfb";
				size_t pos = 0, r = 0;
				bool boom = false;
				// what is done before the call must be seen
				std::vector<uint64_t> lo(k);
				for (size_t q = 0; q < k; ++q)
					lo[q] = low(i + q);
				int st = call(o, [&] {
					auto f = [&](const T& t) -> bool {
						if (pos >= k)
							sim_fail("content", "%s visits more than %zu elements", n.c_str(), k);
						size_t j = back ? k - 1 - pos : pos;
						seen(i + j, t, lo[j], "visiting");
						++pos;
						if (x & 1)
							sim_yield();
						if (thr && pos == thr)
							throw 7;
						return !(stop && pos == stop);
					};
					try {
						r = back ? c.for_each_backward(i, i + k, f) : c.for_each(i, i + k, f);
					}
					catch (int) {
						boom = true;
					}
				});
				if (!st && !boom)
					counts(n, k, pos, r, stop);
			}
			else if (n == "fe" || n == "feb") {
				bool back = n == "feb";
				size_t pos = 0, r = 0;
				bool boom = false;
				std::vector<uint64_t> lo(k);
				for (size_t q = 0; q < k; ++q)
					lo[q] = low(i + q);
				int st = call(o, [&] {
					auto f = [&](T& t) -> bool {
						if (pos >= k)
							sim_fail("content", "%s visits more than %zu elements", n.c_str(), k);
						size_t j = i + (back ? k - 1 - pos : pos);
						seen(j, t, lo[j - i], "visiting");
						begin_visit(j);
						++pos;
						uint64_t y = VT::get(t) + 1;
						if (x & 1)
							sim_yield();
						VT::put(t, y);
						end_visit(j);
						if (thr && pos == thr)
							throw 7;
						return !(stop && pos == stop);
					};
					try {
						r = back ? w.for_each_backward(i, i + k, f) : w.for_each(i, i + k, f);
					}
					catch (int) {
						boom = true;
						sim_fault("visitor_exception");
					}
				});
				if (!st && !boom)
					counts(n, k, pos, r, stop);
				sim_probe("modified_in_place");
			}
			else
				sim_fail("plan", "unknown operation %s", n.c_str());
		}
		void counts(const std::string& n, size_t k, size_t visits, size_t r, uint64_t stop)
		{
			size_t ev = stop && stop <= k ? (size_t)stop : k, er = stop && stop <= k ? (size_t)stop - 1 : k;
			if (visits != ev || r != er)
				sim_fail("content", "%s over %zu elements visits %zu and reports %zu (stopping at %llu)", n.c_str(), k, visits, r, (unsigned long long)stop);
		}
		void client(Conc& c)
		{
			t_client = c.idx;
			std::vector<std::unique_ptr<CRef>> refs;
			std::vector<size_t> refi;
			std::unique_ptr<CIt> it;
			size_t iti = 0;
			for (auto* o : c.ops)
				cop(*o, refs, refi, it, iti);
		}
		static void client_main(void* p)
		{
			Conc& c = *(Conc*)p;
			c.e->client(c);
		}
		void run_conc()
		{
			size_t n = (size_t)P->knob("size", 600);
			quiet([&] { v[0].reset(new V()); });
			for (int s = 1; s < NS; ++s)
				quiet([&] { v[s].reset(new V()); });
			if (P->knob("memck")) {
				g_big_min = B * sizeof(T);
				big_limit(8);
			}
			for (size_t i = 0; i < n; ++i) {
				m[0].push_back(VT::norm((uint64_t)i << H));
				quiet([&] { v[0]->push_back(VT::mk(m[0].back())); });
			}
			started.assign(n, 0);
			done.assign(n, 0);
			busy.assign(n, 0);
			uint64_t prep = P->knob("prep");
			if (prep & 1)
				quiet([&] { v[0]->shrink_to_fit(); });
			if (prep & 2) // some parts modified, not yet compressed
				quiet([&] {
					v[0]->for_each(0, n / 2, [&](T& t) { VT::put(t, VT::get(t)); });
				});
			if (prep & 4)
				check_all(0, prep >> 3);
			size_t nc = P->knob("clients", 2);
			std::vector<std::unique_ptr<Conc>> cl;
			for (size_t i = 0; i < nc; ++i) {
				cl.emplace_back(new Conc());
				cl.back()->e = this;
				cl.back()->idx = (int)i + 1;
			}
			for (auto& o : P->ops)
				cl[o.get("c") % nc]->ops.push_back(&o);
			std::vector<int> t;
			if (P->knob("memck")) {
				memck = true;
				big_limit(3 * nc + 8);
			}
			for (auto& c : cl)
				t.push_back(sim_spawn(client_main, c.get()));
			for (int i : t)
				sim_join(i);
			for (size_t i = 0; i < n; ++i)
				m[0][i] += done[i];
			if (memck) {
				check_footprint();
				sim_probe("many_blocks_few_chunks_concurrently");
			}
			check_all(0, prep >> 3);
			if (prep & 1) {
				quiet([&] { v[0]->shrink_to_fit(); });
				if (memck)
					check_shrunk();
			}
			check_all(0, prep >> 5);
			for (int s = 0; s < NS; ++s) {
				quiet([&] { v[s].reset(); });
				m[s].clear();
			}
			if (live())
				sim_fail("lifetime", "%lld elements survive their vectors", (long long)live());
		}
	};

	// a vector serialized by one node (mode 0) and read by another (mode 1)
	template<class T, unsigned BS, int LV>
	size_t transfer(int mode, uint64_t* x, size_t n, uint8_t* buf, size_t cap)
	{
		if constexpr (Val<T>::trivial) {
			stenos::cvector<T, BS, LV> v;
			if (mode == 0) {
				for (size_t i = 0; i < n; ++i)
					v.push_back(Val<T>::mk(x[i]));
				return v.serialize(buf, cap);
			}
			size_t r = v.deserialize(buf, cap);
			if (stenos_has_error(r))
				return r;
			if (v.size() != n)
				return v.size();
			const auto& c = v;
			size_t i = 0;
			for (auto it = c.begin(); it != c.end(); ++it)
				x[i++] = Val<T>::get((*it).get());
			return r;
		}
		return ~(size_t)0;
	}

	template<class T, unsigned BS, int LV>
	void go()
	{
		std::unique_ptr<Env<T, BS, LV>> e(new Env<T, BS, LV>());
		if (P->knob("conc"))
			e->run_conc();
		else
			e->run_seq();
	}
}

#endif

// one translation unit per configuration: each is a separate set of instantiations
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#if CVEC_CFG == 0
#define CV_TYPE Triv<4>, 0, 1
#elif CVEC_CFG == 1
#define CV_TYPE Triv<8>, 0, 1
#elif CVEC_CFG == 2
#define CV_TYPE Tracked<8, true>, 0, 1
#elif CVEC_CFG == 3
#define CV_TYPE Triv<12>, 1, 1
#elif CVEC_CFG == 4
#define CV_TYPE Tracked<24, true>, 0, 2
#elif CVEC_CFG == 5
#define CV_TYPE MoveOnly, 0, 1
#elif CVEC_CFG == 6
#define CV_TYPE Triv<1>, 0, 0
#elif CVEC_CFG == 7
#define CV_TYPE Triv<40>, 0, 3
#elif CVEC_CFG == 8
#define CV_TYPE Triv<3>, 2, 0
#endif
#ifdef CVEC_CFG
void CAT(cvec_cfg, CVEC_CFG)(const Plan* p)
{
	P = p;
	go<CV_TYPE>();
}
size_t CAT(cvx_cfg, CVEC_CFG)(int mode, uint64_t* x, size_t n, uint8_t* buf, size_t cap)
{
	return transfer<CV_TYPE>(mode, x, n, buf, cap);
}
#else
#define DECL(i)                                                                                                                                                                                        \
	void cvec_cfg##i(const Plan* p);                                                                                                                                                               \
	size_t cvx_cfg##i(int mode, uint64_t* x, size_t n, uint8_t* buf, size_t cap);
DECL(0)
DECL(1)
DECL(2)
DECL(3)
DECL(4)
DECL(5)
DECL(6)
DECL(7)
DECL(8)
void run_cvec(const Plan* p)
{
	static void (*const f[])(const Plan*) = { cvec_cfg0, cvec_cfg1, cvec_cfg2, cvec_cfg3, cvec_cfg4, cvec_cfg5, cvec_cfg6, cvec_cfg7, cvec_cfg8 };
	f[p->knob("cfg") % 9](p);
}
extern "C" __attribute__((visibility("default"))) size_t stenos_cvx(int cfg, int mode, uint64_t* x, size_t n, uint8_t* buf, size_t cap)
{
	static size_t (*const f[])(int, uint64_t*, size_t, uint8_t*, size_t) = { cvx_cfg0, cvx_cfg1, cvx_cfg2, cvx_cfg3, cvx_cfg4, cvx_cfg5, cvx_cfg6, cvx_cfg7, cvx_cfg8 };
	return f[cfg % 9](mode, x, n, buf, cap);
}
#endif
