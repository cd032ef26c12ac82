// Plan generator: one 64-bit seed decides everything about a run.
#include "gen.h"
#include "datagen.h"
uint64_t g_scale = 0;
void gen_cvec(Plan& p, Rng& r); // gen_cvec.cpp

namespace
{
	const size_t KB = 1024;

	struct G
	{
		Plan& p;
		Rng r;
		G(Plan& pl)
		  : p(pl)
		  , r(mix64(pl.seed, 0x5eed))
		{
		}

		uint64_t pick_bt()
		{
			switch (r.below(16)) {
				case 0: return 1;
				case 1: return 2;
				case 2: return 3;
				case 3:
				case 4:
				case 5: return 4;
				case 6:
				case 7: return 8;
				case 8: return 12;
				case 9: return 16;
				case 10: return r.range(5, 18);
				case 11: return r.range(17, 40);
				case 12: return r.range(1, 70);
				case 13: return r.chance(1, 3) ? (r.chance(1, 2) ? 4 * r.range(60, 270) : r.range(250, 1100)) : r.range(20, 130);
				default: return r.range(1, 9);
			}
		}
		uint64_t pick_level()
		{
			switch (r.below(12)) {
				case 0: return 0;
				case 1:
				case 2:
				case 3: return 1;
				case 4:
				case 5:
				case 6: return 2;
				case 7: return 3;
				case 8: return 4;
				case 9: return r.range(5, 7);
				default: return r.chance(1, 2) ? r.range(0, 9) : 1;
			}
		}
		static uint64_t sb_size(uint64_t bt, uint64_t lv, uint64_t sh, uint64_t n)
		{
			uint64_t bs = bt * 256;
			if (sh)
				return bs << (sh - 1);
			uint64_t s = bs > 131072 ? bs : 131072 / bs * bs;
			if (n > s)
				s <<= lv ? (lv - 1) / 2 : 0;
			return s;
		}
		// number of bytes, close to interesting multiples of the superblock size
		uint64_t pick_n(uint64_t bt, uint64_t lv, uint64_t sh, uint64_t maxbytes, bool big = false)
		{
			uint64_t bs = bt * 256, s = sb_size(bt, lv, sh, big ? 1u << 30 : 0), n;
			if (maxbytes < bs * 2)
				maxbytes = bs * 2;
			uint64_t maxsb = maxbytes / s;
			switch (r.below(10)) {
				case 0: n = bt * r.below(300); break;
				case 1: n = r.below(200); break;
				case 2:
				case 3: n = (maxsb ? r.range(1, maxsb < 9 ? maxsb : 9) : 1) * s; break;
				case 4:
				case 5: n = (maxsb ? r.range(1, maxsb < 9 ? maxsb : 9) : 1) * s + bt * (r.below(20)) - bt * r.below(20); break;
				case 6: n = r.range(1, 4) * bs + bt * r.below(256); break;
				case 7: n = r.range(1, 6) * bs; break;
				default: n = r.below(maxbytes); break;
			}
			if ((int64_t)n < 0)
				n = s;
			if (n > maxbytes)
				n = r.below(maxbytes);
			if (!big && !sh && n > 2 * maxbytes)
				n = maxbytes;
			return n / bt * bt;
		}

		void sched_knobs(bool light = false)
		{
			Item& k = p.knobs;
			k.set("sched", r.next() >> 1);
			uint64_t pol = r.below(10);
			if (light)
				pol = 9;
			if (pol < 4) {
				k.set("policy", 0);
				static const uint64_t pre[] = { 2, 4, 10, 30, 100 };
				k.set("pre", r.pick(pre));
			}
			else if (pol < 7) {
				k.set("policy", 1);
				k.set("pctd", r.below(8));
				k.set("pctlen", r.logu(50, 5000));
			}
			else if (pol < 8)
				k.set("policy", 2);
			else
				k.set("policy", 3);
			if (!light && r.chance(1, 2))
				k.set("plainpre", r.logu(10, 20000));
			if (!light && r.chance(1, 3))
				k.set("spurious", r.logu(3, 100));
			static const uint64_t hc[] = { 1, 1, 1, 2, 2, 2, 3, 4 };
			k.set("hc", r.pick(hc));
			k.set("reuse", r.below(3));
			k.set("fill", r.range(1, 3));
		}
		// parameters of one compression + decompression
		void params(Item& o, uint64_t maxbytes, bool small_blocks = true)
		{
			uint64_t bt = pick_bt(), lv = pick_level(), sh = 0, n;
			if (maxbytes >= 16 * KB && r.chance(1, 40)) { // large elements, word level repetitions
				bt = 4 * r.range(33, 270);
				uint64_t bs = 256 * bt;
				n = r.range(1, bs < 100 * KB ? 5 : 3) * bs + (r.chance(1, 3) ? bt * r.below(250) : 0);
				if (r.chance(1, 2))
					sh = r.range(1, 3);
				o.set("bt", bt).set("n", n).set("lv", r.chance(1, 3) ? lv : r.range(2, 9)).set("sh", sh);
				o.set("k", 16).set("ds", r.next() >> 32);
				return;
			}
			if (r.chance(small_blocks ? 7 : 2, 10))
				sh = 1 + (r.chance(3, 4) ? r.below(2) : r.below(5));
			bool big = !sh && r.chance(1, 4) && bt < 300;
			n = pick_n(bt, lv, sh, big ? 160 * KB + maxbytes : maxbytes, big);
			o.set("bt", bt).set("n", n).set("lv", lv).set("sh", sh);
			o.set("k", r.chance(1, 2) ? r.range(5, 6) : r.below(NKINDS)).set("ds", r.next() >> 32);
			if (r.chance(1, 2))
				o.set("mis", r.below(1u << 16));
			if (n > 40 * KB && lv > 6)
				o.set("lv", 6);
			o.set("th", r.chance(1, 3) ? 1 : r.range(2, 5)).set("dt", r.chance(1, 3) ? 1 : r.range(2, 5));
		}
		Item& rt(uint64_t maxbytes, uint64_t c = 0)
		{
			Item& o = p.op("rt");
			o.set("c", c);
			params(o, maxbytes);
			if (r.chance(1, 10))
				o.set("simple", 1).set("sh", 0).set("th", 1);
			if (r.chance(1, 10))
				o.set("dsimple", 1);
			o.set("x", r.below(2)).set("y", r.below(2));
			if (r.chance(1, 6))
				o.set("pad", r.below(3000));
			return o;
		}
		void fault(Item& o, uint64_t phases)
		{
			// phase 0 compression, 1 decompression, 2 context creation
			static const char* kinds[] = { "alloc", "alloc", "alloc", "alloc", "zstd_compress_failure", "zstd_decompress_failure", "zstd_create_failure" };
			Item& f = p.fault(kinds[r.below(7)]);
			uint64_t ph = r.below(phases);
			f.set("op", o.get("id") * 4 + ph);
			f.set("nth", r.chance(1, 2) ? r.below(6) : r.logu(1, 60) - 1);
			f.set("len", r.chance(1, 2) ? 1 : r.chance(1, 2) ? r.range(2, 6) : 1000000);
		}
		void clock(bool timed)
		{
			Item& k = p.knobs;
			k.set("tseed", r.next() >> 1);
			if (timed && r.chance(2, 3))
				k.set("timed", 1);
			static const uint64_t sp[] = { 1, 10, 50, 100, 100, 100, 200, 1000 };
			k.set("speed", r.pick(sp));
			static const uint64_t gran[] = { 1, 1, 1, 100, 1000, 1000000, 15600000 };
			k.set("gran", r.pick(gran));
			if (r.chance(1, 2)) {
				k.set("stall", r.logu(5, 500));
				k.set("stallns", r.logu(2000, 10000000000ull));
			}
			static const uint64_t mem[] = { 0, 1, 16, 16, 16, 200, 5000 };
			k.set("memns", r.pick(mem));
		}
	};

	void gen_c01(G& g)
	{
		g.sched_knobs(g.r.chance(1, 6));
		uint64_t n = g.r.range(1, 4);
		for (uint64_t i = 0; i < n; ++i)
			g.rt(24 * KB);
	}
	void gen_c02(G& g)
	{
		g.sched_knobs();
		uint64_t cl = g.r.range(2, 4);
		g.p.knobs.set("clients", cl).set("alone", 1);
		uint64_t n = cl + g.r.below(4);
		for (uint64_t i = 0; i < n; ++i)
			g.rt(9 * KB, i % cl);
	}
	void gen_c03(G& g)
	{
		g.sched_knobs();
		static const uint64_t hc[] = { 0, 0, 1, 1, 2, 3, 5, 8 };
		g.p.knobs.set("hc", g.r.pick(hc));
		if (g.r.chance(1, 2))
			g.p.knobs.set("spurious", g.r.logu(2, 40));
		uint64_t cl = g.r.range(1, 5);
		g.p.knobs.set("clients", cl);
		uint64_t n = g.r.chance(1, 20) ? 0 : cl + g.r.below(5);
		for (uint64_t i = 0; i < n; ++i) {
			Item& o = g.rt(4 * KB, i % cl);
			if (g.r.chance(3, 4))
				o.set("th", g.r.range(2, 9)).set("dt", g.r.range(2, 9)).set("simple", 0).set("dsimple", 0);
			if (g.r.chance(1, 8))
				g.fault(o, 2);
		}
	}
	void gen_c04(G& g)
	{
		g.sched_knobs();
		Item& k = g.p.knobs;
		if (!k.has("plainpre") && g.r.chance(1, 2))
			k.set("plainpre", g.r.logu(10, 3000));
		uint64_t cl = g.r.range(1, 4);
		k.set("clients", cl);
		uint64_t n = cl + g.r.below(4);
		for (uint64_t i = 0; i < n; ++i) {
			uint64_t c = i % cl;
			switch (g.r.below(12)) {
				case 0: g.p.op("destroy").set("c", c).set("x", g.r.below(2)); break;
				case 1: g.p.op("tick").set("c", c).set("t", 0); break;
				case 2: g.p.op("tock").set("c", c).set("t", 0); break;
				case 3: {
					Item& o = g.rt(4 * KB, c);
					o.set("ns", g.r.logu(1000, 100000000)).set("sh", 0);
					o.set("n", g.r.range(131072, 300000) / o.get("bt") * o.get("bt"));
				} break;
				default: g.rt(6 * KB, c); break;
			}
			if (g.r.chance(1, 10) && g.p.ops.back().name == "rt")
				g.fault(g.p.ops.back(), 2);
		}
	}
	void gen_c05(G& g)
	{
		g.sched_knobs(g.r.chance(1, 3));
		g.clock(true);
		uint64_t n = g.r.range(1, 2);
		for (uint64_t i = 0; i < n; ++i) {
			Item& o = g.rt(20 * KB);
			o.set("simple", 0);
			if (g.r.chance(2, 3)) {
				// several superblocks: at least 128 KB each
				uint64_t bt = o.get("bt");
				if (bt > 300)
					o.set("bt", bt = 4);
				o.set("n", g.r.range(131072, 700000) / bt * bt);
				if (g.r.chance(1, 4))
					o.set("n", g.r.range(1, 4) * G::sb_size(bt, 1, 0, 0));
			}
			if (g.r.chance(4, 5))
				o.set("sh", 0);
			uint64_t bytes = o.get("n") + 1;
			// from already expired to more than enough
			switch (g.r.below(4)) {
				case 0: o.set("ns", g.r.range(1, 2000)); break;
				case 1: o.set("ns", g.r.logu(1000, 100000000000ull)); break;
				default: o.set("ns", 1 + (uint64_t)((double)bytes * (double)g.r.logu(1, 3000) / 30.)); break;
			}
			if (g.r.chance(1, 6)) { // a bounded call leaves nothing behind for an unbounded one
				Item& q = g.rt(8 * KB);
				q.set("x", o.get("x"));
			}
		}
	}
	void gen_c06(G& g)
	{
		g.sched_knobs(true);
		Item& k = g.p.knobs;
		static const uint64_t sp[] = { 3, 10, 30, 60, 100, 100, 200 };
		static const uint64_t mem[] = { 8, 16, 16, 64 };
		k.set("timed", 1).set("speed", g.r.pick(sp)).set("memns", g.r.pick(mem)).set("hc", g.r.range(1, 3));
		static const uint64_t gran[] = { 1, 1, 1, 100, 1000 };
		k.set("gran", g.r.pick(gran));
		if (g.r.chance(1, 3))
			k.set("policy", 2);
		Item& o = g.p.op("tl");
		uint64_t bt = g.pick_bt();
		if (bt > 120)
			bt = 4;
		uint64_t sb = G::sb_size(bt, 1, 0, 0);
		uint64_t n = (g.r.range(3, 9) * sb + g.r.below(sb)) / bt * bt;
		o.set("bt", bt).set("n", n).set("k", g.r.below(NKINDS)).set("ds", g.r.next() >> 32);
		o.set("th", g.r.chance(1, 2) ? 1 : g.r.range(2, 4)).set("dt", 1);
		// rates from 1 MB/s to 3 GB/s
		o.set("ns", (uint64_t)((double)n * 1000. / (double)g.r.logu(1, 3000)) + 1);
		o.set("slack", 20000);
	}
	void gen_c07(G& g)
	{
		g.sched_knobs(true);
		uint64_t n = g.r.range(1, 2);
		for (uint64_t i = 0; i < n; ++i) {
			Item& o = g.p.op("cap");
			g.params(o, 8 * KB);
			o.set("cs", g.r.next() >> 32).set("cc", g.r.range(2, 12)).set("dc", g.r.range(1, 4));
			if (g.r.chance(2, 3))
				o.set("th", 1).set("dt", 1);
		}
	}
	void gen_c08(G& g)
	{
		g.sched_knobs(true);
		g.p.knobs.set("hc", g.r.range(1, 2));
		uint64_t n = g.r.range(1, 2);
		for (uint64_t i = 0; i < n; ++i) {
			Item& o = g.p.op(g.r.chance(1, 4) ? "craft" : "dmg");
			g.params(o, 6 * KB);
			o.set("cs", g.r.next() >> 32).set("cc", g.r.range(4, 24)).set("nd", g.r.range(1, 4));
			if (g.r.chance(3, 4))
				o.set("th", 1).set("dt", 1);
			if (g.r.chance(1, 2))
				o.set("lv", g.r.range(1, 2));
		}
	}
	void gen_c09(G& g)
	{
		g.sched_knobs(true);
		g.p.knobs.set("hc", g.r.range(1, 2));
		uint64_t n = g.r.range(1, 2);
		for (uint64_t i = 0; i < n; ++i) {
			Item& o = g.p.op("trunc");
			g.params(o, 8 * KB);
			if (o.get("n") == 0)
				o.set("n", o.get("bt"));
			o.set("cs", g.r.next() >> 32).set("cc", g.r.range(4, 24));
			if (g.r.chance(1, 2))
				o.set("th", 1).set("dt", 1);
		}
	}
	void gen_c10(G& g)
	{
		g.sched_knobs(g.r.chance(1, 4));
		uint64_t cl = g.r.chance(1, 3) ? 2 : 1;
		g.p.knobs.set("clients", cl);
		uint64_t n = g.r.range(1, 4);
		for (uint64_t i = 0; i < n; ++i) {
			Item& o = g.rt(7 * KB, i % cl);
			if (g.r.chance(1, 2))
				o.set("x", i).set("y", i); // first use of a context
			if (g.r.chance(1, 8))
				o.set("ns", g.r.logu(1000, 100000000)).set("simple", 0);
			uint64_t nf = g.r.range(1, 2);
			for (uint64_t j = 0; j < nf; ++j)
				g.fault(o, 3);
		}
	}
	void gen_c11(G& g)
	{
		g.sched_knobs(true);
		Item& k = g.p.knobs;
		k.set("reuse", g.r.below(3)).set("fill", g.r.range(1, 3));
		g.clock(false);
		uint64_t n = g.r.range(2, 6), x = g.r.below(2);
		for (uint64_t i = 0; i < n; ++i) {
			switch (g.r.below(9)) {
				case 0: {
					Item& o = g.p.op("cap");
					g.params(o, 4 * KB);
					o.set("cs", g.r.next() >> 32).set("cc", 2).set("dc", 2).set("x", x).set("y", x);
				} break;
				case 1: {
					Item& o = g.p.op("trunc");
					g.params(o, 4 * KB);
					o.set("cs", g.r.next() >> 32).set("cc", 3).set("x", x).set("y", x);
				} break;
				case 2: {
					Item& o = g.p.op("dmg");
					g.params(o, 4 * KB);
					o.set("cs", g.r.next() >> 32).set("cc", 3).set("nd", 2).set("x", x).set("y", x);
				} break;
				case 3:
				case 4: {
					Item& o = g.p.op("reset");
					g.params(o, 6 * KB);
					o.set("x", x).set("dirty", 1).set("use", g.r.below(2));
					if (g.r.chance(1, 3))
						o.set("ns", g.r.logu(1, 1000000000));
				} break;
				default: {
					Item& o = g.rt(6 * KB);
					o.set("x", x).set("y", x).set("vf", 1);
					if (g.r.chance(1, 5))
						o.set("ns", g.r.logu(1, 1000000000)).set("simple", 0).set("sh", 0);
					if (g.r.chance(1, 5))
						g.fault(o, 2);
				} break;
			}
		}
	}
	void gen_c12(G& g)
	{
		g.sched_knobs(g.r.chance(1, 3));
		uint64_t cl = g.r.range(1, 3);
		g.p.knobs.set("clients", cl);
		if (g.r.chance(1, 4)) {
			g.p.knobs.set("clients", 1).set("hc", g.r.range(1, 2));
			Item& o = g.p.op("grow");
			g.params(o, 3 * KB);
			if (o.get("n") > 6 * KB)
				o.set("n", 4 * KB / o.get("bt") * o.get("bt"));
			o.set("rep", 45).set("th", g.r.range(1, 4)).set("dt", g.r.range(1, 4));
			return;
		}
		uint64_t n = g.r.range(1, 5);
		for (uint64_t i = 0; i < n; ++i) {
			uint64_t c = i % cl;
			switch (g.r.below(8)) {
				case 0: g.p.op("destroy").set("c", c).set("x", g.r.below(2)); break;
				case 1: {
					Item& o = g.p.op("dmg");
					g.params(o, 4 * KB);
					o.set("c", c).set("cs", g.r.next() >> 32).set("cc", 3).set("nd", 2);
				} break;
				case 2: {
					Item& o = g.p.op("cap");
					g.params(o, 4 * KB);
					o.set("c", c).set("cs", g.r.next() >> 32).set("cc", 3).set("dc", 1);
				} break;
				default: {
					Item& o = g.rt(6 * KB, c);
					if (g.r.chance(1, 2))
						g.fault(o, 3);
				} break;
			}
		}
	}
	void gen_c13(G& g)
	{
		g.sched_knobs();
		uint64_t cl = g.r.range(1, 3);
		g.p.knobs.set("clients", cl);
		// one or two inputs, compressed several times in different circumstances
		uint64_t ni = g.r.range(1, 2), n = 0;
		for (uint64_t i = 0; i < ni; ++i) {
			Item base;
			g.params(base, 9 * KB);
			if (g.r.chance(1, 3))
				base.set("bt", 4).set("lv", 2);
			uint64_t reps = g.r.range(2, 4);
			for (uint64_t j = 0; j < reps; ++j) {
				Item& o = g.p.op("rt");
				for (auto& a : base.args)
					o.set(a.first.c_str(), a.second);
				o.set("c", n++ % cl).set("x", g.r.below(2)).set("y", 0).set("same", 1);
				o.set("th", g.r.chance(1, 2) ? 1 : g.r.range(2, 5));
				o.set("dt", 1);
				o.set("mis", g.r.below(1u << 16));
				if (g.r.chance(1, 5))
					g.rt(5 * KB, g.r.below(cl)); // something else in between
			}
		}
	}
	void gen_c21(G& g)
	{
		g.sched_knobs(g.r.chance(1, 2));
		uint64_t cl = g.r.range(1, 3);
		Item& k = g.p.knobs;
		k.set("clients", cl).set("memns", 0);
		static const uint64_t gran[] = { 1, 1, 1, 1000, 1000000, 1000000000ull };
		k.set("gran", g.r.pick(gran));
		uint64_t t = g.r.chance(1, 4) ? 0 : g.r.chance(1, 2) ? 999999000ull : g.r.logu(1, 1ull << 50);
		k.set("t0", t);
		uint64_t n = g.r.range(3, 14);
		for (uint64_t i = 0; i < n; ++i) {
			bool tick = i < 2 || g.r.chance(1, 3);
			Item& o = g.p.op(tick ? "tick" : g.r.chance(1, 12) ? "tdel" : "tock");
			o.set("c", g.r.below(cl)).set("t", g.r.below(2));
			// clock readings around second boundaries, zero, very long
			if (g.r.chance(1, 2)) {
				uint64_t s = 1000000000ull, base;
				switch (g.r.below(5)) {
					case 0: base = t; break;
					case 1: base = t + g.r.below(5) * s; break;
					case 2: base = t + g.r.logu(1, 1ull << 52); break;
					default: base = (t / s + 1) * s + g.r.below(3) - 1; break;
				}
				base = g.r.chance(1, 2) ? base : base / s * s + (g.r.chance(1, 2) ? g.r.below(50) : s - 1 - g.r.below(50));
				if (base > t)
					t = base;
				o.set("at", t);
			}
			if (!tick && g.r.chance(1, 3))
				o.set("adv", g.r.chance(1, 2) ? g.r.below(1000) : g.r.logu(1, 1ull << 45));
		}
	}
	void gen_c22(G& g)
	{
		g.sched_knobs(g.r.chance(1, 2));
		Item& k = g.p.knobs;
		k.set("libs", 2).set("hc", g.r.range(1, 2));
		static const uint64_t m[] = { 0, 0, 0, 1, 1, 2, 4 };
		k.set("cpu0", g.r.pick(m)).set("cpu1", g.r.pick(m));
		k.set("libsel", g.r.below(64));
		uint64_t n = g.r.range(1, 4);
		for (uint64_t i = 0; i < n; ++i) {
			Item& o = g.rt(16 * KB);
			o.set("la", g.r.below(2)).set("lb", g.r.below(2));
			if (g.r.chance(3, 4))
				o.set("lb", 1 - o.get("la"));
		}
	}
}

namespace
{
	void gen_c26(G& g) // mixed releases
	{
		g.sched_knobs(g.r.chance(1, 2));
		Item& k = g.p.knobs;
		k.set("libs", 2).set("hc", g.r.range(1, 2)).set("libsel", g.r.below(64));
		bool timed = g.r.chance(1, 8);
		if (timed)
			g.clock(true);
		uint64_t n = g.r.range(1, 4);
		for (uint64_t i = 0; i < n; ++i) {
			uint64_t la = g.r.below(2);
			if (g.r.chance(1, 5)) {
				Item& o = g.p.op("cvx");
				o.set("cfg", g.r.below(6)).set("n", g.r.chance(1, 3) ? 256 * g.r.range(1, 9) : g.r.below(2600)).set("k", g.r.below(NKINDS)).set("ds", g.r.next() >> 32);
				o.set("la", la).set("lb", 1 - la);
				continue;
			}
			Item& o = g.rt(16 * KB);
			o.set("la", la).set("lb", 1 - la);
			if (timed)
				o.set("ns", g.r.logu(1000, 100000000));
		}
	}
}

void gen_plan(Plan& p)
{
	G g(p);
	const std::string& n = p.prop;
	if (n == "C01")
		gen_c01(g);
	else if (n == "C02")
		gen_c02(g);
	else if (n == "C03")
		gen_c03(g);
	else if (n == "C04") {
		if (g.r.chance(1, 4)) {
			g.sched_knobs();
			gen_cvec(p, g.r);
		}
		else
			gen_c04(g);
	}
	else if (n == "C05")
		gen_c05(g);
	else if (n == "C06")
		gen_c06(g);
	else if (n == "C07")
		gen_c07(g);
	else if (n == "C08")
		gen_c08(g);
	else if (n == "C09")
		gen_c09(g);
	else if (n == "C10")
		gen_c10(g);
	else if (n == "C11")
		gen_c11(g);
	else if (n == "C12") {
		if (g.r.chance(1, 4)) {
			g.sched_knobs();
			gen_cvec(p, g.r);
		}
		else
			gen_c12(g);
	}
	else if (n == "C13")
		gen_c13(g);
	else if (n == "C21")
		gen_c21(g);
	else if (n == "C22")
		gen_c22(g);
	else if (n == "C26")
		gen_c26(g);
	else {
		g.sched_knobs();
		gen_cvec(p, g.r);
	}
}
