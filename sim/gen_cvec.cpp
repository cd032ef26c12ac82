// Plans for the compressed vector (C14-C20, and its share of C04 and C12).
#include "gen.h"

namespace
{
	struct CG
	{
		Plan& p;
		Rng& r;
		uint64_t cfg = 0, B = 256;
		bool trivial = true, copy = true;
		uint64_t est[3] = { 0, 0, 0 }; // estimated sizes
		uint64_t cap = 6000;
		bool faults = false, efaults = false, sparse = false; // sparse: few complete checks

		CG(Plan& pl, Rng& rr)
		  : p(pl)
		  , r(rr)
		{
		}

		void config(uint64_t c)
		{
			cfg = c;
			p.knobs.set("cvec", 1).set("cfg", c);
			static const uint64_t b[] = { 256, 256, 256, 512, 256, 256, 256, 256, 1024 };
			B = b[c];
			trivial = c != 2 && c != 4 && c != 5;
			copy = c != 5;
			p.knobs.set("vk", r.below(5)).set("endchk", r.below(9));
		}
		// a size, preferably near multiples of the block size
		uint64_t size(uint64_t max)
		{
			switch (r.below(8)) {
				case 0: return r.below(4);
				case 1: return r.below(B);
				case 2:
				case 3: {
					uint64_t n = r.below(max / B + 1) * B;
					return n > max ? max : n;
				}
				case 4: {
					uint64_t n = (1 + r.below(max / B + 1)) * B + r.below(5) - 2;
					return n > max ? max : n;
				}
				default: return r.below(max + 1);
			}
		}
		Item& fl(Item& o)
		{
			if (faults && r.chance(1, 3)) {
				o.set("fa", r.chance(1, 2) ? r.range(1, 2) : r.logu(1, 20));
				if (r.chance(1, 3))
					o.set("fl", r.logu(1, 20));
			}
			else if (efaults && r.chance(1, 4))
				o.set("ft", r.chance(1, 3) ? r.range(1, 3) : r.logu(1, 1500));
			return o;
		}
		Item& op(const char* n, uint64_t s)
		{
			Item& o = p.op(n);
			o.set("s", s).set("a", r.next() >> 20).set("b", r.next() >> 20).set("x", r.next() >> 24);
			if (!sparse && r.chance(1, 4))
				o.set("chk", r.range(1, 9));
			return o;
		}
		uint64_t room(uint64_t s)
		{
			return est[s] >= cap ? 0 : cap - est[s];
		}
		void mutate(uint64_t s)
		{
			uint64_t n;
			switch (r.below(20)) {
				case 0:
				case 1:
				case 2:
				case 3:
					n = 1 + r.below(r.chance(1, 3) ? 4 : 2 * B);
					if (!room(s))
						n = 1;
					fl(op("pb", s)).set("n", n);
					est[s] += n;
					break;
				case 4:
					fl(op("pbs", s));
					++est[s];
					break;
				case 5:
				case 6:
					n = 1 + r.below(r.chance(1, 3) ? 4 : 2 * B);
					fl(op("pop", s)).set("n", n);
					est[s] -= n > est[s] ? est[s] : n;
					break;
				case 7:
				case 8:
					fl(op("ins", s));
					++est[s];
					break;
				case 9:
				case 10:
					n = r.chance(1, 3) ? r.below(4) : r.below(room(s) / 3 + 1);
					fl(op("insr", s)).set("n", n);
					est[s] += n;
					break;
				case 11: fl(op("er", s)); break;
				case 12:
				case 13: fl(op("err", s)).set("n", r.chance(1, 2) ? 0 : r.below(3 * B) + 1); break;
				case 14:
				case 15:
					n = size(cap);
					fl(op(r.chance(1, 2) || !copy ? "rs" : "rsv", s)).set("n", n);
					est[s] = n;
					break;
				case 16:
					n = size(cap / 2);
					fl(op("as", s)).set("n", n);
					est[s] = n;
					break;
				case 17:
					if (r.chance(1, 2)) {
						fl(op("clr", s));
						est[s] = 0;
					}
					break;
				default: fl(op("stf", s)); break;
			}
		}
		void inplace(uint64_t s)
		{
			switch (r.below(20)) {
				case 0:
				case 1:
				case 2: fl(op("wr", s)); break;
				case 3: fl(op("wrr", s)); break;
				case 4: fl(op("mvr", s)); break;
				case 5:
				case 6: fl(op("swr", s)); break;
				case 7: fl(op("fill", s)); break;
				case 8: fl(op("sort", s)).set("n", r.logu(2, 700)); break;
				case 9: fl(op("rev", s)).set("n", r.logu(2, 1500)); break;
				case 10: fl(op("rot", s)).set("n", r.logu(2, 700)); break;
				case 11:
				case 12:
				case 13: visit(s, r.chance(1, 2) ? "fe" : "feb"); break;
				case 14: visit(s, r.chance(1, 2) ? "cfe" : "cfb"); break;
				case 15: fl(op("rd", s)).set("n", r.range(1, 60)); break;
				case 16: op("alg", s); break;
				case 17: fl(op("it", s)).set("n", r.range(3, 50)); break;
				case 18: op("mf", s); break;
				default: fl(op("stf", s)); break;
			}
		}
		void visit(uint64_t s, const char* n)
		{
			Item& o = fl(op(n, s));
			if (r.chance(1, 2))
				o.set("n", r.logu(1, 1500));
			if (r.chance(1, 4))
				o.set("stop", r.logu(1, 1200));
			else if (r.chance(1, 6))
				o.set("thr", r.logu(1, 1200));
		}
		void whole(uint64_t s)
		{
			static const char* const n[] = { "cpc", "cpa", "mvc", "mva", "swp", "cpa", "ctor", "ctor" };
			const char* k = n[r.below(8)];
			uint64_t d = r.below(3);
			Item& o = fl(op(k, s));
			o.set("d", d);
			if (!strcmp(k, "ctor")) {
				uint64_t c = size(cap / 2);
				o.set("n", c);
				est[s] = c;
			}
			else if (k[0] == 'c')
				est[d] = est[s];
			else if (d != s) {
				uint64_t t = est[d];
				est[d] = est[s];
				est[s] = k[0] == 's' ? t : 0;
			}
		}
		void start(uint64_t s, uint64_t max)
		{
			uint64_t n = size(max);
			Item& o = op(r.chance(1, 2) ? "pb" : copy ? "as" : "rs", s);
			o.set("n", n ? n : 1);
			est[s] = n;
			if (r.chance(1, 3))
				op("stf", s);
		}
		void serop(uint64_t s, const char* n)
		{
			Item& o = fl(op(n, s));
			o.set("d", r.chance(1, 6) ? s : r.below(3)).set("how", r.below(4)).set("dhow", r.below(4));
			static const uint64_t ch[] = { 1, 3, 7, 64, 300, 1000, 5000, 100000 };
			o.set("chunk", r.pick(ch));
			if (n[0] == 's' && r.chance(1, 3))
				o.set("lim", r.next() >> 20);
			if (n[0] == 'd') {
				o.set("dmg", r.chance(1, 2) ? 0 : r.below(3)).set("next", r.below(4)).set("n", r.chance(1, 2) ? r.below(8) : r.below(700));
				o.set("x", r.next());
			}
			if (o.get("d") != s)
				est[o.get("d")] = est[s];
		}
		void hold(uint64_t s)
		{
			switch (r.below(6)) {
				case 0:
				case 1: op("hold", s); break;
				case 2: op("drop", s); break;
				case 3: fl(op("hw", s)); break;
				default: inplace(s); break;
			}
		}
		uint64_t any_cfg()
		{
			static const uint64_t c[] = { 0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8 };
			return r.pick(c);
		}

		void sequential(uint64_t kind) // 14, 15, 18, 19, 20, 12
		{
			static const uint64_t tr[] = { 2, 2, 4, 5 };
			static const uint64_t tv[] = { 0, 1, 3, 6, 7, 8 };
			if (kind == 15)
				config(r.pick(tr));
			else if (kind == 18 || kind == 19)
				config(r.pick(tv));
			else
				config(any_cfg());
			cap = B * (r.chance(1, 4) ? 12 : 6);
			if (g_scale)
				cap *= 2;
			faults = r.chance(kind == 15 || kind == 12 ? 2 : 1, 3);
			efaults = !trivial && r.chance(kind == 15 ? 2 : 1, 3);
			if (kind == 18 || kind == 19)
				faults = r.chance(1, 5);
			uint64_t slots = kind == 20 ? 1 : r.range(1, 3);
			uint64_t n = kind == 18 || kind == 19 ? r.range(3, 14) : r.range(5, g_scale ? 90 : 45);
			for (uint64_t s = 0; s < slots; ++s)
				if (r.chance(3, 4) || kind == 20)
					start(s, cap / 2);
			for (uint64_t i = 0; i < n; ++i) {
				uint64_t s = r.below(slots);
				if (kind == 20) {
					hold(s);
					if (r.chance(1, 30))
						mutate(s);
				}
				else if (kind == 12 && r.chance(1, 6))
					serop(s, r.chance(1, 2) ? "ser" : "des");
				else if ((kind == 18 || kind == 19) && r.chance(1, 2))
					serop(s, kind == 18 ? "ser" : "des");
				else if (r.chance(1, 10))
					whole(s);
				else if (r.chance(1, 12))
					hold(s);
				else if (r.chance(1, 2))
					inplace(s);
				else
					mutate(s);
			}
			if (kind == 18)
				serop(0, "ser");
			if (kind == 19)
				serop(0, "des");
		}

		void memory() // 25: many blocks, few of them decompressed
		{
			static const uint64_t c[] = { 0, 0, 1, 1, 2, 3, 4, 5, 7 }, vk[] = { 0, 1, 3 };
			config(r.pick(c));
			p.knobs.set("memck", 1).set("vk", r.pick(vk)).set("endchk", 1 + r.below(3));
			sparse = true;
			cap = B * r.range(20, 32);
			faults = r.chance(1, 4);
			efaults = !trivial && r.chance(1, 4);
			op("rs", 0).set("n", est[0] = cap - r.below(B * 3));
			if (r.chance(1, 2))
				op("pb", 0).set("n", B);
			uint64_t n = r.range(4, g_scale ? 40 : 16);
			bool hd = r.chance(1, 2);
			for (uint64_t i = 0; i < n; ++i) {
				switch (r.below(14)) {
					case 0:
					case 1: fl(op("rd", 0)).set("n", r.range(20, 60)); break;
					case 2: fl(op("it", 0)).set("n", r.range(20, 60)); break;
					case 3: {
						static const char* const k[] = { "fe", "feb", "cfe", "cfb" };
						Item& o = fl(op(k[r.below(4)], 0));
						o.set("a", r.chance(1, 2) ? 0 : r.next() >> 20).set("b", r.next() >> 20).set("n", r.range(1000, 10000));
						if (r.chance(1, 4))
							o.set("thr", r.logu(1, 9000));
					} break;
					case 4:
					case 5:
						for (uint64_t q = r.range(1, 9); q--;)
							fl(op(r.chance(1, 2) ? "wr" : "swr", 0));
						break;
					case 6:
						if (hd)
							op(r.chance(1, 2) ? "hold" : "drop", 0);
						break;
					case 7:
						if (hd)
							for (uint64_t q = r.range(1, 6); q--;)
								op("hold", 0);
						break;
					case 8:
						if (trivial)
							serop(0, r.chance(1, 2) ? "ser" : "des"), p.ops.back().set("d", 0);
						break;
					case 9: fl(op("stf", 0)); break;
					case 10: fl(op("wrr", 0)); break;
					case 11: op("mf", 0); break;
					default: mutate(0); break;
				}
			}
		}

		void concurrent(uint64_t kind) // 16, 17, 20, 25, 4
		{
			static const uint64_t c[] = { 0, 1, 2, 3, 4, 5, 7, 2, 1 };
			config(r.pick(c));
			p.knobs.set("conc", 1);
			uint64_t sz = 1 + size(B * (r.chance(1, 3) ? 9 : 4));
			if (kind == 25) {
				sz = B * r.range(20, 28) + r.below(B);
				p.knobs.set("memck", 1);
				sparse = true;
			}
			p.knobs.set("size", sz).set("prep", kind == 25 ? 8 + r.below(8) : r.below(512));
			if (r.chance(2, 3))
				p.knobs.set("prep", p.knobs.get("prep") | 1);
			uint64_t nc = r.range(2, 4), n = r.range(nc, nc * (g_scale ? 10 : 5));
			p.knobs.set("clients", nc);
			bool flt = r.chance(1, 3);
			bool readers = r.chance(1, 2);
			bool narrow = r.chance(1, 2); // all clients on few elements
			uint64_t centre = r.next() >> 20;
			for (uint64_t i = 0; i < n; ++i) {
				static const char* const rd[] = { "rd", "rd", "scan", "rscan", "it", "mf", "cfe", "cfb" };
				static const char* const hl[] = { "hold", "use", "use", "drop", "rd", "scan", "rd", "it", "cfe", "hold" };
				static const char* const wr[] = { "fe", "feb", "fe", "feb", "fe", "cfe", "cfb" };
				static const char* const mr[] = { "rd", "scan", "rscan", "it", "cfe", "cfb", "mf", "scan" }; // either readers or visitors
				static const char* const mw[] = { "fe", "feb", "fe", "feb", "cfe", "cfb", "fe", "feb" };
				const char* k = kind == 25 ? (readers ? mr : mw)[r.below(8)] : kind == 20 ? hl[r.below(10)] : kind == 17 ? wr[r.below(7)] : rd[r.below(8)];
				Item& o = p.op(k);
				o.set("c", r.below(nc)).set("a", narrow ? centre % sz + r.below(3) : r.next() >> 20).set("b", r.next() >> 20).set("x", r.next() >> 24);
				o.set("n", k[0] == 'r' && k[1] == 'd' ? r.range(1, 20) : narrow ? r.range(1, 8) : r.logu(1, 900));
				if (kind == 25)
					o.set("n", k[0] == 'r' || k[0] == 'i' ? r.range(5, 20) : r.logu(100, 2500)).set("a", r.next() >> 20);
				if (k[0] == 'f' || k[0] == 'c') {
					if (r.chance(1, 4))
						o.set("stop", r.logu(1, 600));
					else if (r.chance(1, 6))
						o.set("thr", r.logu(1, 600));
				}
				if (flt && r.chance(1, 2))
					o.set("fa", r.range(1, 3)).set("fl", r.range(1, 3));
			}
		}
	};
}

void gen_cvec(Plan& p, Rng& r)
{
	CG g(p, r);
	uint64_t k = strtoull(p.prop.c_str() + 1, nullptr, 10);
	switch (k) {
		case 16:
		case 17: g.concurrent(k); break;
		case 4: g.concurrent(r.chance(1, 2) ? 16 : 17); break;
		case 25:
			if (r.chance(1, 4))
				g.concurrent(k);
			else
				g.memory();
			break;
		case 20:
			if (r.chance(1, 2))
				g.concurrent(k);
			else
				g.sequential(k);
			break;
		default: g.sequential(k); break;
	}
}
