#include "datagen.h"
#include "plan.h"

static void fill_lanes(uint8_t* p, size_t n, size_t bt, Rng& r, unsigned change)
{
	// every byte lane has its own behaviour, chosen anew from time to time (per 256 elements)
	struct Lane
	{
		unsigned kind;
		uint8_t a, b, cur;
		unsigned run;
	};
	std::vector<Lane> l(bt);
	size_t ne = n / bt;
	unsigned global = (unsigned)r.below(12);
	for (size_t e = 0; e < ne; ++e) {
		if (e % 256 == 0)
			for (size_t j = 0; j < bt; ++j)
				if (e == 0 || r.below(change) == 0) {
					l[j].kind = r.chance(1, 4) ? global : (unsigned)r.below(12);
					l[j].a = (uint8_t)r.next();
					l[j].b = (uint8_t)(1u << r.below(8));
					l[j].cur = (uint8_t)r.next();
					l[j].run = 0;
				}
		for (size_t j = 0; j < bt; ++j) {
			Lane& L = l[j];
			uint8_t v = 0;
			switch (L.kind) {
				case 0: v = L.a; break;			                          // constant
				case 1: v = (uint8_t)r.next(); break;                                    // random
				case 2: v = (uint8_t)(L.a + (r.next() & (uint8_t)(L.b - 1))); break;      // few bits around a base
				case 3: v = (uint8_t)(L.cur += (uint8_t)(L.a & 3)); break;	          // counter
				case 4:
					if (!L.run)
						L.run = 1 + (unsigned)r.below(40), L.cur = (uint8_t)r.next();
					--L.run;
					v = L.cur;
					break;                                                            // runs
				case 5: v = r.below(20) ? L.a : (uint8_t)r.next(); break;                 // outliers
				case 6: v = (uint8_t)(L.cur += (uint8_t)(r.below(5)) - 2); break;         // walk
				case 7: v = (e & 1) ? L.a : L.b; break;                                   // alternate
				case 8: v = (uint8_t)(L.a + (e >> 5)); break;                             // slow counter
				case 9: v = (uint8_t)(e % 16 == 0 ? (L.cur = (uint8_t)r.next()) : L.cur); break;
				case 10: v = (uint8_t)(L.cur += (uint8_t)((r.next() & (L.b - 1)))); break; // delta of few bits
				default: v = (uint8_t)((e * L.a) >> 3); break;
			}
			p[e * bt + j] = v;
		}
	}
	for (size_t i = ne * bt; i < n; ++i)
		p[i] = (uint8_t)r.next();
}

static void put_int(uint8_t* p, size_t bt, uint64_t v, bool be)
{
	for (size_t j = 0; j < bt; ++j) {
		uint8_t b = j < 8 ? (uint8_t)(v >> (8 * j)) : (uint8_t)(v >> (8 * (j & 7)));
		p[be ? bt - 1 - j : j] = b;
	}
}

void gen_data(uint8_t* p, size_t n, size_t bt, unsigned kind, uint64_t seed)
{
	Rng r(mix64(seed, kind + 77));
	size_t ne = n / bt;
	memset(p, 0, n);
	switch (kind) {
		case 0: break;
		case 1: memset(p, (int)r.next(), n); break;
		case 2:
			for (size_t i = 0; i < n; ++i)
				p[i] = (uint8_t)r.next();
			break;
		case 3: { // counter with stride
			uint64_t v = r.next(), s = r.chance(1, 2) ? r.below(4) : r.logu(1, 1u << 20);
			bool be = r.chance(1, 4);
			for (size_t e = 0; e < ne; ++e, v += s)
				put_int(p + e * bt, bt, v, be);
		} break;
		case 4: { // small range
			uint64_t m = (1ull << r.below(40)) | 1;
			for (size_t e = 0; e < ne; ++e)
				put_int(p + e * bt, bt, r.below(m), false);
		} break;
		case 5: fill_lanes(p, n, bt, r, 1); break;
		case 6: fill_lanes(p, n, bt, r, 4); break;
		case 7: { // copies of earlier parts
			size_t i = 0;
			unsigned lit = 1 + (unsigned)r.below(64);
			while (i < n) {
				size_t k = 1 + r.below(lit);
				while (k-- && i < n)
					p[i++] = (uint8_t)r.next();
				if (i > 8 && i < n) {
					size_t off = 1 + r.below(r.chance(1, 2) ? (i < 64 ? i : 64) : i), len = 1 + r.below(300);
					if (off > i)
						off = i;
					for (; len-- && i < n; ++i)
						p[i] = p[i - off];
				}
			}
		} break;
		case 8: { // random walk
			uint64_t v = r.next(), m = r.logu(2, 1u << 18);
			for (size_t e = 0; e < ne; ++e) {
				v += r.below(m) - m / 2;
				put_int(p + e * bt, bt, v, false);
			}
		} break;
		case 9: { // sparse
			unsigned d = 2 + (unsigned)r.below(200);
			for (size_t i = 0; i < n; ++i)
				if (r.below(d) == 0)
					p[i] = (uint8_t)r.next();
		} break;
		case 10: { // sorted, irregular increments
			uint64_t v = 0, m = r.logu(1, 1u << 24);
			for (size_t e = 0; e < ne; ++e) {
				v += r.below(m + 1);
				put_int(p + e * bt, bt, v, r.chance(0, 1));
			}
		} break;
		case 11: { // text like
			static const char* w[] = { "the ", "compress ", "block ", "of ", "data ", "0.001", "1234, ", "\n", "stenos ", "vector " };
			size_t i = 0;
			while (i < n)
				for (const char* s = w[r.below(10)]; *s && i < n; ++s)
					p[i++] = (uint8_t)*s;
		} break;
		case 12: { // periodic
			size_t per = 1 + r.below(r.chance(1, 2) ? 40 : 700);
			for (size_t i = 0; i < n; ++i)
				p[i] = i < per ? (uint8_t)r.next() : p[i - per];
			if (r.chance(1, 2))
				for (size_t k = 0; k < n / 100; ++k)
					p[r.below(n)] ^= 1u << r.below(8);
		} break;
		case 13: { // elements repeated from a small dictionary
			size_t nd = 1 + r.below(30);
			std::vector<uint8_t> d(nd * bt);
			for (auto& c : d)
				c = (uint8_t)r.next();
			size_t e = 0;
			while (e < ne) {
				size_t k = r.below(nd), rep = r.chance(1, 3) ? 1 + r.below(20) : 1;
				for (; rep-- && e < ne; ++e)
					memcpy(p + e * bt, d.data() + k * bt, bt);
			}
		} break;
		case 14: { // floating point like: smooth high part, noisy low part
			double v = (double)r.below(1000), s = (double)r.below(1000) / 1000.;
			for (size_t e = 0; e < ne; ++e) {
				v += s * ((double)r.below(1000) / 500. - 1.);
				uint64_t u;
				if (bt == 4) {
					float f = (float)v;
					uint32_t q;
					memcpy(&q, &f, 4);
					u = q;
				}
				else
					memcpy(&u, &v, 8);
				put_int(p + e * bt, bt, u, false);
			}
		} break;
		case 16: { // words of a small dictionary, rare words coming back at any distance
			static const unsigned ws[] = { 4, 4, 4, 8, 3, 6 };
			unsigned w = ws[r.below(6)];
			size_t nd = 1 + r.below(r.chance(1, 2) ? 12 : 60), nw = n / w;
			uint8_t base = (uint8_t)r.next();
			std::vector<uint8_t> d(nd * w);
			for (size_t k = 0; k < nd; ++k) {
				for (unsigned j = 0; j < w; ++j)
					d[k * w + j] = (uint8_t)r.next();
				d[k * w] = (uint8_t)(base + k); // distinct low bytes
			}
			unsigned rare = 8 + (unsigned)r.below(r.chance(1, 2) ? 60 : 2000);
			uint8_t lo = (uint8_t)(base + nd + 1);
			std::vector<size_t> fresh;
			size_t maxfresh = r.logu(1, 100);
			for (size_t i = 0; i < nw; ++i) {
				uint8_t* q = p + i * w;
				if (i > 4 && r.below(rare) == 0) {
					if (r.chance(1, 3)) { // a new word
						for (unsigned j = 0; j < w; ++j)
							q[j] = (uint8_t)r.next();
						if (r.chance(3, 4))
							q[0] = lo++;
						fresh.push_back(i);
						if (fresh.size() > maxfresh)
							fresh.erase(fresh.begin());
					}
					else { // an earlier new word, or whatever lies at some distance
						size_t at = i - r.logu(1, i < 70000 ? i : 70000);
						if (!fresh.empty() && r.chance(3, 4))
							at = fresh[r.chance(1, 2) ? r.below(fresh.size()) : 0];
						memcpy(q, p + at * w, w);
						if (r.chance(1, 4))
							fresh.push_back(i);
					}
				}
				else
					memcpy(q, d.data() + r.below(nd) * w, w);
			}
			for (size_t i = nw * w; i < n; ++i)
				p[i] = (uint8_t)r.next();
		} break;
		default: { // segments of other kinds
			size_t e = 0;
			while (e < ne) {
				size_t k = 1 + r.below(r.chance(1, 2) ? 600 : 4000);
				if (k > ne - e)
					k = ne - e;
				gen_data(p + e * bt, k * bt, bt, [&] { unsigned q = (unsigned)r.below(16); return q == 15 ? 16u : q; }(), r.next());
				e += k;
			}
		} break;
	}
}
