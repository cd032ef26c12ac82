// Plan: everything that defines one simulated run (workload, knobs, faults, schedule).
// One PRNG seed generates a plan; a plan is also the replay file format (text lines).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <deque>
#include <vector>

struct Item // "name k=v k=v ..."
{
	std::string name;
	std::vector<std::pair<std::string, uint64_t>> args;
	uint64_t get(const char* k, uint64_t d = 0) const
	{
		for (auto& a : args)
			if (a.first == k)
				return a.second;
		return d;
	}
	bool has(const char* k) const
	{
		for (auto& a : args)
			if (a.first == k)
				return true;
		return false;
	}
	Item& set(const char* k, uint64_t v)
	{
		for (auto& a : args)
			if (a.first == k) {
				a.second = v;
				return *this;
			}
		args.emplace_back(k, v);
		return *this;
	}
};

struct Decision
{
	char type;   // 's' switch at scheduling step, 'p' preemption at plain access, 'w' waiter choice, 'u' spurious wakeup
	uint64_t at; // step (s,w,u) or access counter (p)
	uint32_t val;
};

struct Plan
{
	std::string prop;
	Item knobs;
	std::deque<Item> ops;
	std::vector<Item> faults;
	bool explicit_sched = false;
	std::vector<Decision> sched;
	uint64_t seed = 0;

	uint64_t knob(const char* k, uint64_t d = 0) const { return knobs.get(k, d); }
	Item& op(const char* n)
	{
		ops.emplace_back();
		ops.back().name = n;
		ops.back().set("id", ops.size());
		return ops.back();
	}
	Item& fault(const char* n)
	{
		faults.emplace_back();
		faults.back().name = n;
		return faults.back();
	}

	static void put(std::string& s, const char* tag, const Item& i)
	{
		s += tag;
		s += ' ';
		s += i.name;
		for (auto& a : i.args)
			s += ' ' + a.first + '=' + std::to_string(a.second);
		s += '\n';
	}
	std::string str() const
	{
		std::string s = "prop " + prop + "\nseed " + std::to_string(seed) + "\n";
		for (auto& a : knobs.args)
			s += "knob " + a.first + "=" + std::to_string(a.second) + "\n";
		for (auto& o : ops)
			put(s, "op", o);
		for (auto& o : faults)
			put(s, "fault", o);
		if (explicit_sched) {
			s += "schedule explicit\n";
			for (auto& d : sched)
				s += std::string("at ") + d.type + " " + std::to_string(d.at) + " " + std::to_string(d.val) + "\n";
		}
		return s;
	}
	bool parse(const std::string& text)
	{
		size_t p = 0;
		while (p < text.size()) {
			size_t e = text.find('\n', p);
			if (e == std::string::npos)
				e = text.size();
			std::string line = text.substr(p, e - p);
			p = e + 1;
			std::vector<std::string> t;
			size_t q = 0;
			while (q < line.size()) {
				size_t f = line.find(' ', q);
				if (f == std::string::npos)
					f = line.size();
				if (f > q)
					t.push_back(line.substr(q, f - q));
				q = f + 1;
			}
			if (t.empty() || t[0][0] == '#')
				continue;
			if (t[0] == "prop" && t.size() > 1)
				prop = t[1];
			else if (t[0] == "seed" && t.size() > 1)
				seed = strtoull(t[1].c_str(), nullptr, 10);
			else if (t[0] == "schedule")
				explicit_sched = true;
			else if (t[0] == "at" && t.size() == 4)
				sched.push_back(Decision{ t[1][0], strtoull(t[2].c_str(), nullptr, 10), (uint32_t)strtoul(t[3].c_str(), nullptr, 10) });
			else if (t[0] == "knob" || t[0] == "op" || t[0] == "fault") {
				Item* it = nullptr;
				size_t i = 1;
				if (t[0] == "knob")
					it = &knobs;
				else {
					if (t.size() < 2)
						return false;
					bool isop = t[0] == "op";
					if (isop) {
						ops.emplace_back();
						it = &ops.back();
					}
					else {
						faults.emplace_back();
						it = &faults.back();
					}
					it->name = t[1];
					i = 2;
				}
				for (; i < t.size(); ++i) {
					size_t eq = t[i].find('=');
					if (eq == std::string::npos)
						return false;
					it->set(t[i].substr(0, eq).c_str(), strtoull(t[i].c_str() + eq + 1, nullptr, 10));
				}
			}
		}
		return !prop.empty();
	}
};

// splitmix64 / xorshift based PRNG: the only source of randomness
struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed = 1)
	  : s(seed)
	{
	}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); } // inclusive
	bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
	template<size_t N>
	uint64_t pick(const uint64_t (&v)[N])
	{
		return v[below(N)];
	}
	// log-uniform in [a,b]
	uint64_t logu(uint64_t a, uint64_t b)
	{
		if (a >= b)
			return a;
		int la = 63 - __builtin_clzll(a | 1), lb = 63 - __builtin_clzll(b | 1);
		for (;;) {
			int l = (int)range((uint64_t)la, (uint64_t)lb);
			uint64_t v = (1ull << l) | below(1ull << l);
			if (v >= a && v <= b)
				return v;
		}
	}
};
static inline uint64_t mix64(uint64_t a, uint64_t b)
{
	Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xD6E8FEB86659FD93ull);
	r.next();
	return r.next();
}
