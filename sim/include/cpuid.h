// Replaces the compiler's <cpuid.h> for the simulated node: the simulator decides the CPU features.
#pragma once
#pragma GCC system_header
#ifdef __cplusplus
extern "C"
#endif
void sim_cpuid(unsigned leaf, unsigned sub, unsigned* out);
#define __cpuid_count(l, s, a, b, c, d)                                                                                                                                                               \
	do {                                                                                                                                                                                           \
		unsigned r_[4];                                                                                                                                                                        \
		sim_cpuid((unsigned)(l), (unsigned)(s), r_);                                                                                                                                           \
		(a) = r_[0];                                                                                                                                                                           \
		(b) = r_[1];                                                                                                                                                                           \
		(c) = r_[2];                                                                                                                                                                           \
		(d) = r_[3];                                                                                                                                                                           \
	} while (0)
#define __cpuid(l, a, b, c, d) __cpuid_count(l, 0, a, b, c, d)
static inline unsigned __get_cpuid_max(unsigned e, unsigned* s)
{
	unsigned r[4];
	sim_cpuid(e, 0, r);
	if (s)
		*s = r[1];
	return r[0];
}
static inline int __get_cpuid_count(unsigned l, unsigned s, unsigned* a, unsigned* b, unsigned* c, unsigned* d)
{
	if (__get_cpuid_max(l & 0x80000000u, 0) < l)
		return 0;
	__cpuid_count(l, s, *a, *b, *c, *d);
	return 1;
}
static inline int __get_cpuid(unsigned l, unsigned* a, unsigned* b, unsigned* c, unsigned* d) { return __get_cpuid_count(l, 0, a, b, c, d); }
