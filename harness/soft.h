// Included first: a processor without instructions for half floats.
#pragma once
#if defined(__x86_64__) || defined(__i386__)
#include <cpuid.h>
static inline int cpuidWithoutF16c(unsigned int level, unsigned int* a, unsigned int* b, unsigned int* c, unsigned int* d)
{
	int r = __get_cpuid(level, a, b, c, d);
	if (level == 1)
		*c &= ~(1U << 29);
	return r;
}
#define __get_cpuid cpuidWithoutF16c
#endif
