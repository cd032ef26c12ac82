// Input data of the simulated clients: deterministic function of (kind, seed, element size, length).
#pragma once
#include <stddef.h>
#include <stdint.h>
void gen_data(uint8_t* p, size_t n, size_t bt, unsigned kind, uint64_t seed);
static const unsigned NKINDS = 17;
