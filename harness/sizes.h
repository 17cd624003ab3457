#pragma once
#include "../engine/mc.h"
// Sizes at which code that keeps counts in narrow types, fixed buffers or fixed tables goes wrong:
// every size up to 66 and every one around a power of two or a round number.
static std::vector<unsigned> sizesUpTo(unsigned max)
{
	static const unsigned round_[] = { 70, 75, 80, 90, 96, 100, 120, 127, 128, 150, 180, 200, 250, 255, 256, 300, 400, 500, 511, 512, 600, 700, 750, 800, 900, 1000, 1023, 1024, 1200, 1400, 1500, 1600, 2000, 2047, 2048, 2500, 3000, 4000, 4095, 4096, 5000, 6000, 8000, 8191, 8192, 10000, 12000, 16000, 16383, 16384, 20000, 30000, 32000, 32767, 32768, 40000, 50000, 60000, 65534, 65535, 65536, 70000, 100000, 131071, 131072 };
	std::vector<unsigned> v; for (unsigned i = 0; i <= 66; i++) v.push_back(i);
	for (unsigned r : round_) for (unsigned n : { r - 1, r, r + 1 }) if (n > v.back()) v.push_back(n);
	while (v.size() && v.back() > max) v.pop_back();
	return v;
}
static unsigned chooseSize(unsigned max, unsigned extra = 0) { std::vector<unsigned> v = sizesUpTo(max); if (extra) v.push_back(extra); unsigned n = v[mc::choose(v.size(), "size")]; mc::note("size %u", n); return n; }
