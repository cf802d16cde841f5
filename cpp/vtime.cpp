// The code under test seeds its random number generators from time(0) (or from a constant when
// FIXED_RNG_SEED is defined).  This definition takes the place of libc's time() in the harness
// executables, so that the seed is an input of the case: VERIF_RNG_SEED, with the project's own
// constant as the default.
#include <stdlib.h>
#include <time.h>
extern "C" time_t time(time_t* t) noexcept
{
	const char* s = getenv("VERIF_RNG_SEED");
	time_t v = s ? (time_t)atoll(s) : (time_t)1234567890;
	if (t) *t = v;
	return v;
}
