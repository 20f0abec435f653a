// Reference random streams: the generators of the standard library, exactly as
// the documentation of KMCControlParameters defines the supported rng types.
#include <random>
#include <cstdint>

template <class G> static void fill(int seed, double * out, int64_t n)
{
    G g;
    g.seed(seed);
    for (int64_t i = 0; i < n; ++i) { out[i] = std::generate_canonical<double, 32>(g); }
}

extern "C" int simref_draws(int type, int seed, double * out, int64_t n)
{
    switch (type)
    {
    case 0: fill<std::mt19937>(seed, out, n); return 0;
    case 1: fill<std::minstd_rand>(seed, out, n); return 0;
    case 2: fill<std::ranlux24>(seed, out, n); return 0;
    case 3: fill<std::ranlux48>(seed, out, n); return 0;
    default: return -1;
    }
}
