// Simulation seam for the uniform random source of KMCLib.
//
// The backend is linked with  -Wl,--wrap=_Z14randomDouble01v  so that every
// reference to randomDouble01() in the backend ends up here, while the real
// generator stays reachable as __real__Z14randomDouble01v.  The simulator
// decides, through the C functions below (called with ctypes), where a draw
// comes from (script, real generator, simulator generator), records every
// draw, bounds their number, and can deliver a signal at a given draw.
#include <vector>
#include <cstdint>
#include <cstddef>
#include <signal.h>
#include <unistd.h>

extern "C" double __real__Z14randomDouble01v();

namespace {
std::vector<double> g_script;   // scripted draws, used first
size_t g_script_pos = 0;
std::vector<double> g_log;      // every draw handed out
bool g_record = true;
// After the script: 0 real generator, 1 simulator generator, 2 simulator
// generator biased towards the ends of its range, 3 script only (0.5 after).
int g_tail_mode = 0;
uint64_t g_state = 0;
int64_t g_total = 0;            // draws handed out since the last reset
int64_t g_budget = -1;          // at most this many, then the process ends
int64_t g_signal_at = -1;       // raise SIGINT at this draw
int64_t g_biased = 0;

uint64_t splitmix()
{
    uint64_t z = (g_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

double lattice() { return static_cast<double>(splitmix() >> 32) * (1.0 / 4294967296.0); }
}

extern "C" {

void kmcsim_rng_reset()
{
    g_script.clear();
    g_script_pos = 0;
    g_log.clear();
    g_tail_mode = 0;
    g_record = true;
    g_total = 0;
    g_budget = -1;
    g_signal_at = -1;
    g_biased = 0;
}

void kmcsim_rng_script(const double * values, int64_t n)
{
    g_script.assign(values, values + n);
    g_script_pos = 0;
}

void kmcsim_rng_tail(int mode, uint64_t state)
{
    g_tail_mode = mode;
    g_state = state;
}

int kmcsim_rng_tail_mode() { return g_tail_mode; }
uint64_t kmcsim_rng_tail_state() { return g_state; }

void kmcsim_rng_record(int on) { g_record = (on != 0); }
void kmcsim_rng_budget(int64_t n) { g_budget = n; }
void kmcsim_rng_signal_at(int64_t n) { g_signal_at = n; }

int64_t kmcsim_rng_total() { return g_total; }
int64_t kmcsim_rng_biased() { return g_biased; }
int64_t kmcsim_rng_count() { return static_cast<int64_t>(g_log.size()); }
int64_t kmcsim_rng_script_left() { return static_cast<int64_t>(g_script.size() - g_script_pos); }

void kmcsim_rng_log(double * out, int64_t from, int64_t n)
{
    for (int64_t i = 0; i < n; ++i) { out[i] = g_log[static_cast<size_t>(from + i)]; }
}

double __wrap__Z14randomDouble01v()
{
    double v;
    if (g_script_pos < g_script.size())
    {
        v = g_script[g_script_pos++];
    }
    else if (g_tail_mode == 1)
    {
        // The same set of values std::generate_canonical<double,32> has over a 32 bit generator.
        v = lattice();
    }
    else if (g_tail_mode == 2)
    {
        const uint64_t r = splitmix();
        if ((r & 7) < 3)
        {
            ++g_biased;
            const double ulp = 1.0 / 4294967296.0;
            switch ((r >> 8) % 8)
            {
            case 0:  v = 0.0; break;
            case 1:  v = ulp; break;
            case 2:  v = 1.0 - ulp; break;
            case 3:  v = 0.5; break;
            case 4:  v = 0.25 * static_cast<double>((r >> 16) & 3); break;
            case 5:  v = 0.125 * static_cast<double>((r >> 16) & 7); break;
            case 6:  v = ulp * static_cast<double>((r >> 16) & 1023); break;
            default: v = 1.0 - ulp * static_cast<double>(1 + ((r >> 16) & 1023)); break;
            }
        }
        else
        {
            v = lattice();
        }
    }
    else if (g_tail_mode == 3)
    {
        v = 0.5;
    }
    else
    {
        v = __real__Z14randomDouble01v();
    }
    if (g_record) { g_log.push_back(v); }
    if (g_total == g_signal_at) { raise(SIGINT); }
    ++g_total;
    if (g_budget >= 0 && g_total > g_budget) { _exit(77); }
    return v;
}

}
