// Interposes the clocks and std::random_device of the process: the code under test sees virtual
// time and reproducible randomness.  No change of /repo is needed for this.
#include "common.h"

#include <dlfcn.h>
#include <random>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace vf
{
int64_t gNowUs = 0;
bool gRealClock = false;
uint64_t gRandState = 0x853c49e6748fea9bULL;
uint64_t gForcedRandom = 0;

uint32_t nextRandom()
{
    gRandState ^= gRandState << 13;
    gRandState ^= gRandState >> 7;
    gRandState ^= gRandState << 17;
    return static_cast<uint32_t>(gRandState >> 16);
}

static int64_t realNs(clockid_t id)
{
    struct timespec ts;
    syscall(SYS_clock_gettime, id, &ts);
    return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}

FILE* gTrace = nullptr;
void emit(const J& j)
{
    const auto s = j.done();
    fputs(s.c_str(), gTrace);
    fputc('\n', gTrace);
    fflush(gTrace);
}

int runDriver(int argc, char** argv, const Handler& handler)
{
    if (argc < 3) {
        fprintf(stderr, "usage: driver SCRIPT TRACE\n");
        return 2;
    }
    FILE* f = fopen(argv[1], "r");
    gTrace = fopen(argv[2], "w");
    if (!f || !gTrace) {
        fprintf(stderr, "cannot open files\n");
        return 2;
    }
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        Op op;
        char* save = nullptr;
        for (char* t = strtok_r(line, " \t\r\n", &save); t; t = strtok_r(nullptr, " \t\r\n", &save)) {
            if (op.name.empty())
                op.name = t;
            else
                op.args.emplace_back(t);
        }
        if (op.name.empty() || op.name[0] == '#')
            continue;
        handler(op);
    }
    free(line);
    Op end;
    end.name = "end";
    handler(end);
    fclose(gTrace);
    return 0;
}
} // namespace vf

namespace std
{
namespace chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
    if (vf::gRealClock)
        return time_point(duration(vf::realNs(CLOCK_MONOTONIC)));
    return time_point(duration((vf::kEpochUs + vf::gNowUs) * 1000));
}
system_clock::time_point system_clock::now() noexcept
{
    if (vf::gRealClock)
        return time_point(duration(vf::realNs(CLOCK_REALTIME)));
    return time_point(duration((vf::kSystemEpochUs + vf::gNowUs) * 1000));
}
} // namespace _V2
} // namespace chrono
random_device::result_type random_device::_M_getval()
{
    if (vf::gForcedRandom) {
        const auto v = static_cast<result_type>(vf::gForcedRandom);
        return v;
    }
    return vf::nextRandom();
}
} // namespace std

extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (vf::gRealClock || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC))
        return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    const int64_t us = id == CLOCK_REALTIME ? vf::kSystemEpochUs + vf::gNowUs : vf::kEpochUs + vf::gNowUs;
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = (us % 1000000) * 1000;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
