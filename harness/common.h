// Shared pieces of the conformance drivers: a virtual clock, deterministic randomness,
// an op-script reader and an ndjson trace writer.
#pragma once
#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace vf
{
// ---- virtual clock (see vclock.cpp): microseconds since the start of the scenario
extern int64_t gNowUs;
extern bool gRealClock; // true: the clocks are the real ones
constexpr int64_t kEpochUs = 1000000000LL; // value of steady_clock at virtual time 0
constexpr int64_t kSystemEpochUs = 1700000000000000LL;
inline void setNow(int64_t us) { gNowUs = us; }

// ---- deterministic randomness: feeds std::random_device in the code under test
extern uint64_t gRandState;
extern uint64_t gForcedRandom; // if non-zero: the next values of std::random_device
inline void seedRandom(uint64_t s) { gRandState = s * 0x9E3779B97F4A7C15ULL + 0x1234567ULL; }
uint32_t nextRandom();

// ---- trace output
class J
{
public:
    J() : s("{") {}
    J& i(const char* k, int64_t v) { key(k); s += std::to_string(v); return *this; }
    J& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    J& str(const char* k, const std::string& v) { key(k); quote(v); return *this; }
    J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
    J& ints(const char* k, const std::vector<int64_t>& v)
    {
        key(k); s += "[";
        for (size_t n = 0; n < v.size(); n++) { if (n) s += ","; s += std::to_string(v[n]); }
        s += "]"; return *this;
    }
    J& strs(const char* k, const std::vector<std::string>& v)
    {
        key(k); s += "[";
        for (size_t n = 0; n < v.size(); n++) { if (n) s += ","; quote(v[n]); }
        s += "]"; return *this;
    }
    J& objs(const char* k, const std::vector<std::string>& v)
    {
        key(k); s += "[";
        for (size_t n = 0; n < v.size(); n++) { if (n) s += ","; s += v[n]; }
        s += "]"; return *this;
    }
    std::string done() const { return s + "}"; }

private:
    std::string s;
    void key(const char* k) { if (s.size() > 1) s += ","; s += "\""; s += k; s += "\":"; }
    void quote(const std::string& v)
    {
        s += "\"";
        for (char c : v) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (static_cast<unsigned char>(c) < 0x20 || static_cast<unsigned char>(c) > 0x7e) {
                char b[8]; std::snprintf(b, sizeof(b), "\\u%04x", static_cast<unsigned char>(c)); s += b;
            } else s += c;
        }
        s += "\"";
    }
};
extern FILE* gTrace;
void emit(const J& j);

// ---- op scripts: one op per line, fields separated by blanks; "reset ..." starts a scenario
struct Op {
    std::string name;
    std::vector<std::string> args;
    int64_t n(size_t i, int64_t def = 0) const { return i < args.size() ? std::strtoll(args[i].c_str(), nullptr, 10) : def; }
    std::string s(size_t i) const { return i < args.size() ? args[i] : std::string(); }
};
using Handler = std::function<void(const Op&)>;
// main loop: driver SCRIPT TRACE ; calls handler for each op, calls it once more with "end"
int runDriver(int argc, char** argv, const Handler& handler);
} // namespace vf
