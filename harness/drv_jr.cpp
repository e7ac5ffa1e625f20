// Jitter reduction: clock follower, timestamps, clock. Times are in units of 200 ns (or 1 ns: "nnew") relative to a base.
// The system's clocks are replaced by one that the case sets, so that the readings are a function of the case.
#include "exec.h"
#include "alloc.h"
#include <chrono>
static constexpr long long tick_ns = 32000, hour_ns = 3600000000000LL;
static constexpr long long start_ns = 480000LL * hour_ns; // a whole number of ticks
static long long           clock_ns = start_ns;           // what the clocks show
static long long           jr_base  = start_ns;           // of the case, never goes back
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
    return time_point(duration_cast<duration>(nanoseconds(clock_ns)));
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    return time_point(duration_cast<duration>(nanoseconds(clock_ns)));
}
#include <midi/universal_packet.h>
#include <midi/jitter_reduction_timestamps.h>
#include <memory>
using namespace midi;
using F = jr_clock_follower;
static std::unique_ptr<F> f, g;
static const F::time_point base{ std::chrono::duration_cast<F::duration>(std::chrono::nanoseconds(start_ns + 1000 * hour_ns)) };
static long long           unit = 200;
static bool                read_once = false;
static jr_timestamp_t      first, prev;
void reset_case()
{
    f.reset();
    g.reset();
    unit      = 200;
    read_once = false;
    jr_base   = std::max(jr_base, (clock_ns + tick_ns - 1) / tick_ns * tick_ns);
}
OP("swap") std::swap(f, g); END
static F::duration   dur(long long u) { return std::chrono::duration_cast<F::duration>(std::chrono::nanoseconds(unit * u)); }
static F::time_point tp(long long u) { return base + dur(u); }
static L             un(F::duration d)
{
    auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
    return { n / unit, n % unit };
}
static void view(Res& r)
{
    r.push_back(un(f->security_offset()));
    r.push_back(un(f->jitter()));
}
static void make(const Args& a, long long u)
{
    auto keep = clock_ns;
    unit      = u;
    clock_ns  = a.empty() ? start_ns : std::chrono::duration_cast<std::chrono::nanoseconds>(tp(a[0][0]).time_since_epoch()).count();
    f         = std::make_unique<F>();
    clock_ns  = keep;
}
// new [time of construction]
OP("new") make(a, 200); view(r); END
OP("nnew") make(a, 1); view(r); END
OP("reset") f->reset(); view(r); END
OP("clock") f->process_clock(tp(a[0][0]), jr_timestamp_t(uint16_t(a[0][1]))); view(r); END
OP("sched") r.push_back(un(f->schedule_message(tp(a[0][0]), jr_timestamp_t(uint16_t(a[0][1]))) - base)); view(r); END
OP("offset") f->set_security_offset(dur(a[0][0])); view(r); END
OP("diff")
    jr_timestamp_t x{ uint16_t(a[0][0]) }, y{ uint16_t(a[0][1]) };
    r.push_back({ (x - y).count(), x == y, x != y });
END
static jr_timestamp_t reading(const L& t)
{
    clock_ns = jr_base + t[0] * hour_ns + t[1] * tick_ns + t[2];
    auto now = jr_clock::now();
    if (!read_once)
        first = prev = now;
    read_once = true;
    return now;
}
// now [hours, ticks, ns] -> ticks since the first and since the previous reading
OP("now")
    auto now = reading(a[0]);
    r.push_back({ (now - first).count(), (now - prev).count() });
    prev = now;
END
// emit [hours, ticks, ns] [timestamp message?] -> first bytes, its timestamp as in the packet and as read, since the first reading
OP("emit")
    auto now = reading(a[0]);
    auto go  = [&](const jr_message& m) {
        r.push_back({ m.get_byte(0), m.get_byte(1), (L::value_type)m.size() });
        r.push_back({ (jr_timestamp_t(uint16_t(m.get_byte(2) * 256 + m.get_byte(3))) - first).count(), (m.timestamp() - first).count() });
    };
    if (a[1][0])
        go(jr_timestamp_message{ now });
    else
        go(jr_clock_message{ now });
    prev = now;
END
int main()
{
    jr_clock::now();
    return run_main();
}
