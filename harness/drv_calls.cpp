// Callbacks that act on their caller or throw; storage for SysEx data that runs out.
#include "exec.h"
#include "pkt.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/midi1_byte_stream.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <memory>
#include <new>
using namespace midi;

static long long budget = -1;    // largest block there is; -1: no bound
static bool      inside = false; // library code is running
static void*     take(size_t n)
{
    if (budget >= 0 && (long long)n > budget)
        throw std::bad_alloc();
    return std::malloc(n ? n : 1);
}
#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
namespace midi {
uint8_t* sysex::data_allocator::allocate(std::size_t n) { return static_cast<uint8_t*>(take(n)); }
void     sysex::data_allocator::deallocate(uint8_t* p, std::size_t) noexcept { std::free(p); }
} // namespace midi
#elif NIMIDI2_PMR_SYSEX_DATA
struct Bounded : std::pmr::memory_resource
{
    void* do_allocate(size_t n, size_t) override { return take(n); }
    void  do_deallocate(void* p, size_t, size_t) override { std::free(p); }
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Bounded bounded;
static bool    installed = (std::pmr::set_default_resource(&bounded), true);
#else
void* operator new(size_t n) { return inside ? take(n) : std::malloc(n ? n : 1); }
void  operator delete(void* p) noexcept { std::free(p); }
void  operator delete(void* p, size_t) noexcept { std::free(p); }
#endif

struct Outside // the client's own code
{
    bool was = inside;
    Outside() { inside = false; }
    ~Outside() { inside = was; }
};
struct Library
{
    Library() { inside = true; }
    ~Library() { inside = false; }
};
struct Thrown
{
    int from;
};

static std::unique_ptr<midi1_byte_stream_parser> p;
static std::unique_ptr<sysex7_collector>         c7;
static std::unique_ptr<sysex8_collector>         c8;
static Res*                                      sink;
static long long                                 wait_ = 0;
static Args                                      acts;
void reset_case()
{
    p.reset();
    c7.reset();
    c8.reset();
    wait_  = 0;
    budget = -1;
    acts.clear();
}
static void act(midi1_byte_stream_parser& o, const L& a)
{
    if (a[0] == 1)
        o.reset();
    if (a[0] == 2)
        o.enable_callbacks(a[1] != 0);
    if (a[0] == 3)
        o.set_group(group_t(a[1]));
}
template<typename C> static void act(C& o, const L& a)
{
    if (a[0] == 1)
        o.reset();
    if (a[0] == 5)
        o.set_max_sysex_data_size(size_t(a[1]));
}
template<typename O> static void called(O& o, const L& l)
{
    Outside u;
    sink->push_back(l);
    if (wait_ > 0 && --wait_ == 0)
    {
        auto todo = std::move(acts);
        acts.clear();
        bool thrown = false;
        for (auto& x : todo)
        {
            act(o, x);
            thrown = thrown || x[0] == 4;
        }
        if (thrown)
            throw Thrown{ 1 };
    }
}
static L message(L l, const sysex& s)
{
    for (int sh : { 16, 8, 0 })
        l.push_back((s.manufacturerID >> sh) & (sh == 16 ? 0xFFFF : 0xFF));
    for (auto b : s.data)
        l.push_back(b);
    return l;
}
// pnew [group, whole]
OP("pnew")
    midi1_byte_stream_parser::packet_callback pcb = [](universal_packet q) {
        L l;
        {
            Outside u;
            l = { 1 };
            put(l, q);
        }
        called(*p, l);
    };
    midi1_byte_stream_parser::sysex_callback scb;
    if (a[0][1])
        scb = [](const sysex7& s) {
            Outside u;
            called(*p, message({ 2 }, s));
        };
    p = std::make_unique<midi1_byte_stream_parser>(group_t(a[0][0]), pcb, scb);
END
OP("7new")
    c7 = std::make_unique<sysex7_collector>([](const sysex7& s) {
        Outside u;
        called(*c7, message({ 1 }, s));
    });
END
OP("8new")
    c8 = std::make_unique<sysex8_collector>([](const sysex8& s, uint8_t sid) {
        Outside u;
        called(*c8, message({ 1, sid }, s));
    });
END
OP("arm") wait_ = a[0][0]; acts.assign(a.begin() + 1, a.end()); END
OP("budget") budget = a[0][0]; END
// run f; say how it ended; n: items begun
template<typename F> static void guarded(Res& r, const long long& n, F f)
{
    sink = &r;
    try
    {
        Library l;
        f();
    }
    catch (const Thrown&)
    {
        r.push_back({ 9 });
    }
    catch (const std::bad_alloc&)
    {
        r.push_back({ 8, n });
    }
}
// pfeed [overload] [bytes]; with a budget bytes go one by one
OP("pfeed")
    auto      v = vec(a[1]);
    long long n = 0;
    guarded(r, n, [&] {
        if (a[0][0] == 0 || budget >= 0)
            for (auto b : v)
                ++n, p->feed(b);
        else if (a[0][0] == 1)
            p->feed(v.data(), v.size());
        else
            p->feed(v.data(), v.data() + v.size());
    });
END
template<typename C> static void packets(C& c, const Args& a, Res& r)
{
    std::vector<universal_packet> v;
    for (auto& x : a)
        v.push_back(mkp(x));
    long long n = 0;
    guarded(r, n, [&] {
        for (auto& q : v)
            ++n, c.feed(q);
    });
}
OP("7feed") packets(*c7, a, r); END
OP("8feed") packets(*c8, a, r); END
OP("pact") for (auto& x : a) act(*p, x); END
OP("7act") for (auto& x : a) act(*c7, x); END
OP("8act") for (auto& x : a) act(*c8, x); END
int main() { return run_main(); }
