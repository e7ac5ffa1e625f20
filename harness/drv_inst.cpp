// Many objects side by side, copied, assigned, moved, exchanged. What a thread uses is its own, but for two constant messages.
#include "exec.h"
#include "pkt.h"
#include "alloc.h"
#include <midi/jitter_reduction_timestamps.h>
#include <midi/midi1_byte_stream.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <chrono>
#include <memory>
#include <type_traits>
using namespace midi;
using F = jr_clock_follower;

template<typename T> static std::unique_ptr<T>* things()
{
    static thread_local std::unique_ptr<T> t[5];
    return t;
}
static thread_local char              kinds[5];
static thread_local Res*              sink;
static thread_local std::unique_ptr<sysex> last; // the last whole message delivered
static sysex7 shared7()
{
    sysex7 s{ 0x002109 };
    for (int n = 1; n <= 20; ++n)
        s.data.push_back(uint8_t(n));
    return s;
}
static sysex8 shared8()
{
    sysex8 s{ 0x410000 };
    for (int n = 1; n <= 31; ++n)
        s.data.push_back(uint8_t(199 + n));
    return s;
}
static const sysex7 s7 = shared7();
static const sysex8 s8 = shared8();

static void drop(size_t i)
{
    things<midi1_byte_stream_parser>()[i].reset();
    things<sysex7_collector>()[i].reset();
    things<sysex8_collector>()[i].reset();
    things<sysex>()[i].reset();
    things<F>()[i].reset();
    kinds[i] = 0;
}
void reset_case()
{
    for (size_t i = 0; i < 5; ++i)
        drop(i);
    last.reset();
}
template<typename Fn> static void with(char k, Fn f)
{
    switch (k)
    {
    case 1: return f(things<midi1_byte_stream_parser>());
    case 2: return f(things<sysex7_collector>());
    case 3: return f(things<sysex8_collector>());
    case 4: return f(things<sysex>());
    case 5: return f(things<F>());
    }
}
static L message(L l, const sysex& s)
{
    for (int sh : { 16, 8, 0 })
        l.push_back((s.manufacturerID >> sh) & (sh == 16 ? 0xFFFF : 0xFF));
    for (auto b : s.data)
        l.push_back(b);
    return l;
}
static sysex7_collector::callback cb7(long long tag)
{
    return [tag](const sysex7& s) {
        sink->push_back(message({ tag }, s));
        last = std::make_unique<sysex>(s);
    };
}
static sysex8_collector::callback cb8(long long tag)
{
    return [tag](const sysex8& s, uint8_t sid) {
        sink->push_back(message({ tag, sid }, s));
        last = std::make_unique<sysex>(s);
    };
}
OP("new")
    auto  h = a[0];
    auto  i = size_t(h[0]);
    drop(i);
    kinds[i] = char(h[1]);
    if (h[1] == 1)
    {
        auto tag = h[4];
        midi1_byte_stream_parser::sysex_callback scb;
        if (h[3])
            scb = [tag](const sysex7& s) {
                sink->push_back(message({ tag, 2 }, s));
                last = std::make_unique<sysex>(s);
            };
        things<midi1_byte_stream_parser>()[i] = std::make_unique<midi1_byte_stream_parser>(
          group_t(h[2]),
          [tag](universal_packet q) {
              L l{ tag, 1 };
              put(l, q);
              sink->push_back(l);
          },
          scb);
    }
    if (h[1] == 2)
        things<sysex7_collector>()[i] = std::make_unique<sysex7_collector>(cb7(h[2]));
    if (h[1] == 3)
        things<sysex8_collector>()[i] = std::make_unique<sysex8_collector>(cb8(h[2]));
    if (h[1] == 4)
    {
        auto v = vec(a[1]);
        things<sysex>()[i] = std::make_unique<sysex>(manufacturer_t((v[0] << 16) | (v[1] << 8) | v[2]), v.data() + 3, v.size() - 3);
    }
    if (h[1] == 5)
        things<F>()[i] = std::make_unique<F>();
END
template<typename T> static std::unique_ptr<T> copy(const T& x) { return std::make_unique<T>(x); }
template<typename T> static std::unique_ptr<T> moved(T& x) { return std::make_unique<T>(std::move(x)); }
OP("copy")
    auto i = size_t(a[0][0]), j = size_t(a[0][1]);
    auto k = kinds[j];
    if (i != j)
        drop(i);
    with(k, [&](auto* t) { auto c = copy(*t[j]); t[i] = std::move(c); });
    kinds[i] = k;
END
OP("move")
    auto i = size_t(a[0][0]), j = size_t(a[0][1]);
    auto k = kinds[j];
    drop(i);
    with(k, [&](auto* t) { t[i] = moved(*t[j]); });
    kinds[i] = k;
    drop(j);
END
OP("assign")
    auto i = size_t(a[0][0]), j = size_t(a[0][1]);
    with(kinds[j], [&](auto* t) {
        using T = std::remove_reference_t<decltype(*t[j])>;
        if constexpr (std::is_copy_assignable_v<T>)
            *t[i] = *t[j];
        else
            t[i] = copy(*t[j]);
    });
END
OP("massign")
    auto i = size_t(a[0][0]), j = size_t(a[0][1]);
    with(kinds[j], [&](auto* t) {
        using T = std::remove_reference_t<decltype(*t[j])>;
        if constexpr (std::is_move_assignable_v<T>)
            *t[i] = std::move(*t[j]);
        else
            t[i] = moved(*t[j]);
    });
    drop(j);
END
OP("exch")
    auto i = size_t(a[0][0]), j = size_t(a[0][1]);
    with(kinds[j], [&](auto* t) {
        using T = std::remove_reference_t<decltype(*t[j])>;
        if constexpr (std::is_swappable_v<T>)
            std::swap(*t[i], *t[j]);
        else
            std::swap(t[i], t[j]);
    });
END
OP("drop") drop(size_t(a[0][0])); END
static F::duration   dur(long long u) { return std::chrono::duration_cast<F::duration>(std::chrono::nanoseconds(200 * u)); }
static F::time_point tp(long long u) { return F::time_point{} + dur(u); }
static long long     un(F::duration d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count() / 200; }
static void act(midi1_byte_stream_parser& o, const L& x)
{
    if (x[0] == 1)
        o.reset();
    if (x[0] == 2)
        o.enable_callbacks(x[1] != 0);
    if (x[0] == 3)
        o.set_group(group_t(x[1]));
}
template<typename C> static void cact(C& o, const L& x)
{
    if (x[0] == 1)
        o.reset();
    if (x[0] == 5)
        o.set_max_sysex_data_size(size_t(x[1]));
}
static void act(sysex7_collector& o, const L& x)
{
    cact(o, x);
    if (x[0] == 6)
        o.set_callback(cb7(x[1]));
}
static void act(sysex8_collector& o, const L& x)
{
    cact(o, x);
    if (x[0] == 6)
        o.set_callback(cb8(x[1]));
}
static void act(sysex& o, const L& x)
{
    if (x[0] == 7)
        o.clear();
    if (x[0] == 8)
        for (size_t n = 1; n < x.size(); ++n)
            o.data.push_back(uint8_t(x[n]));
}
static void act(F& o, const L& x)
{
    if (x[0] == 1)
        o.reset();
}
OP("act")
    auto i = size_t(a[0][0]);
    with(kinds[i], [&](auto* t) {
        for (size_t n = 1; n < a.size(); ++n)
            act(*t[i], a[n]);
    });
END
// feed [slot, slot that keeps the last whole message or 0] items
OP("feed")
    auto i = size_t(a[0][0]), keep = size_t(a[0][1]);
    sink = &r;
    last.reset();
    switch (kinds[i])
    {
    case 1: {
        auto v = vec(a[1]);
        if (v.size() % 2)
            things<midi1_byte_stream_parser>()[i]->feed(v.data(), v.size());
        else
            for (auto b : v)
                things<midi1_byte_stream_parser>()[i]->feed(b);
        break;
    }
    case 2:
        for (size_t n = 1; n < a.size(); ++n)
            things<sysex7_collector>()[i]->feed(mkp(a[n]));
        break;
    case 3:
        for (size_t n = 1; n < a.size(); ++n)
            things<sysex8_collector>()[i]->feed(mkp(a[n]));
        break;
    case 5:
        for (size_t n = 1; n < a.size(); ++n)
        {
            auto& f = *things<F>()[i];
            jr_timestamp_t ts{ uint16_t(a[n][2]) };
            if (a[n][0] == 0)
                f.process_clock(tp(a[n][1]), ts);
            else
                r.push_back({ un(f.schedule_message(tp(a[n][1]), ts) - F::time_point{}) });
        }
    }
    if (keep && last)
    {
        drop(keep);
        things<sysex>()[keep] = std::move(last);
        kinds[keep]           = 4;
    }
    last.reset();
END
OP("read")
    auto i = size_t(a[0][0]);
    if (kinds[i] == 1)
    {
        auto& p = *things<midi1_byte_stream_parser>()[i];
        r.push_back({ p.group(), p.callbacks_enabled() });
    }
    if (kinds[i] == 4)
        r.push_back(message({}, *things<sysex>()[i]));
    if (kinds[i] == 5)
        r.push_back({ un(things<F>()[i]->security_offset()), un(things<F>()[i]->jitter()) });
END
OP("eq")
    const sysex &x = *things<sysex>()[size_t(a[0][0])], &y = *things<sysex>()[size_t(a[0][1])];
    r.push_back({ x == y });
END
OP("shared")
    auto g = group_t(a[0][0]);
    for (auto& p : as_sysex7_packets(s7, g))
    {
        L l;
        put(l, p);
        r.push_back(l);
    }
    for (auto& p : as_sysex8_packets(s8, uint8_t(g + 40), g))
    {
        L l;
        put(l, p);
        r.push_back(l);
    }
END
OP("tick") (void)jr_clock::now(); END
#ifndef THREADS
int main() { return run_main(); }
#endif
