// Where the SysEx data lives: every block the library takes and returns is recorded.
//   default: its use of operator new;  custom: sysex::data_allocator;  pmr: three memory resources, 0 is the default one
#include "exec.h"
#include "pkt.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/midi1_byte_stream.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <memory>
#include <new>
using namespace midi;

template<typename T> struct plain // for the records themselves
{
    using value_type = T;
    plain()          = default;
    template<typename U> plain(const plain<U>&) { }
    T*   allocate(size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { std::free(p); }
    template<typename U> bool operator==(const plain<U>&) const { return true; }
    template<typename U> bool operator!=(const plain<U>&) const { return false; }
};
struct Block { size_t size; int where; };
using Blocks = std::map<void*, Block, std::less<void*>, plain<std::pair<void* const, Block>>>;
static Blocks& blocks() { static Blocks* b = new (std::malloc(sizeof(Blocks))) Blocks; return *b; }
static long long live[4], biggest, taken, wrong;
static bool      inside = false; // a call into the library is running
struct Lib
{
    Lib() { inside = true; }
    ~Lib() { inside = false; }
};
static void* take(size_t n, int where)
{
    auto p      = std::malloc(n ? n : 1);
    blocks()[p] = { n, where };
    live[where] += n;
    if (where < 3)
    {
        ++taken;
        biggest = std::max(biggest, (long long)n);
    }
    return p;
}
static bool give(void* p, long long n, int where)
{
    auto i = blocks().find(p);
    if (i == blocks().end())
        return false;
    if (i->second.where != where || (n >= 0 && size_t(n) != i->second.size))
        ++wrong;
    live[i->second.where] -= i->second.size;
    blocks().erase(i);
    std::free(p);
    return true;
}
#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
static constexpr int heap = 3;
namespace midi {
uint8_t* sysex::data_allocator::allocate(std::size_t n) { return static_cast<uint8_t*>(take(n, 0)); }
void     sysex::data_allocator::deallocate(uint8_t* p, std::size_t n) noexcept { if (!give(p, n, 0)) ++wrong; }
} // namespace midi
#elif NIMIDI2_PMR_SYSEX_DATA
static constexpr int heap = 3;
struct Recorder : std::pmr::memory_resource
{
    int where;
    explicit Recorder(int w) : where(w) { }
    void* do_allocate(size_t n, size_t) override { return take(n, where); }
    void  do_deallocate(void* p, size_t n, size_t) override { if (!give(p, n, where)) ++wrong; }
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Recorder res[3] = { Recorder(0), Recorder(1), Recorder(2) };
#else
static constexpr int heap = 0;
#endif
void* operator new(size_t n) { return inside ? take(n, heap) : std::malloc(n ? n : 1); }
void  operator delete(void* p) noexcept { if (p && !give(p, -1, heap)) std::free(p); }
void  operator delete(void* p, size_t n) noexcept { if (p && !give(p, n, heap)) std::free(p); }

static std::unique_ptr<sysex7_collector>         c7;
static std::unique_ptr<sysex8_collector>         c8;
static std::unique_ptr<midi1_byte_stream_parser> parser;
static std::unique_ptr<sysex7>                   slot[3];
static long long                                 delivered;
void reset_case()
{
    c7.reset();
    c8.reset();
    parser.reset();
    for (auto& s : slot)
        s.reset();
    for (auto& l : live)
        l = 0;
    wrong = 0;
    blocks().clear();
}
static void begin() { biggest = taken = delivered = 0; }
static void show(Res& r)
{
    r.push_back({ live[0], live[1], live[2] });
    r.push_back({ biggest, taken, wrong, heap == 3 ? live[3] : 0 });
}
OP("env")
#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
    r.push_back({ 1 });
#elif NIMIDI2_PMR_SYSEX_DATA
    r.push_back({ 2 });
#else
    r.push_back({ 0 });
#endif
END
// ---------------------------------------------------------------- collectors
OP("c.new")
    begin();
    if (a[0][0] == 7)
    {
        sysex7_collector::callback cb = [](const sysex7&) { ++delivered; };
        Lib                        l;
        c7.reset(new sysex7_collector(cb));
    }
    else
    {
        sysex8_collector::callback cb = [](const sysex8&, uint8_t) { ++delivered; };
        Lib                        l;
        c8.reset(new sysex8_collector(cb));
    }
    // the object itself is not of interest
    show(r);
END
OP("c.lim") begin(); { Lib l; if (c7) c7->set_max_sysex_data_size(a[0][0]); else c8->set_max_sysex_data_size(a[0][0]); } show(r); END
OP("c.reset") begin(); { Lib l; if (c7) c7->reset(); else c8->reset(); } show(r); END
OP("c.drop") begin(); { Lib l; c7.reset(); c8.reset(); } show(r); END
// c.feed [format, payload bytes, times]
OP("c.feed")
    begin();
    auto     fmt = uint32_t(a[0][0]), n = uint32_t(a[0][1]);
    uint32_t b[4];
    if (c7)
    {
        b[0] = 0x30000000u | fmt << 20 | n << 16 | 0x4105;
        b[1] = 0x11121314u;
        b[2] = b[3] = 0;
    }
    else
    {
        b[0] = 0x50000000u | fmt << 20 | (n + 1) << 16 | 0x0700;
        b[1] = 0x7D818283u;
        b[2] = 0x84858687u;
        b[3] = 0x88898A8Bu;
    }
    universal_packet p{ b[0], b[1], b[2], b[3] };
    {
        Lib l;
        for (long long k = 0; k < a[0][2]; ++k)
            if (c7)
                c7->feed(p);
            else
                c8->feed(p);
    }
    show(r);
    r.push_back({ delivered });
END
// -------------------------------------------------------------------- parser
OP("p.new")
    begin();
    midi1_byte_stream_parser::packet_callback pc = [](universal_packet) {};
    midi1_byte_stream_parser::sysex_callback  sc;
    if (a[0][0])
        sc = [](const sysex7&) { ++delivered; };
    {
        Lib l;
        parser.reset(new midi1_byte_stream_parser(pc, sc, a[0][1] != 0));
    }
    show(r);
END
OP("p.on") begin(); { Lib l; parser->enable_callbacks(a[0][0] != 0); } show(r); END
OP("p.reset") begin(); { Lib l; parser->reset(); } show(r); END
OP("p.drop") begin(); { Lib l; parser.reset(); } show(r); END
// p.feed [byte, times, chunked]
OP("p.feed")
    begin();
    std::vector<uint8_t> v;
    v.assign(size_t(a[0][1]), uint8_t(a[0][0]));
    {
        Lib l;
        if (a[0][2])
            parser->feed(v.data(), v.size());
        else
            for (auto b : v)
                parser->feed(b);
    }
    show(r);
    r.push_back({ delivered });
END
// ------------------------------------------------------------------- objects
// s.new [slot, resource, constructor, bytes]
OP("s.new")
    begin();
    std::vector<uint8_t> v(size_t(a[0][3]), 0x42);
    auto&                s = slot[a[0][0]];
    s.reset();
#if NIMIDI2_PMR_SYSEX_DATA
#define RES , &res[a[0][1]]
#else
#define RES
#endif
    {
        Lib              l;
        sysex::data_type d(v.begin(), a[0][2] == 3 || a[0][2] == 5 ? v.end() : v.begin());
        switch (a[0][2])
        {
        case 0: s.reset(new sysex7(0x410000 RES)); break;
        case 1: s.reset(new sysex7(0x410000, size_t(a[0][3]) RES)); break;
        case 2: s.reset(new sysex7(0x410000, v.data(), v.size() RES)); break;
        case 3: s.reset(new sysex7(0x410000, d RES)); break;
        case 4: s.reset(new sysex7(0x410000, { 1, 2, 3, 4, 5 } RES)); break;
        default: s.reset(new sysex7(0x410000, std::move(d) RES)); break;
        }
    }
    show(r);
    r.push_back({ (long long)s->data.size() });
END
// s.add [slot, how, times]: 7, 14, 28, 32 bit integers, blocks of ten, identities
OP("s.add")
    begin();
    {
        auto&         s = *slot[a[0][0]];
        const uint7_t ten[10]{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 };
        Lib           l;
        for (long long k = 0; k < a[0][2]; ++k)
            switch (a[0][1])
            {
            case 0: s.add_uint7(1); break;
            case 1: s.add_uint14(2); break;
            case 2: s.add_uint28(3); break;
            case 3: s.add_uint32(4); break;
            case 4: s.add_data(ten, 10); break;
            default: s.add_device_identity({ 0x010203, 1, 2, 3 }); break;
            }
    }
    show(r);
    r.push_back({ (long long)slot[a[0][0]]->data.size() });
END
OP("s.clear") begin(); { Lib l; slot[a[0][0]]->clear(); } show(r); END
OP("s.copy") begin(); { Lib l; slot[a[0][1]].reset(new sysex7(*slot[a[0][0]])); } show(r); END
OP("s.move") begin(); { Lib l; slot[a[0][1]].reset(new sysex7(std::move(*slot[a[0][0]]))); slot[a[0][0]].reset(); } show(r); END
OP("s.assign") begin(); { Lib l; *slot[a[0][1]] = *slot[a[0][0]]; } show(r); END
OP("s.drop") begin(); { Lib l; slot[a[0][0]].reset(); } show(r); END
int main()
{
#if NIMIDI2_PMR_SYSEX_DATA
    std::pmr::set_default_resource(&res[0]);
#endif
    return run_main();
}
