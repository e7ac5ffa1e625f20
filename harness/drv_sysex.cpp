// SysEx: segmentation, collectors, codecs.
#include "exec.h"
#include "alloc.h"
#include "pkt.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
#include <memory>

using namespace midi;
static std::unique_ptr<sysex7_collector> c7, d7;
static std::unique_ptr<sysex8_collector> c8, d8;
static std::unique_ptr<sysex7>           sx, sy;
static Res*                              sink;
void reset_case()
{
    c7.reset();
    c8.reset();
    sx.reset();
    d7.reset();
    d8.reset();
    sy.reset();
}
OP("swap")
    std::swap(c7, d7);
    std::swap(c8, d8);
    std::swap(sx, sy);
END
static manufacturer_t ID(const L& l) { return (uint32_t(l[0]) << 16) | (uint32_t(l[1]) << 8) | uint32_t(l[2]); }
static L              idl(manufacturer_t m)
{
    if (m >> 24)
        return { (long long)(m >> 16), (m >> 8) & 0xFF, m & 0xFF };
    return { (m >> 16) & 0xFF, (m >> 8) & 0xFF, m & 0xFF };
}
template<typename S> static S mk(const L& id, const L& data)
{
    auto v = vec(data);
    S    s(ID(id), v.data(), v.size());
    return s;
}
template<typename S> static void deliver(L l, const S& s)
{
    for (auto x : idl(s.manufacturerID))
        l.push_back(x);
    for (auto b : s.data)
        l.push_back(b);
    sink->push_back(l);
}
static sysex7_collector::callback cb7(long long tag)
{
    if (!tag)
        return {};
    return [tag](const sysex7& s) { deliver({ tag }, s); };
}
static sysex8_collector::callback cb8(long long tag)
{
    if (!tag)
        return {};
    return [tag](const sysex8& s, uint8_t sid) { deliver({ tag, sid }, s); };
}
template<typename P> static L pk(const P& p)
{
    L l;
    put(l, static_cast<const universal_packet&>(p));
    return l;
}
// seg7 [group] [id] [data] [how]
OP("seg7")
    auto s = mk<sysex7>(a[1], a[2]);
    if (a[3][0] == 0)
        send_sysex7(s, group_t(a[0][0]), [&](const data_message& p) { r.push_back(pk(p)); });
    else
        for (auto& p : as_sysex7_packets(s, group_t(a[0][0])))
            r.push_back(pk(p));
END
// seg8 [group, stream] [id] [data] [how]
OP("seg8")
    auto s = mk<sysex8>(a[1], a[2]);
    if (a[3][0] == 0)
        send_sysex8(s, uint8_t(a[0][1]), group_t(a[0][0]), [&](const extended_data_message& p) { r.push_back(pk(p)); });
    else
        for (auto& p : as_sysex8_packets(s, uint8_t(a[0][1]), group_t(a[0][0])))
            r.push_back(pk(p));
END
OP("new7") c7 = std::make_unique<sysex7_collector>(cb7(1)); END
OP("new8") c8 = std::make_unique<sysex8_collector>(cb8(1)); END
OP("cb7") c7->set_callback(cb7(a[0][0])); END
OP("cb8") c8->set_callback(cb8(a[0][0])); END
OP("lim7") c7->set_max_sysex_data_size(size_t(a[0][0])); END
OP("lim8") c8->set_max_sysex_data_size(size_t(a[0][0])); END
OP("reset7") c7->reset(); END
OP("reset8") c8->reset(); END
OP("feed7")
    sink = &r;
    for (auto& x : a)
        c7->feed(mkp(x));
END
OP("feed8")
    sink = &r;
    for (auto& x : a)
        c8->feed(mkp(x));
END
OP("sid8") r.push_back({ c8->stream_id() }); END
// send7 [group] [id] [data]: segment with the library and feed the current collector
OP("send7")
    sink   = &r;
    auto s = mk<sysex7>(a[1], a[2]);
    send_sysex7(s, group_t(a[0][0]), [&](const data_message& p) { c7->feed(p); });
END
OP("send8")
    sink   = &r;
    auto s = mk<sysex8>(a[1], a[2]);
    send_sysex8(s, uint8_t(a[0][1]), group_t(a[0][0]), [&](const extended_data_message& p) { c8->feed(p); });
END
// ------------------------------------------------------------------ codecs
static void dump(Res& r)
{
    L l = idl(sx->manufacturerID);
    r.push_back(l);
    L d;
    for (auto b : sx->data)
        d.push_back(b);
    r.push_back(d);
}
// sx [id] [data] [constructor]
OP("sx")
    auto v = vec(a[1]);
    switch (a[2][0])
    {
    case 0: sx = std::make_unique<sysex7>(ID(a[0]), v.data(), v.size()); break;
    case 1: sx = std::make_unique<sysex7>(ID(a[0]), sysex::data_type(v.begin(), v.end())); break;
    case 2:
        sx = std::make_unique<sysex7>(ID(a[0]), size_t(64));
        sx->data.insert(sx->data.end(), v.begin(), v.end());
        break;
    case 3:
        sx = std::make_unique<sysex7>(ID(a[0]));
        sx->data.insert(sx->data.end(), v.begin(), v.end());
        break;
    default: {
        sysex7 t(ID(a[0]), v.data(), v.size());
        sysex7 u(t);
        sysex7 w(std::move(t));
        u  = w;
        sx = std::make_unique<sysex7>(std::move(u));
    }
    }
    dump(r);
END
OP("add7") sx->add_uint7(uint7_t(a[0][0])); dump(r); END
OP("add14") sx->add_uint14(uint14_t(a[0][0])); dump(r); END
OP("add28") sx->add_uint28(uint28_t(a[0][0])); dump(r); END
OP("add32") sx->add_uint32(W(a[0])); dump(r); END
OP("addd") auto v = vec(a[0]); sx->add_data(v.data(), v.size()); dump(r); END
OP("addi")
    device_identity i{ ID(a[0]), uint14_t(a[1][0]), uint14_t(a[1][1]), uint28_t(a[1][2]) };
    sx->add_device_identity(i);
    dump(r);
END
OP("get14") r.push_back({ sx->make_uint14(size_t(a[0][0])) }); END
OP("get28") r.push_back({ (long long)sx->make_uint28(size_t(a[0][0])) }); END
OP("get32") r.push_back(bytes4(sx->make_uint32(size_t(a[0][0])))); END
OP("geti")
    auto i = sx->make_device_identity(size_t(a[0][0]));
    r.push_back(idl(i.manufacturer));
    r.push_back({ i.family, i.model, (long long)i.revision });
END
OP("clear") sx->clear(); dump(r); END
OP("info")
    r.push_back({ (long long)sx->total_data_size(), sx->empty(), sx->is_7bit(), sx->is_8bit(), sx->is_valid() });
END
// eq [id] [data] [id] [data]
OP("eq")
    auto x = mk<sysex7>(a[0], a[1]);
    auto y = mk<sysex7>(a[2], a[3]);
    auto u = mk<sysex8>(a[0], a[1]);
    auto v = mk<sysex8>(a[2], a[3]);
    r.push_back({ x == y, x != y, u == v, u != v });
END
int main() { return run_main(); }
