// MIDI 1 byte stream: parser, encoder, sizes.
#include "exec.h"
#include "alloc.h"
#include "pkt.h"
#include <midi/midi1_byte_stream.h>
#include <memory>

static std::unique_ptr<midi::midi1_byte_stream_parser> parser, other;
static Res*                                            sink = nullptr;
void reset_case()
{
    parser.reset();
    other.reset();
}
OP("swap") std::swap(parser, other); END

// newparser [hasGroup, group, hasSysexCallback, enabled]
OP("newparser")
    midi::midi1_byte_stream_parser::packet_callback pcb = [](midi::universal_packet p) {
        L l{ 1 };
        put(l, p);
        sink->push_back(l);
    };
    midi::midi1_byte_stream_parser::sysex_callback scb;
    if (a[0][2])
        scb = [](const midi::sysex7& s) {
            L l{ 2, (s.manufacturerID >> 16) & 0xFF, (s.manufacturerID >> 8) & 0xFF, s.manufacturerID & 0xFF };
            for (auto b : s.data)
                l.push_back(b);
            sink->push_back(l);
        };
    if (a[0][0])
        parser = std::make_unique<midi::midi1_byte_stream_parser>(midi::group_t(a[0][1]), pcb, scb, a[0][3] != 0);
    else
        parser = std::make_unique<midi::midi1_byte_stream_parser>(pcb, scb, a[0][3] != 0);
END
// feed [overload] [bytes...]
OP("feed")
    sink = &r;
    auto v = vec(a[1]);
    switch (a[0][0])
    {
    case 0:
        for (auto b : v)
            parser->feed(b);
        break;
    case 1: parser->feed(v.data(), v.size()); break;
    default: parser->feed(v.data(), v.data() + v.size()); break;
    }
END
OP("reset") parser->reset(); END
OP("group") parser->set_group(midi::group_t(a[0][0])); END
OP("enable") parser->enable_callbacks(a[0][0] != 0); END
OP("query") r.push_back({ parser->group(), parser->callbacks_enabled() ? 1 : 0 }); END
// to [packet bytes (4*words)] -> [returned size] [size()] [bytes]
OP("to")
    auto    p = mkp(a[0]);
    uint8_t buf[8];
    memset(buf, 0xEE, sizeof buf);
    auto n = midi::to_midi1_byte_stream(p, buf);
    r.push_back({ (long long)n });
    r.push_back({ (long long)midi::midi1_byte_stream_size(p) });
    L l;
    for (size_t i = 0; i < n && i < 8; ++i)
        l.push_back(buf[i]);
    r.push_back(l);
END
OP("from")
    L l;
    put(l, midi::from_midi1_byte_stream(uint8_t(a[0][0]), uint8_t(a[0][1]), uint8_t(a[0][2])));
    r.push_back(l);
END
// trip [packets...] : encode all to bytes, feed a parser, observe packets  (one list per packet)
OP("trip")
    Res out;
    sink = &out;
    midi::midi1_byte_stream_parser p([](midi::universal_packet q) {
        L l;
        put(l, q);
        sink->push_back(l);
    });
    for (auto& x : a)
    {
        uint8_t buf[8];
        auto    n = midi::to_midi1_byte_stream(mkp(x), buf);
        p.feed(buf, n);
    }
    r = out;
END
int main() { return run_main(); }
