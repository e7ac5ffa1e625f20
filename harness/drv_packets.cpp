// Universal packets of every kind: storage, factories, views, filters, translation.
#include "pkt.h"
#include "alloc.h"
#include <cassert>
#include <optional>
#include <sstream>
#include <midi/types.h>
#include <midi/universal_packet.h>
#include <midi/channel_voice_message.h>
#include <midi/midi1_channel_voice_message.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/stream_message.h>
#include <midi/jitter_reduction_timestamps.h>
using namespace midi;

static universal_packet P;
static sysex7_packet    S7;
static sysex8_packet    S8;
static stream_message   SM;
void reset_case()
{
    P  = {};
    S7 = {};
    S8 = {};
    SM = {};
}
static L all16(const universal_packet& p)
{
    L l;
    for (auto w : p.data)
        put(l, w);
    return l;
}
static L        b2(uint16_t v) { return { v >> 8, v & 0xFF }; }
static uint16_t H(const L& l) { return uint16_t((l[0] << 8) | l[1]); }
#define A(i) a[0].at(i)

// ------------------------------------------------------------ container
static void obs(Res& r, const universal_packet& p)
{
    r.push_back(all16(p));
    r.push_back({ (int)p.type(), (long long)p.size(), p.group(), p.status(), p.byte2(), p.byte3(), p.byte4(), p.has_channel(),
                  p.has_channel() ? p.channel() : -1 });
    L g, g7;
    for (int i = 0; i < 16; ++i)
    {
        g.push_back(p.get_byte(i));
        g7.push_back(p.get_byte_7bit(i));
    }
    r.push_back(g);
    r.push_back(g7);
    r.push_back({ p.is_utility_message(), p.is_system_message(), p.is_channel_voice_message(), p.is_data_message(),
                  p.is_midi1_protocol_message() });
}
OP("p.new")
    switch (a[0].size() / 4)
    {
    case 0: P = universal_packet{}; break;
    case 1: P = universal_packet{ W(a[0]) }; break;
    case 2: P = universal_packet{ W(a[0]), W(a[0], 4) }; break;
    case 3: P = universal_packet{ W(a[0]), W(a[0], 4), W(a[0], 8) }; break;
    default: P = universal_packet{ W(a[0]), W(a[0], 4), W(a[0], 8), W(a[0], 12) }; break;
    }
    obs(r, P);
END
OP("p.type") P.set_type(packet_type(A(0))); obs(r, P); END
OP("p.group") P.set_group(group_t(A(0))); obs(r, P); END
OP("p.byte") P.set_byte(size_t(A(0)), uint8_t(A(1))); obs(r, P); END
OP("p.byte7") P.set_byte_7bit(size_t(A(0)), uint8_t(A(1))); obs(r, P); END
OP("p.reset") P.reset(); obs(r, P); END
OP("p.copy")
    universal_packet q(P), s;
    P.set_byte(size_t(A(0)), uint8_t(A(1)));
    s = q;
    P = s;
    obs(r, P);
END
OP("p.eq")
    auto x = mkp(a[0]), y = mkp(a[1]);
    r.push_back({ x == y, x != y, y == x, y != x, x == x });
END
OP("p.print")
    std::ostringstream s;
    s << mkp(a[0]);
    r.push_back(S(s.str()));
END
OP("p.print2") // on a stream others use too: a packet, a number in decimal, a packet
    std::ostringstream s;
    s << mkp(a[0]) << '/' << 10 << '/' << mkp(a[1]);
    r.push_back(S(s.str()));
END
// p.trip [packet] [how]: write to a stream set up in some way by others, read back from one set up in some way
OP("p.trip")
    static const std::ios::fmtflags how[] = { {}, std::ios::left, std::ios::showbase, std::ios::uppercase, std::ios::oct, std::ios::internal,
                                              std::ios::left | std::ios::showbase, std::ios::showbase | std::ios::uppercase | std::ios::oct };
    std::ostringstream s;
    s.setf(how[a[1][0] % 8]);
    s.fill(a[1][0] & 8 ? '*' : ' ');
    if (a[1][0] & 16)
        s.width(20);
    auto f0 = s.flags();
    s << mkp(a[0]);
    std::istringstream i(s.str());
    i.setf(a[1][0] & 32 ? std::ios::oct : std::ios::dec, std::ios::basefield);
    auto             g0 = i.flags();
    universal_packet p;
    r.push_back({ bool(i >> p), s.flags() == f0, i.flags() == g0 });
    L l;
    put(l, p);
    r.push_back(l);
END
OP("p.parse") // read packets until the stream fails
    std::istringstream s(str(a[0]));
    r.push_back({});
    universal_packet p = universal_packet(0xFFFFFFFF, 0x11223344, 0x55667788, 0x99AABBCC);
    while (r[0].size() < 20 && (s >> p))
    {
        r[0].push_back((long long)p.size());
        L l;
        put(l, p);
        r.push_back(l);
    }
END
// --------------------------------------------------------- channel voice
static void v1(Res& r, const universal_packet& p)
{
    auto v = as_midi1_channel_voice_message_view(p);
    if (v.has_value() != is_midi1_channel_voice_message(p))
        r.push_back({ -1 });
    if (v)
        r.push_back({ v->group(), v->status(), v->channel(), v->data_byte_1(), v->data_byte_2(), v->get_14bit_value() });
    else
        r.push_back({});
}
static void v2(Res& r, const universal_packet& p)
{
    auto v = as_midi2_channel_voice_message_view(p);
    if (v.has_value() != is_midi2_channel_voice_message(p))
        r.push_back({ -1 });
    if (v)
    {
        r.push_back({ v->group(), v->status(), v->channel(), v->byte3(), v->byte4() });
        r.push_back(bytes4(v->data()));
    }
    else
    {
        r.push_back({});
        r.push_back({});
    }
}
#define ONE(name, expr) OP(name) auto p = expr; r.push_back(all16(p)); v1(r, p); END
#define TWO(name, expr) OP(name) auto p = expr; r.push_back(all16(p)); v2(r, p); END
ONE("m1", make_midi1_channel_voice_message(A(0), A(1), A(2), A(3), A(4)))
ONE("m1c", (midi1_channel_voice_message{ group_t(A(0)), status_t(A(1) | A(2)), uint7_t(A(3)), uint7_t(A(4)) }))
ONE("m1.off", make_midi1_note_off_message(A(0), A(1), A(2), velocity(H(a[1]))))
ONE("m1.off0", make_midi1_note_off_message(A(0), A(1), A(2)))
ONE("m1.on", make_midi1_note_on_message(A(0), A(1), A(2), velocity(H(a[1]))))
ONE("m1.poly", make_midi1_poly_pressure_message(A(0), A(1), A(2), controller_value(W(a[1]))))
ONE("m1.cc", make_midi1_control_change_message(A(0), A(1), A(2), controller_value(W(a[1]))))
ONE("m1.pc", make_midi1_program_change_message(A(0), A(1), A(2)))
ONE("m1.press", make_midi1_channel_pressure_message(A(0), A(1), controller_value(W(a[1]))))
ONE("m1.bend", make_midi1_pitch_bend_message(A(0), A(1), pitch_bend(W(a[1]))))
TWO("m2", make_midi2_channel_voice_message(A(0), A(1), A(2), A(3), A(4), W(a[1])))
TWO("m2c", (midi2_channel_voice_message{ group_t(A(0)), status_t(A(1)), channel_t(A(2)), uint8_t(A(3)), uint8_t(A(4)), W(a[1]) }))
TWO("m2.off", make_midi2_note_off_message(A(0), A(1), A(2), velocity(H(a[1])), A(3), H(a[2])))
TWO("m2.off0", make_midi2_note_off_message(A(0), A(1), A(2), velocity(H(a[1]))))
TWO("m2.on", make_midi2_note_on_message(A(0), A(1), A(2), velocity(H(a[1])), uint8_t(A(3)), H(a[2])))
TWO("m2.on0", make_midi2_note_on_message(A(0), A(1), A(2), velocity(H(a[1]))))
TWO("m2.onp", make_midi2_note_on_message(A(0), A(1), A(2), velocity(H(a[1])), pitch_7_9(H(a[2]))))
TWO("m2.poly", make_midi2_poly_pressure_message(A(0), A(1), A(2), controller_value(W(a[1]))))
TWO("m2.rpnc", make_registered_per_note_controller_message(A(0), A(1), A(2), A(3), controller_value(W(a[1]))))
TWO("m2.apnc", make_assignable_per_note_controller_message(A(0), A(1), A(2), A(3), controller_value(W(a[1]))))
TWO("m2.pnm", make_per_note_management_message(A(0), A(1), A(2), A(3)))
TWO("m2.cc", make_midi2_control_change_message(A(0), A(1), A(2), controller_value(W(a[1]))))
TWO("m2.rc", make_registered_controller_message(A(0), A(1), A(2), A(3), controller_value(W(a[1]))))
TWO("m2.ac", make_assignable_controller_message(A(0), A(1), A(2), A(3), controller_value(W(a[1]))))
TWO("m2.rrc", make_relative_registered_controller_message(A(0), A(1), A(2), A(3), controller_increment(int32_t(W(a[1])))))
TWO("m2.rac", make_relative_assignable_controller_message(A(0), A(1), A(2), A(3), controller_increment(int32_t(W(a[1])))))
TWO("m2.pc", make_midi2_program_change_message(A(0), A(1), A(2)))
TWO("m2.pcb", make_midi2_program_change_message(A(0), A(1), A(2), uint14_t(A(3))))
TWO("m2.press", make_midi2_channel_pressure_message(A(0), A(1), controller_value(W(a[1]))))
TWO("m2.bend", make_midi2_pitch_bend_message(A(0), A(1), pitch_bend(W(a[1]))))
TWO("m2.pnb", make_per_note_pitch_bend_message(A(0), A(1), A(2), pitch_bend(W(a[1]))))
ONE("m1p", midi1_channel_voice_message{ mkp(a[0]) })
TWO("m2p", midi2_channel_voice_message{ mkp(a[0]) })
OP("cv.views") auto p = mkp(a[0]); v1(r, p); v2(r, p); END
OP("cv.filters")
    auto p = mkp(a[0]);
    r.push_back({ is_note_on_message(p), is_note_off_message(p), is_poly_pressure_message(p), is_control_change_message(p),
                  is_program_change_message(p), is_channel_pressure_message(p), is_channel_pitch_bend_message(p),
                  is_registered_controller_message(p), is_assignable_controller_message(p), is_registered_per_note_controller_message(p),
                  is_registered_per_note_controller_pitch_message(p), is_assignable_per_note_controller_message(p),
                  is_per_note_pitch_bend_message(p), is_note_on_with_pitch_7_9(p), is_pitch_bend_sensitivity_message(p),
                  is_per_note_pitch_bend_sensitivity_message(p) });
    r.push_back({ is_midi2_registered_controller_message(p), is_midi2_assignable_controller_message(p),
                  is_midi2_registered_per_note_controller_message(p), is_midi2_assignable_per_note_controller_message(p),
                  is_midi2_per_note_pitch_bend_message(p) });
    L w;
    for (int s = 0; s < 256; s += 16)
        w.push_back(is_channel_voice_message_with_status(p, status_t(s)));
    r.push_back(w);
    L on, off;
    for (int t : { 0, 1, 2, 3, 4, 127, 128, 129, 131, 255 })
    {
        on.push_back(is_note_on_with_attribute(p, uint8_t(t)));
        off.push_back(is_note_off_with_attribute(p, uint8_t(t)));
    }
    r.push_back(on);
    r.push_back(off);
END
OP("cv.get")
    auto p = mkp(a[0]);
    r.push_back({ get_note_nr(p), get_controller_nr(p), get_program_value(p), get_midi2_note_attribute(p), get_per_note_controller_index(p),
                  get_midi2_per_note_controller_index(p) });
    r.push_back(b2(get_note_pitch(p).value));
    r.push_back(b2(get_note_velocity(p).value));
    r.push_back(bytes4(get_poly_pressure_value(p).value));
    r.push_back(bytes4(get_controller_value(p).value));
    r.push_back(bytes4(get_channel_pressure_value(p).value));
    r.push_back(bytes4(get_channel_pitch_bend_value(p).value));
    r.push_back(b2(get_midi2_note_attribute_data(p)));
    r.push_back(bytes4(get_pitch_bend_sensitivity_value(p).value));
    r.push_back(bytes4(get_per_note_pitch_bend_sensitivity_value(p).value));
    r.push_back(bytes4(get_per_note_pitch_bend_value(p).value));
END
OP("t12")
    auto p = mkp(a[0]);
    if (auto v = as_midi1_channel_voice_message_view(p))
        if (auto m = as_midi2_channel_voice_message(*v))
            r.push_back(all16(*m));
END
OP("t21")
    auto p = mkp(a[0]);
    if (auto v = as_midi2_channel_voice_message_view(p))
        if (auto m = as_midi1_channel_voice_message(*v))
            r.push_back(all16(*m));
END
OP("t121")
    auto p = mkp(a[0]);
    if (auto v = as_midi1_channel_voice_message_view(p))
        if (auto m = as_midi2_channel_voice_message(*v))
            if (auto n = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ *m }))
                r.push_back(all16(*n));
END
// ------------------------------------------------------ system, utility
static void vsys(Res& r, const universal_packet& p)
{
    auto v = as_system_message_view(p);
    if (v.has_value() != is_system_message(p))
        r.push_back({ -1 });
    if (v)
        r.push_back({ v->group(), v->status(), v->data_byte_1(), v->data_byte_2(), v->get_song_position() });
    else
        r.push_back({});
}
OP("sys") auto p = make_system_message(A(0), A(1), A(2), A(3)); r.push_back(all16(p)); vsys(r, p); END
OP("sys1") auto p = make_system_message(A(0), A(1), A(2)); r.push_back(all16(p)); vsys(r, p); END
OP("sys0") auto p = make_system_message(A(0), A(1)); r.push_back(all16(p)); vsys(r, p); END
OP("songpos") auto p = make_song_position_message(A(0), A(1)); r.push_back(all16(p)); vsys(r, p); END
OP("sysview") vsys(r, mkp(a[0])); END
static void vutil(Res& r, const universal_packet& p)
{
    utility_message_view v(p);
    r.push_back({ v.status() });
    r.push_back(b2(v.payload()));
}
OP("util") auto p = make_utility_message(A(0), H(a[1])); r.push_back(all16(p)); vutil(r, p); END
OP("utilview") vutil(r, mkp(a[0])); END
// jr [clock or timestamp, how] [ts] -> packet, timestamp read back
OP("jr")
    jr_timestamp_t   ts{ H(a[1]) };
    universal_packet p;
    jr_timestamp_t   back;
    auto             go = [&](auto m, auto n) {
        n.set_timestamp(ts);
        p    = A(1) ? universal_packet(n) : universal_packet(m);
        back = A(1) ? n.timestamp() : m.timestamp();
    };
    if (A(0))
        go(jr_timestamp_message{ ts }, jr_timestamp_message{});
    else
        go(jr_clock_message{ ts }, jr_clock_message{});
    r.push_back(all16(p));
    r.push_back(b2(back.value));
    vutil(r, p);
END
OP("dat.new") r.push_back(all16(data_message{ status_t(A(0)) })); r.push_back(all16(extended_data_message{ status_t(A(0)) })); END
// every constructor with every number of arguments: [g,system status,utility status,voice status,ch,d1,d2,format,address,bank,flex status,stream id] [2 bytes] [12 bytes]
OP("ctors")
    auto add = [&](const universal_packet& p) { r.push_back(all16(p)); };
    add(system_message(A(0), A(1)));
    add(system_message(A(0), A(1), A(5)));
    add(system_message(A(0), A(1), A(5), A(6)));
    add(utility_message(status_t(A(2))));
    add(utility_message(status_t(A(2)), H(a[1])));
    add(midi1_channel_voice_message(A(0), A(3) + A(4)));
    add(midi1_channel_voice_message(A(0), A(3) + A(4), A(5)));
    add(midi1_channel_voice_message(A(0), A(3) + A(4), A(5), A(6)));
    add(make_midi1_channel_voice_message(A(0), A(3), A(4), A(5)));
    add(flex_data_message(group_t(A(0))));
    auto f = packet_format(A(7));
    auto d = packet_address(A(8));
    add(flex_data_message(A(0), f, d, A(4), A(9), A(10)));
    add(flex_data_message(A(0), f, d, A(4), A(9), A(10), W(a[2])));
    add(flex_data_message(A(0), f, d, A(4), A(9), A(10), W(a[2]), W(a[2], 4)));
    add(flex_data_message(A(0), f, d, A(4), A(9), A(10), W(a[2]), W(a[2], 4), W(a[2], 8)));
    add(make_flex_data_message(A(0), f, d, A(4), A(9), A(10), W(a[2])));
    add(make_flex_data_message(A(0), f, d, A(4), A(9), A(10), W(a[2]), W(a[2], 4)));
    add(stream_message(status_t(A(9))));
    add(make_sysex7_complete_packet());
    add(make_sysex7_start_packet());
    add(make_sysex7_continue_packet());
    add(make_sysex7_end_packet());
    add(make_sysex8_complete_packet(A(11)));
    add(make_sysex8_start_packet(A(11)));
    add(make_sysex8_continue_packet(A(11)));
    add(make_sysex8_end_packet(A(11)));
    add(universal_packet{ W(a[2]) });
    add(universal_packet{ W(a[2]), W(a[2], 4) });
    add(universal_packet{ W(a[2]), W(a[2], 4), W(a[2], 8) });
    add(universal_packet{ W(a[2]), W(a[2], 4), W(a[2], 8), W(a[2]) });
    add(midi1_channel_voice_message{});
    add(midi2_channel_voice_message{});
    add(universal_packet{});
END
OP("plain") // default constructed messages
    r.push_back(all16(system_message{}));
    r.push_back(all16(utility_message{}));
    r.push_back(all16(data_message{}));
    r.push_back(all16(extended_data_message{}));
    r.push_back(all16(sysex7_packet{}));
    r.push_back(all16(sysex8_packet{}));
    r.push_back(all16(flex_data_message{}));
    r.push_back(all16(stream_message{}));
END
// -------------------------------------------------------- SysEx packets
static void v7(Res& r, const universal_packet& p)
{
    auto v = as_sysex7_packet_view(p);
    if (v.has_value() != is_sysex7_packet(p))
        r.push_back({ -1 });
    if (!v)
    {
        r.push_back({});
        r.push_back({});
        return;
    }
    r.push_back({ v->group(), v->status(), (int)v->format(), (long long)v->payload_size() });
    L l;
    for (size_t i = 0; i < v->payload_size(); ++i)
        l.push_back(v->payload_byte(i));
    r.push_back(l);
}
static void v8(Res& r, const universal_packet& p)
{
    auto v = as_sysex8_packet_view(p);
    if (v.has_value() != is_sysex8_packet(p))
        r.push_back({ -1 });
    if (!v)
    {
        r.push_back({});
        r.push_back({});
        return;
    }
    r.push_back({ v->group(), v->stream_id(), (int)v->format(), (long long)v->payload_size() });
    L l;
    for (size_t i = 0; i < v->payload_size(); ++i)
        l.push_back(v->payload_byte(i));
    r.push_back(l);
}
static void o7(Res& r)
{
    r.push_back(all16(S7));
    r.push_back({ (int)S7.format(), (long long)S7.payload_size() });
    L l;
    for (size_t i = 0; i < S7.payload_size(); ++i)
        l.push_back(S7.payload_byte(i));
    r.push_back(l);
    v7(r, S7);
}
static void o8(Res& r)
{
    r.push_back(all16(S8));
    r.push_back({ (int)S8.format(), (long long)S8.payload_size(), S8.stream_id() });
    L l;
    for (size_t i = 0; i < S8.payload_size(); ++i)
        l.push_back(S8.payload_byte(i));
    r.push_back(l);
    v8(r, S8);
}
OP("s7.new")
    switch (A(0))
    {
    case 0: S7 = make_sysex7_complete_packet(A(1)); break;
    case 1: S7 = make_sysex7_start_packet(A(1)); break;
    case 2: S7 = make_sysex7_continue_packet(A(1)); break;
    case 3: S7 = make_sysex7_end_packet(A(1)); break;
    }
    o7(r);
END
OP("s7.add") S7.add_payload_byte(uint8_t(A(0))); o7(r); END
OP("s7.set") S7.set_payload_byte(size_t(A(0)), uint8_t(A(1))); o7(r); END
OP("s7.size") S7.set_payload_size(size_t(A(0))); o7(r); END
OP("s8.new")
    switch (A(0))
    {
    case 0: S8 = make_sysex8_complete_packet(A(2), A(1)); break;
    case 1: S8 = make_sysex8_start_packet(A(2), A(1)); break;
    case 2: S8 = make_sysex8_continue_packet(A(2), A(1)); break;
    case 3: S8 = make_sysex8_end_packet(A(2), A(1)); break;
    }
    o8(r);
END
OP("s8.add") S8.add_payload_byte(uint8_t(A(0))); o8(r); END
OP("s8.set") S8.set_payload_byte(size_t(A(0)), uint8_t(A(1))); o8(r); END
OP("s8.size") S8.set_payload_size(size_t(A(0))); o8(r); END
OP("s8.id") S8.set_stream_id(uint8_t(A(0))); o8(r); END
OP("sx.views")
    auto p = mkp(a[0]);
    v7(r, p);
    v8(r, p);
    r.push_back({ is_data_message(p), is_extended_data_message(p) });
END
// ------------------------------------------------------------ flex data
static void vflex(Res& r, const universal_packet& p)
{
    auto v = as_flex_data_message_view(p);
    if (v.has_value() != is_flex_data_message(p))
        r.push_back({ -1 });
    if (v)
    {
        r.push_back({ v->group(), (int)v->format(), (int)v->address(), v->channel(), v->status_bank(), v->status() });
        L l;
        put(l, v->data1());
        put(l, v->data2());
        put(l, v->data3());
        r.push_back(l);
        r.push_back(S(v->payload_as_string()));
    }
    else
    {
        r.push_back({});
        r.push_back({});
        r.push_back({});
    }
}
static void oflex(Res& r, const flex_data_message& m)
{
    r.push_back(all16(m));
    r.push_back({ (int)m.format(), (int)m.address(), m.status_bank(), m.status() });
    r.push_back(S(m.payload_as_string()));
    vflex(r, m);
}
OP("flex")
    oflex(r, make_flex_data_message(A(0), packet_format(A(1)), packet_address(A(2)), A(3), A(4), A(5), W(a[1]), W(a[1], 4), W(a[1], 8)));
END
OP("flex0") oflex(r, make_flex_data_message(A(0), packet_format(A(1)), packet_address(A(2)), A(3), A(4), A(5))); END
OP("flex.text")
    oflex(r, make_flex_data_text_message(A(0), packet_format(A(1)), packet_address(A(2)), A(3), A(4), A(5), str(a[1])));
END
OP("flex.tempo") oflex(r, make_set_tempo_message(A(0), W(a[1]))); END
OP("flex.sig") oflex(r, make_set_time_signature_message(A(0), A(1), A(2), A(3))); END
OP("flex.metro") oflex(r, make_set_metronome_message(A(0), A(1), A(2), A(3), A(4), A(5), A(6))); END
OP("flex.key") oflex(r, make_set_key_signature_message(A(0), packet_address(A(1)), A(2), A(3), A(4))); END
OP("flex.chord") oflex(r, make_set_chord_message(A(0), packet_address(A(1)), A(2), W(a[1]), W(a[1], 4), W(a[1], 8))); END
OP("flex.view") vflex(r, mkp(a[0])); END
// --------------------------------------------------------------- stream
static void vstream(Res& r, const universal_packet& p)
{
    r.push_back({ is_stream_message(p) });
    auto none = [&](int n) { while (n--) r.push_back({}); };
    if (auto v = as_endpoint_discovery_view(p))
    {
        r.push_back({ v->ump_version_major(), v->ump_version_minor(), v->filter(), v->requests_info(), v->requests_device_identity(),
                      v->requests_name(), v->requests_product_instance_id(), v->requests_stream_configuration() });
        r.push_back(b2(v->ump_version()));
    }
    else
        none(2);
    if (auto v = as_endpoint_info_view(p))
    {
        r.push_back({ v->ump_version_major(), v->ump_version_minor(), v->num_function_blocks(), v->static_function_blocks(), v->protocols(),
                      v->extensions() });
        r.push_back(b2(v->ump_version()));
    }
    else
        none(2);
    if (auto v = as_device_identity_view(p))
    {
        auto i = v->identity();
        r.push_back(bytes4(i.manufacturer));
        r.push_back({ i.family, i.model, (long long)i.revision });
    }
    else
        none(2);
    if (auto v = as_endpoint_name_view(p))
    {
        r.push_back({ (int)v->format() });
        r.push_back(S(v->payload()));
    }
    else
        none(2);
    if (auto v = as_product_instance_id_view(p))
    {
        r.push_back({ (int)v->format() });
        r.push_back(S(v->payload()));
    }
    else
        none(2);
    if (auto v = as_stream_configuration_view(p))
        r.push_back({ v->protocol(), v->extensions() });
    else
        none(1);
    if (auto v = as_function_block_discovery_view(p))
        r.push_back({ v->function_block(), v->filter(), v->requests_info(), v->requests_name(), v->requests_function_block(0),
                      v->requests_function_block(5), v->requests_function_block(31) });
    else
        none(1);
    if (auto v = as_function_block_info_view(p))
        r.push_back({ v->active(), v->function_block(), v->direction(), v->midi1(), v->ui_hint(), v->first_group(), v->num_groups_spanned(),
                      v->ci_message_version(), v->max_num_sysex8_streams() });
    else
        none(1);
    if (auto v = as_function_block_name_view(p))
    {
        r.push_back({ (int)v->format(), v->function_block() });
        r.push_back(S(v->payload()));
    }
    else
        none(2);
}
#define STR(name, expr) OP(name) auto p = expr; r.push_back(all16(p)); r.push_back({ (int)p.format() }); vstream(r, p); END
STR("st.disc", make_endpoint_discovery_message(A(0), A(1), A(2)))
STR("st.disc0", make_endpoint_discovery_message(A(0)))
STR("st.info", make_endpoint_info_message(A(0), A(1) != 0, A(2), A(3), A(4), A(5)))
STR("st.info0", make_endpoint_info_message(A(0), A(1) != 0, A(2), A(3)))
STR("st.ident", make_device_identity_message({ W(a[1]), uint14_t(A(0)), uint14_t(A(1)), uint28_t(A(2)) }))
STR("st.name", make_endpoint_name_message(packet_format(A(0)), str(a[1])))
STR("st.pid", make_product_instance_id_message(packet_format(A(0)), str(a[1])))
STR("st.req", make_stream_configuration_request(A(0), A(1)))
STR("st.req0", make_stream_configuration_request(A(0)))
STR("st.not", make_stream_configuration_notification(A(0), A(1)))
STR("st.not0", make_stream_configuration_notification(A(0)))
STR("st.fbd", make_function_block_discovery_message(A(0), A(1)))
STR("st.fbi", make_function_block_info_message(uint7_t(A(0)), uint2_t(A(1)), group_t(A(2)), uint4_t(A(3))))
STR("st.fbi1", make_function_block_info_message(uint7_t(A(0)), uint2_t(A(1)), group_t(A(2))))
static function_block_options opt(const L& l)
{
    function_block_options o;
    o.active                 = l[0] != 0;
    o.direction              = uint2_t(l[1]);
    o.midi1                  = uint2_t(l[2]);
    o.ui_hint                = uint2_t(l[3]);
    o.ci_message_version     = uint8_t(l[4]);
    o.max_num_sysex8_streams = uint8_t(l[5]);
    return o;
}
STR("st.fbo", make_function_block_info_message(uint7_t(A(0)), opt(a[1]), group_t(A(1)), uint4_t(A(2))))
STR("st.fbo0", make_function_block_info_message(uint7_t(A(0)), function_block_options{}, group_t(A(1))))
STR("st.fbn", make_function_block_name_message(packet_format(A(0)), A(1), str(a[1])))
OP("st.view") vstream(r, mkp(a[0])); END
OP("st.new") SM = stream_message(status_t(A(0)), packet_format(A(1))); r.push_back(all16(SM)); r.push_back({ (int)SM.format() }); END
OP("st.fmt") SM.set_format(packet_format(A(0))); r.push_back(all16(SM)); r.push_back({ (int)SM.format() }); END
OP("st.byte") SM.set_byte(size_t(A(0)), uint8_t(A(1))); r.push_back(all16(SM)); r.push_back({ (int)SM.format() }); END
// names: every packet sent, then the text its view gives, then format and block number
OP("send.name")
    send_endpoint_name(str(a[0]), [&](const universal_packet& p) {
        r.push_back(all16(p));
        auto v = as_endpoint_name_view(p);
        r.push_back(v ? S(v->payload()) : L{ -1 });
        r.push_back(v ? L{ (int)v->format() } : L{ -1 });
    });
END
OP("send.pid")
    send_product_instance_id(str(a[0]), [&](const universal_packet& p) {
        r.push_back(all16(p));
        auto v = as_product_instance_id_view(p);
        r.push_back(v ? S(v->payload()) : L{ -1 });
        r.push_back(v ? L{ (int)v->format() } : L{ -1 });
    });
END
OP("send.fbn")
    send_function_block_name(uint7_t(A(0)), str(a[1]), [&](const universal_packet& p) {
        r.push_back(all16(p));
        auto v = as_function_block_name_view(p);
        r.push_back(v ? S(v->payload()) : L{ -1 });
        r.push_back(v ? L{ (int)v->format(), v->function_block() } : L{ -1 });
    });
END
int main() { return run_main(); }
