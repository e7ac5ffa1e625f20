// MIDI-CI and universal SysEx: every factory, and every view on every message.
#include "exec.h"
#include "alloc.h"
#include <midi/capability_inquiry.h>
#include <midi/manufacturer.h>
#include <midi/universal_sysex.h>
#include <memory>

using namespace midi;
using namespace midi::ci;
namespace pe = midi::ci::property_exchange;
static std::unique_ptr<ci::message> cur;
void reset_case() { cur.reset(); }
static manufacturer_t ID(const L& l) { return (uint32_t(l[0]) << 16) | (uint32_t(l[1]) << 8) | uint32_t(l[2]); }
static L              idl(manufacturer_t m) { return { (long long)(m >> 16), (m >> 8) & 0xFF, m & 0xFF }; }
static L              range(const uint7_t* b, const uint7_t* e)
{
    L l;
    while (b != e)
        l.push_back(*b++);
    return l;
}
static L range(const uint7_t* b, size_t n) { return range(b, b + n); }
static L p5(const profile_id& p) { return { p.byte1, p.byte2, p.byte3, p.byte4, p.byte5 }; }
static profile_id P5(const L& l, size_t at = 0)
{
    return profile_id(uint7_t(l.at(at)), uint7_t(l.at(at + 1)), uint7_t(l.at(at + 2)), uint7_t(l.at(at + 3)), uint7_t(l.at(at + 4)));
}
static void ident(Res& r, const device_identity& i)
{
    r.push_back(idl(i.manufacturer));
    r.push_back({ i.family, i.model, (long long)i.revision });
}
static void nackview(Res& r, const nack::view& v)
{
    r.push_back({ v.transaction(), v.status_code(), v.status_data() });
    r.push_back(range(v.details(), 5));
    r.push_back({ v.message_length() });
    r.push_back(range(v.message_data(), v.message_length()));
    r.push_back(S(std::string(v.message())));
}
static void peview(Res& r, const pe::property_data_message_view& v)
{
    r.push_back({ v.request_id(), (long long)v.header_size(), v.number_of_chunks(), v.number_of_this_chunk(), (long long)v.chunk_size() });
    r.push_back(range(v.header_begin(), v.header_end()));
    r.push_back(range(v.chunk_begin(), v.chunk_end()));
}
static void disc(Res& r, const discovery::message_view& v)
{
    ident(r, v.identity());
    r.push_back({ v.categories(), (long long)v.maximum_message_size(), v.output_path_id() });
}

// Offered through every way a view can be asked for; 0 or the number of ways that offer it.
template<typename V, typename F> static void probe(const sysex7& s, L& flags, Res& r, F f)
{
    int n = 0;
    n += V::validate(s) ? 1 : 0;
    n += universal_sysex::message_view::make_optional<V>(s) ? 1 : 0;
    auto o = ci::as<V>(s);
    n += o ? 1 : 0;
    if (auto u = as_universal_sysex_view(s))
        n += u->template as<V>() ? 1 : 0;
    if (auto c = as_capability_inquiry_view(s))
        n += ci::as<V>(*c) ? 1 : 0;
    flags.push_back(n);
    if (o)
        f(*o);
}
static void views(const sysex7& s, Res& r)
{
    r.push_back({ is_universal_sysex_message(s), universal_sysex_type_of(s), universal_sysex_subtype_of(s), universal_sysex_device_id_of(s),
                  universal_sysex::is_identity_request(s), universal_sysex::is_identity_reply(s),
                  bool(universal_sysex::as_identity_reply_view(s)), is_capability_inquiry_message(s), bool(as_capability_inquiry_view(s)) });
    if (auto u = as_universal_sysex_view(s))
        r.push_back({ u->device_id(), u->type(), u->subtype(), (long long)u->data_size() });
    if (is_capability_inquiry_message(s))
    {
        capability_inquiry_view v(*as_universal_sysex_view(s)), w(s);
        if (v.source_muid() != w.source_muid() || v.destination_muid() != w.destination_muid())
            r.push_back({ -1 });
    }
    const size_t at = r.size();
    r.push_back({});
    L f;
    probe<universal_sysex::identity_reply_view>(s, f, r, [&](auto& v) { ident(r, v.identity()); });
    probe<capability_inquiry_view>(s, f, r, [&](auto& v) {
        r.push_back({ v.message_version(), v.device_id(), v.subtype(), (long long)v.source_muid(), (long long)v.destination_muid() });
    });
    probe<discovery_inquiry_view>(s, f, r, [&](auto& v) { disc(r, v); });
    probe<discovery_reply_view>(s, f, r, [&](auto& v) { disc(r, v); r.push_back({ v.function_block() }); });
    probe<endpoint_information_inquiry_view>(s, f, r, [&](auto& v) { r.push_back({ v.status() }); });
    probe<endpoint_information_reply_view>(s, f, r, [&](auto& v) {
        r.push_back({ v.status(), v.information_data_length() });
        r.push_back(range(v.information_data(), v.information_data_length()));
    });
    probe<ack_view>(s, f, r, [&](auto& v) { nackview(r, v); });
    probe<nak_view>(s, f, r, [&](auto& v) { nackview(r, v); });
    probe<invalidate_muid_view>(s, f, r, [&](auto& v) { r.push_back({ (long long)v.target_muid() }); });
    probe<profile_inquiry_view>(s, f, r, [&](auto&) {});
    probe<profile_inquiry_reply_view>(s, f, r, [&](auto& v) {
        r.push_back({ v.has_enabled_profiles(), v.has_disabled_profiles(), v.num_enabled_profiles(), v.num_disabled_profiles() });
        for (auto& list : { v.enabled_profiles(), v.disabled_profiles() })
        {
            L l;
            for (auto& p : list)
                for (auto b : p5(p))
                    l.push_back(b);
            r.push_back(l);
        }
    });
    probe<profile_id_view>(s, f, r, [&](auto& v) { r.push_back(p5(v.profile())); });
    probe<profile_destination_view>(s, f, r, [&](auto& v) {
        r.push_back(p5(v.profile()));
        r.push_back({ v.num_channels(), v.params().scope, v.params().num_channels });
    });
    probe<profile_details_inquiry_view>(s, f, r, [&](auto& v) {
        r.push_back(p5(v.profile()));
        r.push_back({ v.target() });
    });
    probe<profile_details_reply_view>(s, f, r, [&](auto& v) {
        r.push_back(p5(v.profile()));
        r.push_back({ v.target(), v.target_data_length() });
        r.push_back(range(v.target_data(), v.target_data_length()));
    });
    probe<profile_specific_data_view>(s, f, r, [&](auto& v) {
        r.push_back(p5(v.profile()));
        r.push_back({ (long long)v.data_size() });
        r.push_back(range(v.data_begin(), v.data_end()));
    });
    probe<property_exchange_capabilities_view>(s, f, r, [&](auto& v) {
        r.push_back({ v.maximum_number_of_requests(), v.pe_version_major(), v.pe_version_minor() });
    });
    probe<pe::property_data_message_view>(s, f, r, [&](auto& v) { peview(r, v); });
    probe<get_property_data_view>(s, f, r, [&](auto& v) { peview(r, v); });
    probe<set_property_data_view>(s, f, r, [&](auto& v) { peview(r, v); });
    probe<subscription_view>(s, f, r, [&](auto& v) { peview(r, v); });
    probe<notify_view>(s, f, r, [&](auto& v) { peview(r, v); });
    probe<process_inquiry_capabilities_reply_view>(s, f, r, [&](auto& v) { r.push_back({ v.supported_features() }); });
    probe<midi_message_report_inquiry_view>(s, f, r, [&](auto& v) {
        r.push_back({ v.message_data_control(), v.system_message_types(), v.channel_controller_message_types(), v.note_data_message_types() });
    });
    probe<midi_message_report_reply_view>(s, f, r, [&](auto& v) {
        r.push_back({ v.system_message_types(), v.channel_controller_message_types(), v.note_data_message_types() });
    });
    r[at] = f;
}
// the message, what its class says about it, and all views of an exactly sized copy
static void show(const ci::message& m, Res& r)
{
    r.push_back(idl(m.manufacturerID));
    r.push_back(range(m.data.data(), m.data.size()));
    r.push_back({ m.message_version(), (long long)m.source_muid(), (long long)m.destination_muid(), m.device_id(), m.type(), m.subtype() });
    auto v = range(m.data.data(), m.data.size());
    auto e = vec(v);
    views(sysex7(m.manufacturerID, e.data(), e.size()), r);
}
static void showu(const universal_sysex::message& m, Res& r)
{
    r.push_back(idl(m.manufacturerID));
    r.push_back(range(m.data.data(), m.data.size()));
    r.push_back({ m.device_id(), m.type(), m.subtype() });
    auto e = vec(range(m.data.data(), m.data.size()));
    views(sysex7(m.manufacturerID, e.data(), e.size()), r);
}
#define U28(x) uint28_t(x)
#define U7(x) uint7_t(x)
#define U14(x) uint14_t(x)
#define SRC U28(a[0].at(0))
#define DST U28(a[0].at(1))
#define DEV U7(a[0].at(2))
static device_identity IDN(const L& id, const L& x) { return { ID(id), U14(x.at(0)), U14(x.at(1)), U28(x.at(2)) }; }

OP("view") auto e = vec(a[1]); views(sysex7(ID(a[0]), e.data(), e.size()), r); END
// bytes above 127 are no SysEx: only has to survive
OP("view8") auto e = vec(a[1]); Res q; views(sysex7(ID(a[0]), e.data(), e.size()), q); END
// ---- universal sysex: [dev] / [id] [fam,model,rev] [dev]
OP("u.new") auto e = vec(a[1]); showu(universal_sysex::message(ID(a[0]), e.data(), e.size()), r); END
OP("u.dev") auto e = vec(a[1]); universal_sysex::message m(ID(a[0]), e.data(), e.size()); m.set_device_id(U7(a[2][0])); showu(m, r); END
OP("u.req") showu(a[1][0] ? universal_sysex::make_identity_request(U7(a[0][0])) : universal_sysex::identity_request(U7(a[0][0])), r); END
OP("u.req0") showu(a[0][0] ? universal_sysex::make_identity_request() : universal_sysex::identity_request(), r); END
OP("u.rep")
    if (a[3][0])
        showu(universal_sysex::make_identity_reply(ID(a[0]), U14(a[1][0]), U14(a[1][1]), U28(a[1][2]), U7(a[2][0])), r);
    else
        showu(universal_sysex::identity_reply(ID(a[0]), U14(a[1][0]), U14(a[1][1]), U28(a[1][2]), U7(a[2][0])), r);
END
OP("u.rep0")
    switch (a[2][0])
    {
    case 0: showu(universal_sysex::make_identity_reply(ID(a[0]), U14(a[1][0]), U14(a[1][1]), U28(a[1][2])), r); break;
    case 1: showu(universal_sysex::make_identity_reply(IDN(a[0], a[1])), r); break;
    case 2: showu(universal_sysex::identity_reply(IDN(a[0], a[1])), r); break;
    default: showu(universal_sysex::identity_reply(ID(a[0]), U14(a[1][0]), U14(a[1][1]), U28(a[1][2])), r);
    }
END
// ---- the message class: [src,dst,dev] [subtype]
OP("c.new") cur = std::make_unique<ci::message>(U7(a[1][0]), SRC, DST, DEV); show(*cur, r); END
OP("c.new0") cur = std::make_unique<ci::message>(U7(a[1][0]), SRC, DST); show(*cur, r); END
OP("c.newp") cur = std::make_unique<ci::message>(ci::message::make_with_payload_size(size_t(a[1][1]), U7(a[1][0]), SRC, DST, DEV)); show(*cur, r); END
OP("c.newp0") cur = std::make_unique<ci::message>(ci::message::make_with_payload_size(size_t(a[1][1]), U7(a[1][0]), SRC, DST)); show(*cur, r); END
OP("c.src") cur->set_source_muid(U28(a[0][0])); show(*cur, r); END
OP("c.dst") cur->set_destination_muid(U28(a[0][0])); show(*cur, r); END
OP("c.dev") cur->set_device_id(U7(a[0][0])); show(*cur, r); END
OP("c.add") auto e = vec(a[0]); cur->add_data(e.data(), e.size()); show(*cur, r); END
// ---- discovery [src,dst] [id] [fam,model,rev] [cat,max,path,fb]
OP("d.inq") show(make_discovery_inquiry(SRC, IDN(a[1], a[2]), U7(a[3][0]), U28(a[3][1]), U7(a[3][2])), r); END
OP("d.inq0") show(make_discovery_inquiry(SRC, IDN(a[1], a[2]), U7(a[3][0]), U28(a[3][1])), r); END
OP("d.inq1") show(make_discovery_inquiry_v1(SRC, IDN(a[1], a[2]), U7(a[3][0]), U28(a[3][1])), r); END
OP("d.rep") show(make_discovery_reply(SRC, DST, IDN(a[1], a[2]), U7(a[3][0]), U28(a[3][1]), U7(a[3][2]), U7(a[3][3])), r); END
OP("d.rep0") show(make_discovery_reply(SRC, DST, IDN(a[1], a[2]), U7(a[3][0]), U28(a[3][1]), U7(a[3][2])), r); END
OP("d.rep1") show(make_discovery_reply_v1(SRC, DST, IDN(a[1], a[2]), U7(a[3][0]), U28(a[3][1])), r); END
OP("e.inq") show(make_endpoint_information_inquiry(SRC, DST, U7(a[1][0])), r); END
OP("e.rep") auto e = vec(a[2]); show(make_endpoint_information_reply(SRC, DST, U7(a[1][0]), e.data(), e.size()), r); END
// ---- ack/nak [src,dst,dev] [transaction,code,data] [5] [text]
static void five(const L& l, uint7_t* d)
{
    for (int i = 0; i < 5; ++i)
        d[i] = uint7_t(l.at(i));
}
OP("n.ack") uint7_t d[5]; five(a[2], d); show(make_ack_message(SRC, DST, DEV, U7(a[1][0]), U7(a[1][1]), U7(a[1][2]), d, str(a[3])), r); END
OP("n.nak") uint7_t d[5]; five(a[2], d); show(make_nak_message(SRC, DST, DEV, U7(a[1][0]), U7(a[1][1]), U7(a[1][2]), d, str(a[3])), r); END
OP("n.nak1") show(make_nak_message_v1(SRC, DST, DEV), r); END
// to a received message [id] [data] [code,data] [5] [text]
OP("n.nakv")
    uint7_t d[5]; five(a[3], d);
    auto e = vec(a[1]);
    sysex7 s(ID(a[0]), e.data(), e.size());
    show(make_nak_message(*as_capability_inquiry_view(s), U7(a[2][0]), U7(a[2][1]), d, str(a[4])), r);
END
OP("n.nakv1")
    auto e = vec(a[1]);
    sysex7 s(ID(a[0]), e.data(), e.size());
    show(make_nak_message_v1(*as_capability_inquiry_view(s)), r);
END
OP("n.inv") show(make_invalidate_muid_message(SRC, U28(a[1][0])), r); END
// ---- profiles [src,dst,dev] ...
static std::vector<profile_id> plist(const L& l)
{
    std::vector<profile_id> v;
    for (size_t i = 0; i + 5 <= l.size(); i += 5)
        v.push_back(P5(l, i));
    return v;
}
OP("p.inq") show(make_profile_inquiry_message(SRC, DST, DEV), r); END
OP("p.inq0") show(make_profile_inquiry_message(SRC, DST), r); END
OP("p.rep")
    auto e = plist(a[1]);
    auto d = plist(a[2]);
    if (a[3][0])
        show(make_profile_inquiry_reply(SRC, DST, e.data(), U14(e.size()), d.data(), U14(d.size()), DEV), r);
    else
        show(make_profile_inquiry_reply(SRC, DST, e, d, DEV), r);
END
OP("p.rep0")
    auto e = plist(a[1]);
    auto d = plist(a[2]);
    if (a[3][0])
        show(make_profile_inquiry_reply(SRC, DST, e.data(), U14(e.size()), d.data(), U14(d.size())), r);
    else
        show(make_profile_inquiry_reply(SRC, DST, e, d), r);
END
// [src,dst,scope] [profile] [channels]
#define DEST profile_destination{ DEV, U14(a[2][0]) }
OP("p.on") show(make_profile_on_request(SRC, DST, P5(a[1]), DEST), r); END
OP("p.off") show(make_profile_off_request(SRC, DST, P5(a[1]), DEST), r); END
OP("p.ena") show(make_profile_enabled_notification(SRC, DST, P5(a[1]), DEST), r); END
OP("p.dis") show(make_profile_disabled_notification(SRC, DST, P5(a[1]), DEST), r); END
OP("p.add") show(make_profile_added_notification(SRC, DST, P5(a[1]), DEV), r); END
OP("p.add0") show(make_profile_added_notification(SRC, DST, P5(a[1])), r); END
OP("p.rem") show(make_profile_removed_notification(SRC, DST, P5(a[1]), DEV), r); END
OP("p.rem0") show(make_profile_removed_notification(SRC, DST, P5(a[1])), r); END
OP("p.dest")
    auto c = channel_profile(U7(a[0][0]), U14(a[0][1])), d = channel_profile(U7(a[0][0]));
    r.push_back({ c.scope, c.num_channels, d.scope, d.num_channels, group_profile.scope, group_profile.num_channels,
                  function_block_profile.scope, function_block_profile.num_channels, c == d, c == group_profile });
END
OP("p.eq") r.push_back({ P5(a[0]) == P5(a[1]) }); END
OP("p.dinq") show(make_profile_details_inquiry(SRC, DST, P5(a[1]), U7(a[2][0]), DEV), r); END
OP("p.dinq0") show(make_profile_details_inquiry(SRC, DST, P5(a[1]), U7(a[2][0])), r); END
OP("p.drep") auto e = vec(a[3]); show(make_profile_details_reply(SRC, DST, P5(a[1]), U7(a[2][0]), e.data(), e.size(), DEV), r); END
OP("p.drep0") auto e = vec(a[3]); show(make_profile_details_reply(SRC, DST, P5(a[1]), U7(a[2][0]), e.data(), e.size()), r); END
OP("p.psd")
    auto e = vec(a[2]);
    if (a[3][0])
        show(make_profile_specific_data_message(SRC, DST, P5(a[1]), e.data(), e.size(), DEV), r);
    else
        show(make_profile_specific_data_message(SRC, DST, P5(a[1]), e, DEV), r);
END
OP("p.psd0")
    auto e = vec(a[2]);
    if (a[3][0])
        show(make_profile_specific_data_message(SRC, DST, P5(a[1]), e.data(), e.size()), r);
    else
        show(make_profile_specific_data_message(SRC, DST, P5(a[1]), e), r);
END
// ---- property exchange [src,dst,dev] [req] ...
#define REQ U7(a[1].at(0))
// [req, mode]: mode 1 leaves out the device id, mode 2 also the request id
#define Q(f, ...) \
    switch (a[1].size() > 1 ? a[1][1] : 0) \
    { \
    case 2: show(f(__VA_ARGS__), r); break; \
    case 1: show(f(__VA_ARGS__, REQ), r); break; \
    default: show(f(__VA_ARGS__, REQ, DEV), r); \
    }
template<typename T> struct Piece // header or chunk made in one of the ways there are
{
    std::string          s;
    std::vector<uint7_t> v;
    T                    t;
    Piece(const L& l, long long how, bool none = false) // none: chunk number 0 takes no chunk at all
      : s(str(l))
      , v(vec(l))
    {
        s.shrink_to_fit();
        if (none)
            return;
        switch (how)
        {
        case 0: t = T{ v.data(), v.size() }; break;
        case 1: t = T{ v }; break;
        case 2: t = T{ s }; break;
        case 3: t = T{ std::string_view{ s } }; break;
        case 4: t = T{ s.data(), s.size() }; break;
        default: if (!l.empty()) t = T{ v };
        }
    }
};
static pe::header_options opts(const std::vector<std::string>& s)
{
    pe::header_options o;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        o.emplace_back(s[i], s[i + 1]);
    return o;
}
static std::vector<std::string> texts(const Args& a, size_t from)
{
    std::vector<std::string> v;
    for (size_t i = from; i < a.size(); ++i)
    {
        v.push_back(str(a[i]));
        v.back().shrink_to_fit();
    }
    return v;
}
OP("x.caps") show(make_property_exchange_capabilities_inquiry(SRC, DST, U7(a[1][0]), DEV), r); END
OP("x.caps0") show(make_property_exchange_capabilities_inquiry(SRC, DST), r); END
OP("x.capr") show(make_property_exchange_capabilities_reply(SRC, DST, U7(a[1][0]), DEV), r); END
OP("x.capr0") show(make_property_exchange_capabilities_reply(SRC, DST), r); END
// generic [src,dst,dev] [req] [subtype,how,n,this] [header] [chunk]
OP("x.data")
    Piece<pe::header> h(a[3], a[2][1]);
    Piece<pe::chunk>  c(a[4], a[2][1], a[2][3] == 0);
    if (h.t.as_string_view() != h.s || (a[2][3] && c.t.as_string_view() != c.s))
        r.push_back({ -1 });
    Q(pe::make_property_data_message, U7(a[2][0]), SRC, DST, h.t, U14(a[2][2]), U14(a[2][3]), c.t);
END
OP("x.get") Q(make_get_property_data_inquiry, SRC, DST, str(a[2])); END
OP("x.geto") auto t = texts(a, 3); Q(make_get_property_data_inquiry, SRC, DST, str(a[2]), opts(t)); END
// [src,dst,dev] [req] [n,this,how] [header] [chunk]
OP("x.getr")
    Piece<pe::header> h(a[3], a[2][2]);
    Piece<pe::chunk>  c(a[4], a[2][2], a[2][1] == 0);
    Q(make_get_property_data_reply, SRC, DST, h.t, U14(a[2][0]), U14(a[2][1]), c.t);
END
// [src,dst,dev] [req] [n,this,how,status] [text] [chunk]
OP("x.getrs") Piece<pe::chunk> c(a[4], a[2][2], a[2][1] == 0); Q(make_get_property_data_reply, SRC, DST, int(a[2][3]), U14(a[2][0]), U14(a[2][1]), c.t); END
OP("x.getrm") Piece<pe::chunk> c(a[4], a[2][2], a[2][1] == 0); Q(make_get_property_data_reply, SRC, DST, int(a[2][3]), str(a[3]), U14(a[2][0]), U14(a[2][1]), c.t); END
OP("x.getrc") Piece<pe::chunk> c(a[4], a[2][2], a[2][1] == 0); Q(make_get_property_data_reply, SRC, DST, U14(a[2][0]), U14(a[2][1]), c.t); END
OP("x.set") Piece<pe::chunk> c(a[4], a[2][2], a[2][1] == 0); Q(make_set_property_data_inquiry, SRC, DST, str(a[3]), U14(a[2][0]), U14(a[2][1]), c.t); END
OP("x.seto") auto t = texts(a, 5); Piece<pe::chunk> c(a[4], a[2][2], a[2][1] == 0); Q(make_set_property_data_inquiry, SRC, DST, str(a[3]), opts(t), U14(a[2][0]), U14(a[2][1]), c.t); END
OP("x.setc") Piece<pe::chunk> c(a[4], a[2][2], a[2][1] == 0); Q(make_set_property_data_inquiry, SRC, DST, U14(a[2][0]), U14(a[2][1]), c.t); END
// [src,dst,dev] [req] [status] ([text])
OP("x.setr") Q(make_set_property_data_reply, SRC, DST, int(a[2][0])); END
OP("x.setrm") Q(make_set_property_data_reply, SRC, DST, int(a[2][0]), std::string_view(str(a[3]))); END
OP("x.subr") Q(make_subscription_reply, SRC, DST, int(a[2][0])); END
OP("x.subrm") Q(make_subscription_reply, SRC, DST, int(a[2][0]), std::string_view(str(a[3]))); END
OP("x.not") Q(make_notify_message, SRC, DST, int(a[2][0])); END
OP("x.notm") Q(make_notify_message, SRC, DST, int(a[2][0]), std::string_view(str(a[3]))); END
// [src,dst,dev] [req] [n,this,how] [resource] [chunk] [command] [subscribeId]
OP("x.sub") Q(make_subscription_inquiry, SRC, DST, str(a[3]), str(a[5]), str(a[6])); END
OP("x.subn") Piece<pe::chunk> c(a[4], a[2][2], a[2][1] == 0); Q(make_subscription_inquiry, SRC, DST, str(a[3]), str(a[5]), str(a[6]), U14(a[2][0]), U14(a[2][1]), c.t); END
OP("x.subc") Piece<pe::chunk> c(a[4], a[2][2], a[2][1] == 0); Q(make_subscription_inquiry, SRC, DST, U14(a[2][0]), U14(a[2][1]), c.t); END
// json [key] [value] options...
OP("j.s") r.push_back(S(pe::make_rjson(str(a[0]), str(a[1])))); END
OP("j.i") r.push_back(S(pe::make_rjson(str(a[0]), int(a[1][0])))); END
OP("j.so") auto t = texts(a, 2); r.push_back(S(pe::make_rjson(str(a[0]), str(a[1]), opts(t)))); END
OP("j.io") auto t = texts(a, 2); r.push_back(S(pe::make_rjson(str(a[0]), int(a[1][0]), opts(t)))); END
// ---- process inquiry [src,dst,dev] ...
OP("q.caps") show(make_process_inquiry_capabilities_inquiry(SRC, DST, DEV), r); END
OP("q.caps0") show(make_process_inquiry_capabilities_inquiry(SRC, DST), r); END
OP("q.capr") show(make_process_inquiry_capabilities_reply(SRC, DST, U7(a[1][0]), DEV), r); END
OP("q.capr0") show(make_process_inquiry_capabilities_reply(SRC, DST, U7(a[1][0])), r); END
OP("q.inq") show(make_midi_message_report_inquiry(SRC, DST, U7(a[1][0]), U7(a[1][1]), U7(a[1][2]), U7(a[1][3]), DEV), r); END
OP("q.inq0") show(make_midi_message_report_inquiry(SRC, DST, U7(a[1][0]), U7(a[1][1]), U7(a[1][2]), U7(a[1][3])), r); END
OP("q.rep") show(make_midi_message_report_reply(SRC, U7(a[1][0]), U7(a[1][1]), U7(a[1][2]), DEV), r); END
OP("q.rep0") show(make_midi_message_report_reply(SRC, U7(a[1][0]), U7(a[1][1]), U7(a[1][2])), r); END
OP("q.end") show(make_midi_message_report_end(SRC, DEV), r); END
OP("q.end0") show(make_midi_message_report_end(SRC), r); END
int main() { return run_main(); }
