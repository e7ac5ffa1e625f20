// Value types.
#include "exec.h"
#include "alloc.h"
#include <cmath>
#include <cassert>
#include <midi/types.h>
using namespace midi;
void reset_case() { }
static L        b2(uint16_t v) { return { v >> 8, v & 0xFF }; }
static uint16_t H(const L& l) { return uint16_t((l[0] << 8) | l[1]); }
static L        b4(uint32_t v) { return bytes4(v); }
static int32_t  SI(const L& l) { return int32_t(W(l)); }
OP("up") r.push_back(b4(upsample_x_to_ybit(W(a[1]), uint8_t(a[0][0]), uint8_t(a[0][1])))); END
OP("up7")
    uint7_t v = uint7_t(a[0][0]);
    r.push_back(b4(upsample_7_to_16bit(v)));
    r.push_back(b4(upsample_7_to_32bit(v)));
    r.push_back(b4(velocity(v).value));
    r.push_back(b4(controller_value(v).value));
    r.push_back({ velocity(v).as_uint7() });
    r.push_back({ controller_value(v).as_uint7() });
    r.push_back({ downsample_16_to_7bit(upsample_7_to_16bit(v)), downsample_32_to_7bit(upsample_7_to_32bit(v)) });
END
OP("up14")
    uint14_t v = uint14_t(a[0][0]);
    r.push_back(b4(upsample_14_to_32bit(v)));
    r.push_back(b4(pitch_bend(v).value));
    r.push_back(b4(controller_value(v).value));
    r.push_back({ pitch_bend(v).as_uint14() });
    r.push_back({ controller_value(v).as_uint14() });
    r.push_back({ downsample_32_to_14bit(upsample_14_to_32bit(v)) });
END
OP("down16") r.push_back({ downsample_16_to_7bit(H(a[0])), velocity(H(a[0])).as_uint7() }); END
OP("down32")
    auto v = W(a[0]);
    r.push_back({ downsample_32_to_7bit(v), controller_value(v).as_uint7() });
    r.push_back({ downsample_32_to_14bit(v), controller_value(v).as_uint14(), pitch_bend(v).as_uint14() });
END
OP("p+i")
    pitch_7_25      p(W(a[0]));
    pitch_increment i(SI(a[1]));
    r.push_back(b4((p + i).value));
    p += i;
    r.push_back(b4(p.value));
END
OP("i+i")
    pitch_increment p(SI(a[0]));
    pitch_increment i(SI(a[1]));
    r.push_back(b4(uint32_t((p + i).value)));
    p += i;
    r.push_back(b4(uint32_t(p.value)));
END
OP("c+i")
    controller_value     p(W(a[0]));
    controller_increment i(SI(a[1]));
    r.push_back(b4((p + i).value));
    p += i;
    r.push_back(b4(p.value));
END
OP("b*s")
    pitch_bend             b(W(a[0]));
    pitch_bend_sensitivity s(W(a[1]));
    r.push_back(b4(uint32_t((b * s).value)));
    r.push_back(b4(uint32_t((s * b).value)));
END
OP("p79")
    pitch_7_9 p(H(a[0]));
    r.push_back({ p.note_nr() });
    r.push_back(b4(pitch_7_25(p).value));
    pitch_7_25 q;
    q = p;
    r.push_back(b4(q.value));
    r.push_back({ q.note_nr() });
END
OP("p725")
    pitch_7_25 p(W(a[0]));
    r.push_back({ p.note_nr() });
    r.push_back(b4(controller_value(p).value));
    r.push_back(b4(pitch_7_25(controller_value(W(a[0]))).value));
END
OP("note")
    note_nr_t n = note_nr_t(a[0][0]);
    r.push_back(b2(pitch_7_9(n).value));
    r.push_back(b4(pitch_7_25(n).value));
    r.push_back({ pitch_7_9(n).note_nr(), pitch_7_25(n).note_nr() });
END
template<typename T> static void eq(L& l, T x, T y)
{
    l.push_back(x == y);
    l.push_back(x != y);
}
OP("eq32")
    L l;
    eq(l, pitch_bend(W(a[0])), pitch_bend(W(a[1])));
    eq(l, pitch_increment(SI(a[0])), pitch_increment(SI(a[1])));
    eq(l, pitch_7_25(W(a[0])), pitch_7_25(W(a[1])));
    eq(l, controller_value(W(a[0])), controller_value(W(a[1])));
    eq(l, controller_increment(SI(a[0])), controller_increment(SI(a[1])));
    r.push_back(l);
END
OP("eq16")
    L l;
    eq(l, velocity(H(a[0])), velocity(H(a[1])));
    eq(l, pitch_7_9(H(a[0])), pitch_7_9(H(a[1])));
    r.push_back(l);
END
OP("defaults")
    r.push_back(b2(velocity().value));
    r.push_back(b4(pitch_bend().value));
    r.push_back(b4(uint32_t(pitch_increment().value)));
    r.push_back(b2(pitch_7_9().value));
    r.push_back(b4(pitch_7_25().value));
    r.push_back(b4(pitch_bend_sensitivity().value));
    r.push_back(b4(uint32_t(controller_increment().value)));
    r.push_back(b4(controller_value().value));
    pitch_bend b(uint32_t(5));
    b.reset();
    r.push_back(b4(b.value));
END
// reals: [neg, s] [n, 7 bytes] : +- n / 2^s
static double real(const L& h, const L& n)
{
    double d = 0;
    for (auto b : n)
        d = d * 256 + double(b);
    d = std::ldexp(d, -int(h[1]));
    return h[0] ? -d : d;
}
#define RD real(a[0], a[1])
#define RF float(real(a[0], a[1]))
OP("r79") r.push_back(b2(pitch_7_9(RD).value)); END
OP("r79f") r.push_back(b2(pitch_7_9(RF).value)); END
OP("r725") r.push_back(b4(pitch_7_25(RD).value)); END
OP("r725f") r.push_back(b4(pitch_7_25(RF).value)); END
OP("rinc") r.push_back(b4(uint32_t(pitch_increment(RD).value))); END
OP("rincf") r.push_back(b4(uint32_t(pitch_increment(RF).value))); END
OP("p+r") r.push_back(b4((pitch_7_25(W(a[2])) + RD).value)); END
OP("p+rf") r.push_back(b4((pitch_7_25(W(a[2])) + RF).value)); END
OP("rvel") r.push_back(b2(velocity(RD).value)); END
OP("rvelf") r.push_back(b2(velocity(RF).value)); END
OP("rctl") r.push_back(b4(controller_value(RD).value)); END
OP("rctlf") r.push_back(b4(controller_value(RF).value)); END
OP("rbend") r.push_back(b4(pitch_bend(RD).value)); END
OP("rbendf") r.push_back(b4(pitch_bend(RF).value)); END
OP("rtvel") velocity v(H(a[0])); r.push_back(b2(velocity(v.as_double()).value)); r.push_back(b2(velocity(v.as_float()).value)); END
OP("rtctl") controller_value v(W(a[0])); r.push_back(b4(controller_value(v.as_double()).value)); END
OP("rtp79")
    pitch_7_9 v(H(a[0]));
    r.push_back(b2(pitch_7_9(v.as_double()).value));
    r.push_back(b2(pitch_7_9(v.as_float()).value));
    r.push_back(b4(uint32_t(v.as_double() * 512)));
END
OP("rtp725")
    pitch_7_25 v(W(a[0]));
    r.push_back(b4(pitch_7_25(v.as_double()).value));
    r.push_back(b4(uint32_t(v.as_double() * 33554432.)));
END
OP("rtbend") pitch_bend v(W(a[0])); r.push_back(b4(pitch_bend(v.as_double()).value)); END
static long long fix(double d) { return (long long)std::floor(d * 1073741824.); }
OP("asvel") velocity v(H(a[0])); r.push_back({ fix(v.as_double()), fix(v.as_float()) }); END
OP("asctl") controller_value v(W(a[0])); r.push_back({ fix(v.as_double()), fix(v.as_float()) }); END
OP("asbend") pitch_bend v(W(a[0])); r.push_back({ fix(v.as_double()), fix(v.as_float()) }); END
// mono [kind] [neg, s] [n]   signed results
OP("mono")
    double d = real(a[1], a[2]);
    switch (a[0][0])
    {
    case 1: r.push_back(b4(uint32_t(pitch_increment(d).value))); break;
    case 2: r.push_back(b4(uint32_t(pitch_increment(float(d)).value))); break;
    default: exit(3);
    }
END
OP("monou")
    double d = a[0][0] < 20 ? real(a[1], a[2]) : 0;
    switch (a[0][0])
    {
    case 1: r.push_back(b4(velocity(d).value)); break;
    case 2: r.push_back(b4(velocity(float(d)).value)); break;
    case 3: r.push_back(b4(controller_value(d).value)); break;
    case 4: r.push_back(b4(controller_value(float(d)).value)); break;
    case 5: r.push_back(b4(pitch_bend(d).value)); break;
    case 6: r.push_back(b4(pitch_bend(float(d)).value)); break;
    case 7: r.push_back(b4(pitch_7_9(d).value)); break;
    case 8: r.push_back(b4(pitch_7_9(float(d)).value)); break;
    case 9: r.push_back(b4(pitch_7_25(d).value)); break;
    case 10: r.push_back(b4(pitch_7_25(float(d)).value)); break;
    // readings of stored values, [kind] [value]
    case 20: r.push_back(b4(uint32_t(fix(velocity(H(a[1])).as_double())))); break;
    case 21: r.push_back(b4(uint32_t(fix(controller_value(W(a[1])).as_double())))); break;
    case 22: r.push_back(b4(uint32_t(fix(pitch_bend(W(a[1])).as_double()) + 1073741824))); break;
    case 23: r.push_back(b4(uint32_t(fix(pitch_7_25(W(a[1])).as_double() / 128)))); break;
    case 24: r.push_back(b4(uint32_t(fix(velocity(H(a[1])).as_float())))); break;
    case 25: r.push_back(b4(uint32_t(fix(controller_value(W(a[1])).as_float())))); break;
    case 26: r.push_back(b4(uint32_t(fix(pitch_bend(W(a[1])).as_float()) + 1073741824))); break;
    case 27: r.push_back(b4(uint32_t(fix(pitch_7_25(W(a[1])).as_float() / 128)))); break;
    default: exit(3);
    }
END
// sweeps: 256 consecutive stored values or inputs at once
#define SWEEP(n) for (unsigned v = unsigned(a[0][0]) * 256, e_ = v + (n); v < e_; ++v)
OP("sw.down16")
    r.resize(2);
    SWEEP(256)
    {
        r[0].push_back(downsample_16_to_7bit(uint16_t(v)));
        r[1].push_back(velocity(uint16_t(v)).as_uint7());
    }
END
OP("sw.up14")
    r.resize(9);
    SWEEP(256)
    {
        const uint32_t u[] = { upsample_14_to_32bit(uint14_t(v)), pitch_bend(uint14_t(v)).value, controller_value(uint14_t(v)).value };
        for (int i = 0; i < 3; ++i)
        {
            r[2 * i].push_back(u[i] >> 16);
            r[2 * i + 1].push_back(u[i] & 0xFFFF);
        }
        r[6].push_back(downsample_32_to_14bit(u[0]));
        r[7].push_back(pitch_bend(uint14_t(v)).as_uint14());
        r[8].push_back(controller_value(uint14_t(v)).as_uint14());
    }
END
OP("sw.p79")
    r.resize(4);
    SWEEP(256)
    {
        pitch_7_9 p{ uint16_t(v) };
        r[0].push_back(p.note_nr());
        r[1].push_back(pitch_7_25(p).value >> 16);
        r[2].push_back(pitch_7_25(p).value & 0xFFFF);
        r[3].push_back(pitch_7_25(p).note_nr());
    }
END
OP("sw.rt")
    r.resize(4);
    SWEEP(256)
    {
        velocity  x{ uint16_t(v) };
        pitch_7_9 p{ uint16_t(v) };
        r[0].push_back(velocity(x.as_double()).value);
        r[1].push_back(velocity(x.as_float()).value);
        r[2].push_back(pitch_7_9(p.as_double()).value);
        r[3].push_back(pitch_7_9(p.as_float()).value);
    }
END
OP("sw.asvel") // one more than 256: the next sweep begins with the last value of this one
    r.resize(2);
    SWEEP(v == 65280 ? 256u : 257u)
    {
        r[0].push_back(fix(velocity(uint16_t(v)).as_double()));
        r[1].push_back(fix(velocity(uint16_t(v)).as_float()));
    }
END
OP("sw.rvel") // v / 2^16
    r.resize(2);
    SWEEP(257)
    {
        r[0].push_back(velocity(v / 65536.).value);
        r[1].push_back(velocity(float(v) / 65536.f).value);
    }
END
OP("sw.r79") // v / 2^10
    r.resize(2);
    SWEEP(257)
    {
        r[0].push_back(pitch_7_9(v / 1024.).value);
        r[1].push_back(pitch_7_9(float(v) / 1024.f).value);
    }
END
int main() { return run_main(); }
