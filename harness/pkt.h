#pragma once
#include "exec.h"
#include <midi/universal_packet.h>
inline void put(L& l, const midi::universal_packet& p)
{
    for (unsigned w = 0; w < p.size(); ++w)
        put(l, p.data[w]);
}
inline midi::universal_packet mkp(const L& l)
{
    uint32_t w[4] = { 0, 0, 0, 0 };
    for (size_t i = 0; i * 4 < l.size() && i < 4; ++i)
        w[i] = W(l, i * 4);
    return midi::universal_packet{ w[0], w[1], w[2], w[3] };
}
