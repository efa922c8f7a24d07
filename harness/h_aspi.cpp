// H03: SPI transfers on Arduino: every byte exchanged once, in order, within one transaction.
#include "vf.h"
#include "arduino/SpiBus.h"
#include "SpiDevice.h"
#ifndef N
#define N 11
#endif
static uint8_t wire[N], replies[N];
static int pos;
static int open, transactions;
static SPISettings used;
static uint8_t exchange(uint8_t out)
{
    vf_assert(open == 1, "within a transaction");
    vf_assert(pos < N, "not more than asked");
    wire[pos] = out;
    return replies[pos++];
}
void SPIClass::beginTransaction(SPISettings s) { vf_assert(open == 0, "transactions don't nest"); ++open; ++transactions; used = s; }
void SPIClass::endTransaction() { vf_assert(open == 1, "ends what was begun"); --open; }
uint8_t SPIClass::transfer(uint8_t data) { return exchange(data); }
void SPIClass::transfer(uint8_t* data, uint32_t size) { for (int i = 0; i < N; ++i) if (i < int(size)) data[i] = exchange(data[i]); }
uint16_t SPIClass::transfer16(uint16_t d) { const uint16_t h = exchange(uint8_t(d >> 8)); return uint16_t(h << 8 | exchange(uint8_t(d))); }
uint32_t SPIClass::transfer32(uint32_t d) { const uint32_t h = transfer16(uint16_t(d >> 16)); return h << 16 | transfer16(uint16_t(d)); }
void SPIClass::transferBytes(const uint8_t* data, uint8_t* out, uint32_t size)
{
    vf_assert(size <= N, "not more than asked");
    for (int i = 0; i < N; ++i)
        if (i < int(size))
        {
            const uint8_t r = exchange(data ? data[i] : 0xFF);
            if (out) out[i] = r;
        }
}
void SPIClass::write(uint8_t data) { exchange(data); }
void SPIClass::writeBytes(const uint8_t* data, uint32_t size) { transferBytes(data, nullptr, size); }
static uint8_t tx[N], rx[N], before[N];
void vf_harness()
{
    vf_fill(tx, N);
    vf_fill(replies, N);
    vf_fill(before, N);
    for (int i = 0; i < N; ++i) rx[i] = before[i];
    static SPIClass spi;
    const uint32_t frequency = vf_nd_u32("frequency");
    embedded::SpiBus bus(spi, frequency);
    const embedded::SpiDevice device(bus);
    const int n = vf_range(0, N);
    // right-aligned: a byte too many is out of bounds
    const uint8_t* in = tx + N - n;
    uint8_t* out = rx + N - n;
#if OP == 0
    const bool ok = device.sendSync(in, uint16_t(n));
    out = nullptr;
#elif OP == 1
    const bool ok = device.receiveSync(out, uint16_t(n));
    in = nullptr;
#elif OP == 2
    const bool ok = device.sendAndReceive(in, out, uint16_t(n));
#elif OP == 3
    embedded::SpiBus& b = bus;
    ++open;     // the caller's transaction
    if (n == 1 && vf_nd_bool("one")) b.sendByte(*in); else b.sendBytes(in, uint16_t(n));
    --open;
    const bool ok = true;
    out = nullptr;
#endif
    vf_assert(ok && open == 0, "transaction ended");
    vf_assert(pos == n, "every byte once");
    if (OP != 3) vf_assert(transactions == 1, "one transaction");
    if (transactions) vf_assert(used.clock == frequency && used.dataMode == SPI_MODE0 && used.bitOrder == MSBFIRST, "with the bus settings");
    for (int i = 0; i < N; ++i)
    {
        if (i < n) vf_assert(wire[i] == (in ? in[i] : 0xFF), "the bytes sent, in order (ones when only receiving)");
        if (i < n && out) vf_assert(out[i] == replies[i], "the bytes received, in order");
        else if (!out || i < N - n) vf_assert(rx[i < N ? i : 0] == before[i] || (out && i >= N - n), "nothing else is written");
    }
    vf_witness(n == N, "long");
    vf_witness(n == 0, "empty");
    vf_witness(n % 4 == 3 && n > 4, "rest");
}
