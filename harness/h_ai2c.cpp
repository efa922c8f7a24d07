// H08: I2C on Arduino: success means that exactly these bytes were exchanged with the device.
#include "vf.h"
#include "arduino/I2CBus.h"
#include "I2CDevice.h"
#ifndef N
#define N 5
#endif
static uint8_t stream[N], sent[N];
static int got, ready, count, begun, ended, requests, order, endedAt, requestedAt;
static uint16_t address;
static uint8_t status;
static bool accepted = true;
void TwoWire::beginTransmission(uint16_t a) { address = a; ++begun; ++order; }
uint8_t TwoWire::endTransmission(bool stop)
{
    vf_assert(begun == ended + 1, "a transmission that was begun");
    vf_assert(stop, "the bus is released");
    ++ended;
    endedAt = ++order;
    return status;
}
size_t TwoWire::write(const uint8_t* data, size_t size)
{
    vf_assert(begun == ended + 1, "within a transmission");
    size_t n = size;
    if (!accepted && n > 0) n = size_t(vf_range(0, N));
    if (n >= size) { n = size; accepted = true; }
    for (int i = 0; i < N; ++i) if (i < int(n)) { vf_assert(count < N, "not more than given"); sent[count++] = data[i]; }
    return n;
}
size_t TwoWire::requestFrom(uint16_t a, size_t size, bool stop)
{
    vf_assert(stop, "the bus is released");
    address = a;
    ++requests;
    requestedAt = ++order;
    ready = vf_range(0, N);
    if (size_t(ready) > size) ready = int(size);
    return size_t(ready);
}
int TwoWire::available() { return ready - got; }
int TwoWire::read() { return got < ready ? stream[got++] : -1; }
static uint8_t tx[N], rx[N], before[N];
void vf_harness()
{
    vf_fill(tx, N);
    vf_fill(stream, N);
    vf_fill(before, N);
    for (int i = 0; i < N; ++i) rx[i] = before[i];
    static TwoWire wire;
    embedded::I2CBus bus(wire);
    const uint16_t a = vf_nd_u8("address") & 0x7F;
    const embedded::I2CDevice device(bus, a);
    status = vf_nd_u8("status");
    accepted = vf_nd_bool("accepts all");
    const int n = vf_range(0, N), m = vf_range(0, N);
    uint8_t* const in = rx + N - m;
#if OP == 0
    const bool ok = device.sendSync(tx + N - n, uint16_t(n));
    vf_assert(ok == (status == 0 && count == n), "success means acknowledged and all accepted");
    const int r = 0;
#elif OP == 1
    const bool ok = device.receiveSync(in, uint16_t(m));
    const int r = m;
    vf_assert(ok == (ready == m), "success means that all was received");
    vf_assert(begun == 0 && requests == 1, "one request");
#elif OP == 2
    const bool ok = device.sendThenReceive(tx + N - n, uint16_t(n), in, uint16_t(m));
    const int r = m;
    const bool sentAll = status == 0 && count == n;
    vf_assert(requests == (sentAll ? 1 : 0), "receives only after everything was sent");
    vf_assert(ok == (sentAll && ready == m), "success means both");
    if (requests) vf_assert(requestedAt > endedAt, "in this order");
#elif OP == 3
    bus.resetBus();
    const bool ok = false;
    const int r = 0;
    vf_assert(address == 0 && begun == 1 && ended == 1, "one general call");
    vf_assert(!accepted || (count == 1 && sent[0] == 6), "the reset command");
#endif
    vf_assert(begun == ended, "transmissions are ended");
    if (OP != 3) vf_assert(address == a || (begun == 0 && requests == 0), "this device");
    if (OP == 0 || OP == 2) for (int i = 0; i < N; ++i) if (i < count) vf_assert(sent[i] == tx[N - n + i], "the bytes given, in order");
    for (int i = 0; i < N; ++i)
    {
        if (ok && i < r) vf_assert(in[i] == stream[i], "the bytes received, in order");
        if (i < N - m || r == 0) vf_assert(rx[i] == before[i], "nothing else is written");
    }
#if OP != 3
    vf_witness(ok && n == N && m == N, "success");
    vf_witness(!ok && n > 0 && m > 0, "failure");
#else
    vf_witness(count == 1, "sent");
#endif
}
