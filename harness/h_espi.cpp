// H01: SPI transfers on ESP32: every byte exchanged once, in order, in chunks the DMA can take.  H02: the bus life cycle.
#include "vf.h"
#include <soc/lldesc.h>
#include <driver/spi_master.h>
#include "esp32-esp-idf/SpiBus.h"
#include "esp32-esp-idf/GpioPinDefinition.h"
#include "SpiDevice.h"
#ifndef N
#define N 11
#endif
#define CHUNK LLDESC_MAX_NUM_PER_DESC
struct spi_device_t { int host; };
static spi_device_t theDevice;
static bool busUp, deviceUp, half;
static spi_host_device_t host;
static int inits, frees, adds, removes;
static spi_bus_config_t busConfig;
static spi_device_interface_config_t deviceConfig;
static bool failInit, failAdd, failRemove, failFree;
static bool failTransfer, failed;
static uint8_t wire[N], replies[N];
static uint32_t pos;        // bits are exchanged up to here
static uint8_t* rxStart;    // where the received bytes belong
static const uint8_t* txStart;
static uint32_t total;
static bool contents = true;
static int transmissions;
extern "C" {
void mock_abort() { vf_assume(0); }
esp_err_t spi_bus_initialize(spi_host_device_t h, const spi_bus_config_t* c, spi_dma_chan_t dma)
{
    vf_assert(!busUp, "the bus isn't initialised twice");
    vf_assert(dma != SPI_DMA_DISABLED || c->max_transfer_sz <= 64, "long transfers need DMA");
    if (failInit) return ESP_FAIL;
    busUp = true;
    ++inits;
    host = h;
    busConfig = *c;
    return ESP_OK;
}
esp_err_t spi_bus_free(spi_host_device_t h)
{
    vf_assert(busUp && h == host, "only a bus that is up is freed");
    vf_assert(!deviceUp, "the bus is freed after its device is removed");
    if (failFree) return ESP_FAIL;
    busUp = false;
    ++frees;
    return ESP_OK;
}
esp_err_t spi_bus_add_device(spi_host_device_t h, const spi_device_interface_config_t* c, spi_device_handle_t* out)
{
    vf_assert(busUp && h == host, "devices are added to the initialised bus");
    vf_assert(!deviceUp, "one device");
    if (failAdd) return ESP_ERR_NO_MEM;
    deviceUp = true;
    ++adds;
    deviceConfig = *c;
    half = (c->flags & SPI_DEVICE_HALFDUPLEX) != 0;
    *out = &theDevice;
    return ESP_OK;
}
esp_err_t spi_bus_remove_device(spi_device_handle_t d)
{
    vf_assert(d == &theDevice && deviceUp, "only an added device is removed");
    if (failRemove) return ESP_ERR_INVALID_STATE;
    deviceUp = false;
    ++removes;
    return ESP_OK;
}
esp_err_t spi_device_polling_transmit(spi_device_handle_t d, spi_transaction_t* t)
{
    vf_assert(d == &theDevice && deviceUp, "transfers go to the device");
    vf_assert(!failed, "stops at the first failure");
    if (failTransfer && vf_nd_bool("fails")) { failed = true; return ESP_FAIL; }
    ++transmissions;
    const uint8_t* const tx = (t->flags & SPI_TRANS_USE_TXDATA) ? t->tx_data : static_cast<const uint8_t*>(t->tx_buffer);
    uint8_t* const rx = (t->flags & SPI_TRANS_USE_RXDATA) ? t->rx_data : static_cast<uint8_t*>(t->rx_buffer);
    vf_assert(t->length % 8 == 0 && t->rxlength % 8 == 0, "whole bytes");
    const uint32_t out = tx ? uint32_t(t->length / 8) : 0;
    // in full duplex mode the length is also that of what is received, unless rxlength is less
    const uint32_t in = rx ? uint32_t(half || t->rxlength ? t->rxlength / 8 : t->length / 8) : 0;
    if (half) vf_assert(!rx || !tx || out == 0 || in == 0, "half duplex: either way");
    else vf_assert(t->rxlength <= t->length, "full duplex: not more in than out");
    const uint32_t n = out > in ? out : in;
    vf_assert(n <= uint32_t(busConfig.max_transfer_sz) && n <= uint32_t(CHUNK), "not more than the DMA takes at once");
    vf_assert(n > 0, "not empty");
    vf_assert(n <= total - pos, "not more than asked");
    if (txStart) vf_assert(out == n, "all bytes are sent");
    if (rxStart) vf_assert(in == n, "all bytes are received");
    if (contents)
    {
        for (uint32_t i = 0; i < N; ++i) if (i < n) { wire[pos + i] = tx ? tx[i] : 0; if (rx) rx[i] = replies[pos + i]; }
    }
    else vf_assert((!txStart || tx == txStart + pos) && (!rxStart || rx == rxStart + pos), "each chunk in its place");
    pos += n;
    return ESP_OK;
}
esp_err_t spi_device_transmit(spi_device_handle_t d, spi_transaction_t* t) { return spi_device_polling_transmit(d, t); }
esp_err_t spi_device_acquire_bus(spi_device_handle_t, uint32_t) { return ESP_OK; }
void spi_device_release_bus(spi_device_handle_t) {}
}
using namespace embedded;
static GpioPinDefinition sck { 18 }, miso { 19 }, mosi { 23 };
#if OP < 3
#ifdef BIG
static uint8_t tx[BIG], rx[BIG];
#else
static uint8_t tx[N], rx[N], before[N];
#endif
void vf_harness()
{
    SpiBus bus(1);
    const bool full = OP == 2 || vf_nd_bool("full duplex");
    vf_assert(bus.init(sck, miso, mosi, 1000000, full ? SpiBus::DuplexMode::Full : SpiBus::DuplexMode::Half), "initialised");
    vf_witness(full, "full duplex");
    failTransfer = vf_nd_bool("can fail");
    const SpiDevice device(bus);
#ifdef BIG
    contents = false;
    const uint32_t n = vf_nd_u16("n");
    vf_assume(n <= BIG);
    uint8_t *in = tx, *out = rx;
#else
    vf_fill(tx, N);
    vf_fill(replies, N);
    vf_fill(before, N);
    for (int i = 0; i < N; ++i) rx[i] = before[i];
    const uint32_t n = uint32_t(vf_range(0, N));
    uint8_t *in = tx + N - n, *out = rx + N - n;
#endif
    total = n;
#if OP == 0
    out = nullptr; txStart = in;
    const bool ok = device.sendSync(in, uint16_t(n));
#elif OP == 1
    in = nullptr; rxStart = out;
    const bool ok = device.receiveSync(out, uint16_t(n));
#else
    txStart = in; rxStart = out;
    const bool ok = device.sendAndReceive(in, out, uint16_t(n));
#endif
    vf_assert(ok == !failed, "failures are reported, nothing else");
    if (ok) vf_assert(pos == n, "every byte once");
#ifndef BIG
    for (uint32_t i = 0; i < N; ++i)
    {
        if (in && i < pos) vf_assert(wire[i] == in[i], "the bytes given, in order");
        if (out && i < pos) vf_assert(out[i] == replies[i], "the bytes received, in order");
        if (!out || i < N - n || i >= N - n + pos) vf_assert(rx[i] == before[i], "nothing else is written");
    }
#endif
    vf_witness(ok && n > 2 * CHUNK && n % CHUNK, "three chunks");
    vf_witness(!ok && pos == CHUNK, "failure");
    vf_witness(ok && n == 0, "empty");
    vf_witness(ok && n == CHUNK, "one chunk");
}
#else
static uint32_t frequency;
static bool up;                 // the bus can transfer
static void init(SpiBus& bus)
{
    failInit = vf_nd_bool("init fails");
    failAdd = vf_nd_bool("add fails");
    failFree = failRemove = false;
    const bool full = vf_nd_bool("full");
    frequency = vf_nd_u32("frequency") & 0x7FFFFFFF;
    const int i0 = inits, a0 = adds;
    const bool ok = bus.init(sck, miso, mosi, frequency, full ? SpiBus::DuplexMode::Full : SpiBus::DuplexMode::Half);
    vf_assert(ok == (!failInit && !failAdd), "success means that both bus and device are up");
    vf_assert(busUp == ok && deviceUp == ok, "a failure leaves nothing behind");
    if (ok)
    {
        vf_assert(inits == i0 + 1 && adds == a0 + 1, "once");
        vf_assert(busConfig.mosi_io_num == mosi.pin && busConfig.miso_io_num == miso.pin && busConfig.sclk_io_num == sck.pin, "with the given pins");
        vf_assert(busConfig.quadwp_io_num == -1 && busConfig.quadhd_io_num == -1 && deviceConfig.spics_io_num == -1, "no other pins");
        vf_assert(deviceConfig.clock_speed_hz == int(frequency) && deviceConfig.mode == 0 && half == !full, "with the given frequency and mode");
        vf_assert(busConfig.max_transfer_sz == CHUNK, "for as much as the DMA takes");
    }
    up = ok;
}
static void release(SpiBus& bus)
{
    failRemove = vf_nd_bool("remove fails");
    failFree = vf_nd_bool("free fails");
    const bool ok = bus.release();
    vf_assert(ok == (!up || (!failRemove && !failFree)), "failures are reported");
    if (ok) vf_assert(!busUp && !deviceUp, "nothing is left");
    if (up && failRemove) vf_assert(deviceUp, "can be tried again");
    if (up && !failRemove) up = false;
}
void vf_harness()
{
    sck.pin = vf_nd_u8("sck");
    miso.pin = vf_nd_u8("miso");
    mosi.pin = vf_nd_u8("mosi");
    {
        SpiBus bus(vf_nd_bool("bus") ? 1 : 2);
        if (vf_nd_bool("released before init")) vf_assert(bus.release() && frees == 0, "nothing to release");
        init(bus);
        if (vf_nd_bool("release"))
        {
            release(bus);
            if (!up && !busUp && vf_nd_bool("again")) { init(bus); vf_witness(up && inits == 2, "initialised again"); }
            else if (up) { vf_witness(true, "release failed"); if (vf_nd_bool("retry")) release(bus); }
        }
        failRemove = failFree = false;
        vf_witness(!up && inits == 1 && frees == 1 && adds == 0, "the device couldn't be added");
        vf_witness(busUp && !up, "the bus couldn't be freed");
    }
    if (up || !busUp) vf_assert(!busUp && !deviceUp, "the end releases everything");
    vf_assert(!deviceUp && removes == adds, "no device is left");
}
#endif
