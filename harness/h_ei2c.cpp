// H08: I2C on ESP32: success means that exactly these bytes were exchanged with the device.
#include "vf.h"
#include <driver/i2c.h>
#include "esp32-esp-idf/I2CBus.h"
#include "I2CDevice.h"
#ifndef N
#define N 5
#endif
static uint8_t stream[N], sent[N];
static int count, got, bus_, writes, reads;
static uint8_t address;
static TickType_t ticks;
static bool failWrite, failRead;
static int order, wroteAt, readAt;
static int links, started, stopped, begun;      // command lists
static uint8_t probe[4];
static int probes;
static bool acks = true;
static i2c_config_t config;
static bool configured, installed, failConfig, failInstall, failCmd;
extern "C" {
void mock_abort() { vf_assume(0); }
esp_err_t i2c_master_write_to_device(i2c_port_t p, uint8_t a, const uint8_t* data, size_t size, TickType_t t)
{
    vf_assert(p == bus_, "this bus");
    address = a; ticks = t; ++writes; wroteAt = ++order;
    for (int i = 0; i < N; ++i) if (i < int(size)) { vf_assert(count < N, "not more than given"); sent[count++] = data[i]; }
    return failWrite ? vf_nd_bool("kind") ? ESP_FAIL : ESP_ERR_TIMEOUT : ESP_OK;
}
esp_err_t i2c_master_read_from_device(i2c_port_t p, uint8_t a, uint8_t* data, size_t size, TickType_t t)
{
    vf_assert(p == bus_, "this bus");
    address = a; ticks = t; ++reads; readAt = ++order;
    if (failRead) return vf_nd_bool("kind") ? ESP_FAIL : ESP_ERR_TIMEOUT;
    for (int i = 0; i < N; ++i) if (i < int(size)) { vf_assert(got < N, "not more than asked"); data[i] = stream[got++]; }
    return ESP_OK;
}
esp_err_t i2c_master_write_read_device(i2c_port_t p, uint8_t a, const uint8_t* w, size_t ws, uint8_t* r, size_t rs, TickType_t t)
{
    const esp_err_t e = i2c_master_write_to_device(p, a, w, ws, t);
    return e != ESP_OK ? e : i2c_master_read_from_device(p, a, r, rs, t);
}
static int theLink;
i2c_cmd_handle_t i2c_cmd_link_create() { ++links; return &theLink; }
void i2c_cmd_link_delete(i2c_cmd_handle_t h) { vf_assert(h == &theLink && links > 0, "deletes what was created"); --links; }
esp_err_t i2c_master_start(i2c_cmd_handle_t h) { vf_assert(h == &theLink && links == 1 && !probes, "starts first"); ++started; return ESP_OK; }
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t b, bool ack) { vf_assert(h == &theLink && links == 1 && started == 1 && probes < 4, "after the start"); probe[probes++] = b; acks = acks && ack; return ESP_OK; }
esp_err_t i2c_master_stop(i2c_cmd_handle_t h) { vf_assert(h == &theLink && links == 1 && started == 1, "after the start"); ++stopped; return ESP_OK; }
esp_err_t i2c_master_cmd_begin(i2c_port_t p, i2c_cmd_handle_t h, TickType_t t)
{
    vf_assert(p == bus_ && h == &theLink && links == 1, "on this bus");
    vf_assert(started == 1 && stopped == 1, "complete");
    ++begun; ticks = t;
    return failCmd ? vf_nd_bool("kind") ? ESP_FAIL : ESP_ERR_TIMEOUT : ESP_OK;
}
esp_err_t i2c_param_config(i2c_port_t p, const i2c_config_t* c) { vf_assert(p == bus_ && !installed, "configured before the driver is installed"); config = *c; if (failConfig) return ESP_ERR_INVALID_ARG; configured = true; return ESP_OK; }
esp_err_t i2c_driver_install(i2c_port_t p, i2c_mode_t m, size_t, size_t, int) { vf_assert(p == bus_ && m == I2C_MODE_MASTER, "as master"); if (failInstall) return ESP_FAIL; installed = true; return ESP_OK; }
esp_err_t i2c_driver_delete(i2c_port_t) { installed = false; return ESP_OK; }
}
static uint8_t tx[N], rx[N], before[N];
void vf_harness()
{
    vf_fill(tx, N);
    vf_fill(stream, N);
    vf_fill(before, N);
    for (int i = 0; i < N; ++i) rx[i] = before[i];
    bus_ = vf_range(0, 1);
    embedded::I2CBus bus(bus_);
    const uint16_t a = vf_nd_u8("address") & 0x7F;
    const int n = vf_range(0, N), m = vf_range(0, N);
    failWrite = vf_nd_bool("write fails");
    failRead = vf_nd_bool("read fails");
#if OP < 3
    const uint32_t timeout = vf_nd_u32("timeout");
    const embedded::I2CDevice device(bus, a, timeout);
    uint8_t* const in = rx + N - m;
#if OP == 0
    const bool ok = device.sendSync(tx + N - n, uint16_t(n));
    const int r = 0;
    vf_assert(ok == !failWrite && writes == 1 && reads == 0 && count == n, "success means all sent");
#elif OP == 1
    const bool ok = device.receiveSync(in, uint16_t(m));
    const int r = m;
    vf_assert(ok == !failRead && writes == 0 && reads == 1, "success means all received");
#elif OP == 2
    const bool ok = device.sendThenReceive(tx + N - n, uint16_t(n), in, uint16_t(m));
    const int r = m;
    vf_assert(writes == 1 && count == n && reads == (failWrite ? 0 : 1), "receives only after everything was sent");
    vf_assert(ok == (!failWrite && !failRead), "success means both");
    if (reads) vf_assert(readAt > wroteAt, "in this order");
#endif
    vf_assert(address == a, "this device");
    vf_assert(ticks * uint64_t(portTICK_PERIOD_MS) <= timeout && timeout - ticks * portTICK_PERIOD_MS < portTICK_PERIOD_MS, "waits as told");
    if (ok && r) vf_assert(got == r, "all received");
    for (int i = 0; i < N; ++i)
    {
        if (i < count) vf_assert(sent[i] == tx[N - n + i], "the bytes given, in order");
        if (ok && i < r) vf_assert(in[i] == stream[i], "the bytes received, in order");
        if (i < N - m || r == 0) vf_assert(rx[i] == before[i], "nothing else is written");
    }
    vf_witness(ok && n == N && m == N, "success");
    vf_witness(!ok && n > 0 && m > 0, "failure");
#elif OP == 3
    bus.resetBus();
    vf_assert(writes == 1 && address == 0 && count == 1 && sent[0] == 6, "the general call reset");
    vf_witness(failWrite, "failure");
#elif OP == 4
    failCmd = vf_nd_bool("nobody");
    const bool ok = bus.testAddress(uint8_t(a));
    vf_assert(begun == 1 && probes == 1 && probe[0] == (a << 1 | I2C_MASTER_WRITE) && acks, "addresses the device for writing and wants an acknowledge");
    vf_assert(links == 0, "the command list is deleted");
    vf_assert(ok == !failCmd, "whether it acknowledged");
    vf_witness(ok, "found");
    vf_witness(!ok, "not found");
#elif OP == 5
    const int sda = vf_nd_u8("sda"), scl = vf_nd_u8("scl");
    const uint32_t f = vf_nd_u32("frequency");
    const bool ps = vf_nd_bool("pullup"), pc = vf_nd_bool("pullup");
    failConfig = vf_nd_bool("config");
    failInstall = vf_nd_bool("install");
    const bool ok = bus.init(sda, scl, f, ps, pc);
    vf_assert(ok == (!failConfig && !failInstall) && ok == (configured && installed), "success means configured and installed");
    if (failConfig) vf_assert(!installed, "nothing is installed without a configuration");
    vf_assert(config.mode == I2C_MODE_MASTER && config.sda_io_num == sda && config.scl_io_num == scl && config.master.clk_speed == f, "as master with the given pins and frequency");
    vf_assert(config.sda_pullup_en == ps && config.scl_pullup_en == pc && config.clk_flags == 0, "with the given pull ups");
    vf_witness(ok && ps != pc, "initialised");
#endif
}
