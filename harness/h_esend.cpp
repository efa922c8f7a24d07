// H07: sending on ESP32.  H12: setting the port up.
#include "vf.h"
#include <driver/uart.h>
#include "esp32-esp-idf/PacketUartImpl.h"
#include "Delays.h"
#define N 8
static uint8_t sent[N];
static int count, written, waited, port;
static bool installed, paramDone, pinDone, failParam, failPin, failInstall, aborted, bad;
static int installs;
static uart_config_t config;
static int pins[4], portOf[3], rxSize;
namespace embedded
{
uint32_t getMillisecondTicks() { return vf_nd_u32("ms"); }
uint64_t getMicrosecondTicks() { return 0; }
void delay(uint32_t) {}
void delayMicroseconds(uint32_t) {}
}
extern "C" {
void mock_abort() { aborted = true; vf_assert(failParam || failPin || failInstall, "aborts only when the driver failed"); vf_assume(0); }
int uart_read_bytes(uart_port_t, void*, uint32_t, TickType_t) { vf_assert(0, "sending doesn't read"); return 0; }
int uart_write_bytes(uart_port_t p, const void* data, size_t size)
{
    vf_assert(p == port, "this port");
    if (bad || vf_nd_bool("error")) { bad = true; return -1; }
    int n = vf_range(0, N);
    if (size_t(n) > size) n = int(size);
    for (int i = 0; i < N; ++i) if (i < n) { vf_assert(count < N, "no more than asked"); sent[count++] = static_cast<const uint8_t*>(data)[i]; }
    waited = 0;
    ++written;
    return n;
}
esp_err_t uart_wait_tx_done(uart_port_t p, TickType_t t) { vf_assert(p == port, "this port"); if (t == portMAX_DELAY) ++waited; return ESP_OK; }
bool uart_is_driver_installed(uart_port_t p) { vf_assert(p == port, "this port"); return installed; }
esp_err_t uart_param_config(uart_port_t p, const uart_config_t* c) { vf_assert(!installed, "an installed driver is left alone"); portOf[0] = p; config = *c; if (failParam) return ESP_FAIL; paramDone = true; return ESP_OK; }
esp_err_t uart_set_pin(uart_port_t p, int tx, int rx, int rts, int cts)
{
    vf_assert(!installed || installs == 1, "an installed driver is left alone");
    portOf[1] = p; pins[0] = tx; pins[1] = rx; pins[2] = rts; pins[3] = cts;
    if (failPin) return ESP_FAIL;
    pinDone = true;
    return ESP_OK;
}
esp_err_t uart_driver_install(uart_port_t p, int rx, int tx, int, QueueHandle_t* q, int)
{
    vf_assert(!installed, "an installed driver is left alone");
    vf_assert(rx > UART_HW_FIFO_LEN(p) && tx >= 0 && (tx == 0 || tx > UART_HW_FIFO_LEN(p)), "buffers the driver accepts");
    (void)q;
    portOf[2] = p;
    rxSize = rx;
    if (failInstall) return ESP_FAIL;
    installed = true;
    ++installs;
    return ESP_OK;
}
esp_err_t uart_driver_delete(uart_port_t) { vf_assert(0, "the driver stays"); return ESP_OK; }
esp_err_t uart_flush(uart_port_t) { return ESP_OK; }
esp_err_t uart_flush_input(uart_port_t) { return ESP_OK; }
esp_err_t uart_get_buffered_data_len(uart_port_t, size_t* n) { *n = 0; return ESP_OK; }
}
static uint8_t data[N];
void vf_harness()
{
    port = vf_range(0, 2);
#if OP == 0
    embedded::PacketUart::UartDevice device(port);
    const embedded::PacketUart uart(device);
    vf_fill(data, N);
    const int n = vf_range(0, N);
    const int r = uart.Send(data + N - n, uint16_t(n), vf_nd_u32("timeout"));
    vf_assert(bad ? r == 0 : r == count, "returns how much was accepted, nothing on failure");
    for (int i = 0; i < N; ++i) if (i < count) vf_assert(sent[i] == data[N - n + i], "the bytes, in order");
    if (r > 0) vf_assert(waited > 0, "waits until it is sent");
    if (n > 0) vf_assert(written > 0 || bad, "is sent");
    vf_witness(r == N, "all");
    vf_witness(r < n && r > 0, "part");
    vf_witness(bad, "failure");
#else
    using S = embedded::SimpleUartDevice;
    const bool before = installed = vf_nd_bool("installed");
    const int rx = vf_nd_u8("rx"), tx = vf_nd_u8("tx"), baud = vf_nd_i32("baud");
    const int d = vf_range(0, 3), p = vf_range(0, 2), s = vf_range(1, 3), f = vf_range(0, 3);
    vf_assume(baud > 0);
    failParam = vf_nd_bool("param");
    failPin = vf_nd_bool("pin");
    failInstall = vf_nd_bool("install");
    const bool ok = S::init(port, rx, tx, baud, S::DataBits(d), S::ParityCheck(p == 0 ? 0 : p + 1), S::StopBits(s), S::FlowControl(f));
    if (before) vf_assert(ok && installs == 0 && !paramDone && !pinDone, "an installed driver is left alone");
    else
    {
        if (failParam || failPin || failInstall) vf_assert(!ok, "a failure isn't taken for success");
        else vf_assert(ok, "success");
        if (ok)
        {
            vf_assert(installed && paramDone && pinDone && installs == 1, "fully set up");
            for (int i = 0; i < 3; ++i) vf_assert(portOf[i] == port, "this port");
            vf_assert(pins[0] == tx && pins[1] == rx && pins[2] == UART_PIN_NO_CHANGE && pins[3] == UART_PIN_NO_CHANGE, "with the given pins");
            vf_assert(config.baud_rate == baud && int(config.data_bits) == d && int(config.parity) == (p == 0 ? 0 : p + 1) && int(config.stop_bits) == s && int(config.flow_ctrl) == f, "with the given line settings");
        }
    }
    vf_witness(!before && ok && f > 0, "set up");
    vf_witness(before && ok, "already");
#endif
}
