// H09: digital pins and chip select on ESP32.  H10: analog input.  H11: time and sleep.
#include "vf.h"
#include <driver/gpio.h>
#include <esp_adc/adc_oneshot.h>
#include <soc/adc_periph.h>
#include <freertos/portmacro.h>
#include <freertos/task.h>
#include <esp_timer.h>
#include "esp32-esp-idf/GpioPinDefinition.h"
#include "GpioDigitalPin.h"
#include "AnalogPin.h"
#include "Delays.h"
#if OP >= 4
#include "esp32-esp-idf/SleepFunctions.h"
#endif
extern "C" void mock_abort() { vf_assume(0); }
#if OP == 0
static int configs, lastPin = -1, calls;
static uint8_t level[256];
static gpio_config_t config;
static bool failConfig;
extern "C" {
esp_err_t gpio_config(const gpio_config_t* c) { config = *c; ++configs; return failConfig ? ESP_FAIL : ESP_OK; }
esp_err_t gpio_set_level(gpio_num_t p, uint32_t l) { ++calls; lastPin = p; level[uint8_t(p)] = l != 0; return ESP_OK; }
int gpio_get_level(gpio_num_t p) { lastPin = p; return level[uint8_t(p)]; }
esp_err_t gpio_reset_pin(gpio_num_t) { return ESP_OK; }
}
using namespace embedded;
void vf_harness()
{
    GpioPinDefinition definition { vf_nd_u8("pin") };
    const uint8_t p = definition.pin;
    const GpioDigitalPin pin(definition);
    const int d = vf_range(0, 1), m = vf_range(0, 2);
    const uint8_t was = level[p] = vf_nd_bool("level");
    failConfig = vf_nd_bool("fails");
    const bool valid = p < 40 && p != 20 && p != 24 && !(p >= 28 && p <= 31);
    const bool ok = pin.init(d ? GpioDigitalPin::Direction::Output : GpioDigitalPin::Direction::Input,
        m == 0 ? GpioDigitalPin::PullMode::Up : m == 1 ? GpioDigitalPin::PullMode::Down : GpioDigitalPin::PullMode::None);
    vf_assert(ok == (valid && !failConfig), "initialised exactly when the pin exists and the driver accepts");
    if (!valid) vf_assert(configs == 0, "a pin that doesn't exist isn't configured");
    else
    {
        vf_assert(configs == 1 && config.pin_bit_mask == 1ULL << p && config.intr_type == GPIO_INTR_DISABLE, "this pin only");
        vf_assert(config.mode == (d ? GPIO_MODE_OUTPUT : GPIO_MODE_INPUT), "direction as asked");
        vf_assert(config.pull_up_en == (m == 0 ? GPIO_PULLUP_ENABLE : GPIO_PULLUP_DISABLE) && config.pull_down_en == (m == 1 ? GPIO_PULLDOWN_ENABLE : GPIO_PULLDOWN_DISABLE), "pull as asked");
    }
    vf_assert(level[p] == was, "the level stays");
    vf_assert(pin.check() == (was != 0), "reads the level");
    const bool high = vf_nd_bool("high");
    if (vf_nd_bool("by level")) pin.set(high); else if (high) pin.set(); else pin.reset();
    vf_assert(lastPin == p && level[p] == high && calls == 1 && pin.check() == high, "sets the level");
    {
        ChipSelector select(pin);
        vf_assert(!level[p] && lastPin == p, "selected: low");
    }
    vf_assert(level[p] && lastPin == p && calls == 3, "deselected at the end: high");
    for (int i = 0; i < 256; ++i) if (i != p) vf_assert(level[i] == 0, "no other pin");
    vf_witness(ok && p > 32 && high, "high pin");
    vf_witness(!valid && p < 40, "missing pin");
}
#elif OP == 1
extern "C" {
const int adc_channel_io_map[SOC_ADC_PERIPH_NUM][SOC_ADC_MAX_CHANNEL_NUM] = { { 36, 37, 38, 39, 32, 33, 34, 35, -1, -1 }, { 4, 0, 2, 15, 13, 12, 14, 27, 25, 26 } };
}
struct adc_oneshot_unit_ctx_t { int unit; };
static adc_oneshot_unit_ctx_t context[2];
static int opened[2], reads, configured, readUnit = -1, readChannel = -1, powered;
static bool failNew, failConfig, failRead;
static int value;
static int unitOf(adc_oneshot_unit_handle_t h) { const int u = h == &context[0] ? 0 : 1; vf_assert(h == &context[u] && opened[u] == 1, "an open unit"); return u; }
extern "C" {
esp_err_t adc_oneshot_new_unit(const adc_oneshot_unit_init_cfg_t* c, adc_oneshot_unit_handle_t* h)
{
    const int u = int(c->unit_id);
    vf_assert(u == 0 || u == 1, "a unit that exists");
    if (failNew || opened[u]) return ESP_FAIL;
    opened[u] = 1;
    *h = &context[u];
    return ESP_OK;
}
esp_err_t adc_oneshot_config_channel(adc_oneshot_unit_handle_t h, adc_channel_t c, const adc_oneshot_chan_cfg_t* cfg)
{
    unitOf(h);
    vf_assert(cfg->atten == ADC_ATTEN_DB_12 && (cfg->bitwidth == ADC_BITWIDTH_12 || cfg->bitwidth == ADC_BITWIDTH_DEFAULT), "full range, 12 bits");
    if (failConfig) return ESP_ERR_INVALID_ARG;
    configured = int(c) + 1;
    return ESP_OK;
}
esp_err_t adc_oneshot_read(adc_oneshot_unit_handle_t h, adc_channel_t c, int* out)
{
    readUnit = unitOf(h);
    vf_assert(configured == int(c) + 1, "the channel is configured");
    ++reads;
    readChannel = int(c);
    *out = value;
    return failRead ? ESP_ERR_TIMEOUT : ESP_OK;
}
esp_err_t adc_oneshot_del_unit(adc_oneshot_unit_handle_t h) { const int u = unitOf(h); opened[u] = 0; configured = 0; return ESP_OK; }
void adc_power_acquire() { ++powered; }
void adc_power_release() { --powered; }
}
using namespace embedded;
void vf_harness()
{
    GpioPinDefinition definition { vf_nd_u8("pin") };
    const AnalogPin pin(definition);
    for (int round = 0; round < 2; ++round)
    {
        failNew = vf_nd_bool("new");
        failConfig = vf_nd_bool("config");
        failRead = vf_nd_bool("read");
        value = vf_range(0, 4095);
        reads = 0;
        const int r = pin.singleRead();
        int unit = -1, channel = -1;
        for (int u = 0; u < 2; ++u) for (int c = 0; c < 10; ++c) if (adc_channel_io_map[u][c] == int(definition.pin)) { unit = u; channel = c; }
        const bool ok = unit >= 0 && !failNew && !failConfig && !failRead;
        vf_assert(r == (ok ? value : -1), "the pin's value, -1 exactly on failure or for other pins");
        if (ok) vf_assert(reads == 1 && readUnit == unit && readChannel == channel, "the pin's unit and channel");
        if (unit < 0) vf_assert(reads == 0, "other pins aren't read");
        vf_assert(opened[0] == 0 && opened[1] == 0, "the unit is released, whatever happened");
        vf_assert(powered == 0, "power is released");
        vf_witness(ok && unit == 1 && round == 1, "read again");
        vf_witness(unit >= 0 && failRead && !failNew && !failConfig, "failed");
        vf_witness(unit < 0 && definition.pin < 40, "not analog");
    }
}
#elif OP == 2
// the counters
static uint64_t microseconds, ticksWaited;
extern "C" int64_t esp_timer_get_time() { return int64_t(microseconds); }
extern "C" void vTaskDelay(TickType_t t) { ticksWaited += t; }
void vf_harness()
{
    const uint64_t ms = HIGH + vf_nd_u16("ms");
    const uint32_t us = vf_nd_u16("us");
    vf_assume(us < 1000);
    microseconds = ms * 1000 + us;
    vf_assert(embedded::getMillisecondTicks() == uint32_t(ms), "whole milliseconds");
    vf_assert(embedded::getMicrosecondTicks() == microseconds, "microseconds");
    const uint32_t wait = vf_nd_u32("wait");
    embedded::delay(wait);
    vf_assert(ticksWaited * portTICK_PERIOD_MS <= wait && wait - ticksWaited * portTICK_PERIOD_MS < portTICK_PERIOD_MS, "waits for the whole ticks");
    vf_witness(wait > 1u << 31, "long");
}
#elif OP == 3
// waiting for microseconds
static uint64_t microseconds, before;
static int calls;
extern "C" int64_t esp_timer_get_time()
{
    if (++calls > 6) vf_assume(0);
    before = microseconds;
    microseconds += vf_nd_u16("time passes");
    return int64_t(microseconds);
}
extern "C" void vTaskDelay(TickType_t) { vf_assert(0, "too coarse"); }
void vf_harness()
{
    const uint64_t start = microseconds = vf_nd_u64("start") >> 2;
    const uint32_t wait = vf_nd_u32("wait");
    embedded::delayMicroseconds(wait);
    if (wait == 0) return;
    vf_assert(microseconds - start >= wait, "waits at least as long");
    vf_assert(before - start < wait + 65536ull, "and ends then");
    vf_witness(calls > 3 && wait > 100000, "polls");
}
#elif OP == 4 || OP == 5
static uint32_t now;
static uint64_t armed;
static int sleeps, delays;
static bool isArmed, deep;
static uint32_t start, asked;
namespace embedded
{
uint32_t getMillisecondTicks() { now += vf_nd_u8("time passes") & 7; return now; }
uint64_t getMicrosecondTicks() { return 0; }
void delay(uint32_t ms) { ++delays; vf_assert(ms <= asked, "not longer than asked"); now += ms; }
void delayMicroseconds(uint32_t) {}
}
extern "C" {
esp_err_t esp_sleep_enable_timer_wakeup(uint64_t us) { armed = us; isArmed = true; return ESP_OK; }
esp_err_t esp_light_sleep_start()
{
    vf_assert(isArmed, "a wakeup is set");
    if (++sleeps > 2) vf_assume(0);
    if (vf_nd_bool("rejected")) return ESP_ERR_INVALID_STATE;
    // sleeps until the timer, or wakes up early
    const uint32_t full = HIGH + vf_nd_u16("full");
    const bool small = vf_nd_bool("small");
    const uint32_t slept = small ? full - HIGH : full;
    vf_assume(uint64_t(slept) * 1000 <= armed && armed < uint64_t(slept) * 1000 + 1000);
    now += vf_nd_bool("early") ? slept >> 3 : slept;
    return ESP_OK;
}
void esp_deep_sleep_start() { vf_assert(isArmed, "a wakeup is set"); deep = true; }
void esp_deep_sleep(uint64_t us) { armed = us; deep = true; }
}
void vf_harness()
{
    now = start = vf_nd_u32("start");
#if OP == 4
    asked = HIGH + vf_nd_u8("ms");
    embedded::ligntSleep(asked);
    vf_assert(now - start >= asked, "sleeps at least as long as asked");
    vf_assert(now - start <= asked + 7 * 12, "and not much longer");
    vf_witness(sleeps > 1 && delays > 0, "woken early, then rejected");
    vf_witness(now < start && sleeps > 0, "the counter wraps");
#else
    asked = vf_nd_u32("ms");
    embedded::deepSleep(asked);
    vf_assert(deep && armed == uint64_t(asked) * 1000, "wakes up after the time asked for");
    vf_witness(asked > 1u << 31, "weeks");
#endif
}
#endif
