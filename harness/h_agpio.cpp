// H09: digital pins and chip select on Arduino.  H10: analog input.  H11: time.
#include "vf.h"
#include <Arduino.h>
#include "arduino/GpioPinDefinition.h"
#include "GpioDigitalPin.h"
#include "AnalogPin.h"
#include "Delays.h"
static int calls;
static uint8_t lastPin, lastMode, level[256];
static uint16_t analogValue;
static uint32_t value;
extern "C" {
void pinMode(uint8_t pin, uint8_t mode) { ++calls; lastPin = pin; lastMode = mode; }
void digitalWrite(uint8_t pin, uint8_t l) { ++calls; lastPin = pin; level[pin] = l; }
int digitalRead(uint8_t pin) { lastPin = pin; return level[pin]; }
uint16_t analogRead(uint8_t pin) { ++calls; lastPin = pin; return analogValue; }
uint32_t millis() { return value; }
uint32_t micros() { return value; }
void delay(uint32_t ms) { ++calls; value = ms; }
void delayMicroseconds(uint32_t us) { calls += 2; value = us; }
}
using namespace embedded;
void vf_harness()
{
    GpioPinDefinition definition { vf_nd_u8("pin") };
    const uint8_t p = definition.pin;
#if OP == 0
    const GpioDigitalPin pin(definition);
    const int d = vf_range(0, 1), m = vf_range(0, 2);
    const uint8_t was = level[p] = vf_nd_bool("level");
    vf_assert(pin.init(d ? GpioDigitalPin::Direction::Output : GpioDigitalPin::Direction::Input,
        m == 0 ? GpioDigitalPin::PullMode::Up : m == 1 ? GpioDigitalPin::PullMode::Down : GpioDigitalPin::PullMode::None), "initialised");
    vf_assert(lastPin == p && calls == 1 && level[p] == was, "this pin, its level stays");
    vf_assert((lastMode & 3) == (d ? OUTPUT : INPUT) && !!(lastMode & PULLUP) == (m == 0) && !!(lastMode & PULLDOWN) == (m == 1), "direction and pull as asked");
    vf_assert(pin.check() == (was != 0), "reads the level");
    const bool high = vf_nd_bool("high");
    if (vf_nd_bool("by level")) pin.set(high); else if (high) pin.set(); else pin.reset();
    vf_assert(lastPin == p && level[p] == (high ? HIGH : LOW) && calls == 2 && pin.check() == high, "sets the level");
    {
        ChipSelector select(pin);
        vf_assert(level[p] == LOW && lastPin == p, "selected: low");
        if (vf_nd_bool("nothing in between")) vf_witness(true, "selected");
    }
    vf_assert(level[p] == HIGH && lastPin == p && calls == 4, "deselected at the end: high");
    for (int i = 0; i < 256; ++i) if (i != p) vf_assert(level[i] == 0, "no other pin");
    vf_witness(high && d == 0, "input");
#elif OP == 1
    analogValue = vf_nd_u16("analog");
    const AnalogPin pin(definition);
    const int r = pin.singleRead();
    vf_assert(r == analogValue && lastPin == p && calls == 1, "the pin's value");
    vf_witness(r > 40000, "high");
#elif OP == 2
    const uint32_t t = vf_nd_u32("time");
    value = t;
    vf_assert(embedded::getMillisecondTicks() == t && embedded::getMicrosecondTicks() == t, "the platform's counters");
    embedded::delay(t);
    vf_assert(calls == 1 && value == t, "waits as long as asked");
    embedded::delayMicroseconds(t);
    vf_assert(calls == 3 && value == t, "waits as long as asked");
    vf_witness(t > 1u << 31, "long");
#endif
}
