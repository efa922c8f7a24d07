// The parts of the Arduino core that /repo/arduino uses; the harness defines the functions.
#pragma once
#include <cstddef>
#include <cstdint>
#define LOW 0
#define HIGH 1
#define INPUT 0x01
#define OUTPUT 0x03
#define PULLUP 0x04
#define INPUT_PULLUP 0x05
#define PULLDOWN 0x08
#define INPUT_PULLDOWN 0x09
#define MSBFIRST 1
#define LSBFIRST 0
extern "C" {
void pinMode(uint8_t pin, uint8_t mode);
void digitalWrite(uint8_t pin, uint8_t level);
int digitalRead(uint8_t pin);
uint16_t analogRead(uint8_t pin);
uint32_t millis();              // unsigned long there: 32 bits
uint32_t micros();
void delay(uint32_t ms);
void delayMicroseconds(uint32_t us);
}
