#pragma once
#include "Arduino.h"
class TwoWire
{
public:
    void beginTransmission(uint16_t address);
    void beginTransmission(uint8_t address) { beginTransmission(uint16_t(address)); }
    void beginTransmission(int address) { beginTransmission(uint16_t(address)); }
    uint8_t endTransmission(bool sendStop);
    uint8_t endTransmission() { return endTransmission(true); }
    size_t write(uint8_t data) { return write(&data, 1); }
    size_t write(const uint8_t* data, size_t size);
    size_t requestFrom(uint16_t address, size_t size, bool sendStop);
    size_t requestFrom(uint16_t address, uint8_t size) { return requestFrom(address, size_t(size), true); }
    uint8_t requestFrom(int address, int size) { return uint8_t(requestFrom(uint16_t(address), size_t(size), true)); }
    int available();
    int read();
    size_t readBytes(uint8_t* data, size_t size) { size_t i = 0; for (; i < size && available(); ++i) data[i] = uint8_t(read()); return i; }
};
