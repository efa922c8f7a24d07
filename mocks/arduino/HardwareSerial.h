#pragma once
#include "Arduino.h"
class HardwareSerial
{
public:
    explicit HardwareSerial(int) {}
    HardwareSerial(const HardwareSerial&) = default;
    int available();
    int read();
    size_t read(uint8_t* data, size_t size);
    int peek();
    size_t readBytes(uint8_t* data, size_t size);
    size_t readBytes(char* data, size_t size) { return readBytes(reinterpret_cast<uint8_t*>(data), size); }
    size_t readBytesUntil(char terminator, uint8_t* data, size_t size);
    size_t write(const uint8_t* data, size_t size);
    size_t write(uint8_t data) { return write(&data, 1); }
    void flush();
    void flush(bool txOnly);
    void setTimeout(unsigned long timeout);
    unsigned long getTimeout();
};
extern HardwareSerial Serial;
