#pragma once
#include "Arduino.h"
#define SPI_MODE0 0
#define SPI_MODE1 1
#define SPI_MODE2 2
#define SPI_MODE3 3
class SPISettings
{
public:
    SPISettings() = default;
    SPISettings(uint32_t clock, uint8_t bitOrder, uint8_t dataMode) : clock(clock), bitOrder(bitOrder), dataMode(dataMode) {}
    uint32_t clock = 1000000;
    uint8_t bitOrder = MSBFIRST, dataMode = SPI_MODE0;
};
class SPIClass
{
public:
    void beginTransaction(SPISettings settings);
    void endTransaction();
    uint8_t transfer(uint8_t data);
    void transfer(uint8_t* data, uint32_t size);
    uint16_t transfer16(uint16_t data);
    uint32_t transfer32(uint32_t data);
    void transferBytes(const uint8_t* data, uint8_t* out, uint32_t size);
    void write(uint8_t data);
    void writeBytes(const uint8_t* data, uint32_t size);
};
