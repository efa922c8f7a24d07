#pragma once
#include "../esp_err.h"
#define SPICOMMON_BUSFLAG_MASTER (1 << 0)
#define SPICOMMON_BUSFLAG_NATIVE_PINS (1 << 1)
#define SPI_DEVICE_HALFDUPLEX (1 << 4)
#define SPI_DEVICE_NO_DUMMY (1 << 6)
#define SPI_TRANS_USE_RXDATA (1 << 2)
#define SPI_TRANS_USE_TXDATA (1 << 3)
typedef enum { SPI1_HOST = 0, SPI2_HOST = 1, SPI3_HOST = 2 } spi_host_device_t;
typedef enum { SPI_DMA_DISABLED = 0, SPI_DMA_CH1 = 1, SPI_DMA_CH2 = 2, SPI_DMA_CH_AUTO = 3 } spi_dma_chan_t;
typedef struct { int mosi_io_num, miso_io_num, sclk_io_num, quadwp_io_num, quadhd_io_num; int max_transfer_sz; uint32_t flags; int isr_cpu_id; int intr_flags; } spi_bus_config_t;
struct spi_transaction_t;
typedef void (*transaction_cb_t)(struct spi_transaction_t*);
typedef struct { uint8_t command_bits, address_bits, dummy_bits, mode; uint16_t duty_cycle_pos, cs_ena_pretrans; uint8_t cs_ena_posttrans; int clock_speed_hz; int input_delay_ns; int spics_io_num;
    uint32_t flags; int queue_size; transaction_cb_t pre_cb, post_cb; } spi_device_interface_config_t;
typedef struct spi_transaction_t { uint32_t flags; uint16_t cmd; uint64_t addr; size_t length; size_t rxlength; void* user;
    union { const void* tx_buffer; uint8_t tx_data[4]; }; union { void* rx_buffer; uint8_t rx_data[4]; }; } spi_transaction_t;
typedef struct spi_device_t* spi_device_handle_t;
#ifdef __cplusplus
extern "C" {
#endif
esp_err_t spi_bus_initialize(spi_host_device_t, const spi_bus_config_t*, spi_dma_chan_t);
esp_err_t spi_bus_free(spi_host_device_t);
esp_err_t spi_bus_add_device(spi_host_device_t, const spi_device_interface_config_t*, spi_device_handle_t*);
esp_err_t spi_bus_remove_device(spi_device_handle_t);
esp_err_t spi_device_polling_transmit(spi_device_handle_t, spi_transaction_t*);
esp_err_t spi_device_transmit(spi_device_handle_t, spi_transaction_t*);
esp_err_t spi_device_acquire_bus(spi_device_handle_t, uint32_t);
void spi_device_release_bus(spi_device_handle_t);
#ifdef __cplusplus
}
#endif
