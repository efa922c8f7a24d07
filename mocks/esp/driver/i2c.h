#pragma once
#include "../esp_err.h"
#include "../hal/i2c_types.h"
#include "../freertos/FreeRTOS.h"
#define I2C_SCLK_SRC_FLAG_FOR_NOMAL 0
typedef void* i2c_cmd_handle_t;
typedef struct { i2c_mode_t mode; int sda_io_num; int scl_io_num; bool sda_pullup_en; bool scl_pullup_en;
    union { struct { uint32_t clk_speed; } master; struct { uint8_t addr_10bit_en; uint16_t slave_addr; uint32_t maximum_speed; } slave; }; uint32_t clk_flags; } i2c_config_t;
#ifdef __cplusplus
extern "C" {
#endif
esp_err_t i2c_param_config(i2c_port_t, const i2c_config_t*);
esp_err_t i2c_driver_install(i2c_port_t, i2c_mode_t, size_t rx, size_t tx, int flags);
esp_err_t i2c_driver_delete(i2c_port_t);
esp_err_t i2c_master_write_to_device(i2c_port_t, uint8_t address, const uint8_t* data, size_t size, TickType_t);
esp_err_t i2c_master_read_from_device(i2c_port_t, uint8_t address, uint8_t* data, size_t size, TickType_t);
esp_err_t i2c_master_write_read_device(i2c_port_t, uint8_t address, const uint8_t*, size_t, uint8_t*, size_t, TickType_t);
i2c_cmd_handle_t i2c_cmd_link_create(void);
void i2c_cmd_link_delete(i2c_cmd_handle_t);
esp_err_t i2c_master_start(i2c_cmd_handle_t);
esp_err_t i2c_master_write_byte(i2c_cmd_handle_t, uint8_t, bool ack);
esp_err_t i2c_master_stop(i2c_cmd_handle_t);
esp_err_t i2c_master_cmd_begin(i2c_port_t, i2c_cmd_handle_t, TickType_t);
#ifdef __cplusplus
}
#endif
