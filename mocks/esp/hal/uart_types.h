#pragma once
#include <stdint.h>
typedef int uart_port_t;
typedef enum { UART_DATA_5_BITS = 0, UART_DATA_6_BITS = 1, UART_DATA_7_BITS = 2, UART_DATA_8_BITS = 3 } uart_word_length_t;
typedef enum { UART_STOP_BITS_1 = 1, UART_STOP_BITS_1_5 = 2, UART_STOP_BITS_2 = 3 } uart_stop_bits_t;
typedef enum { UART_PARITY_DISABLE = 0, UART_PARITY_EVEN = 2, UART_PARITY_ODD = 3 } uart_parity_t;
typedef enum { UART_HW_FLOWCTRL_DISABLE = 0, UART_HW_FLOWCTRL_RTS = 1, UART_HW_FLOWCTRL_CTS = 2, UART_HW_FLOWCTRL_CTS_RTS = 3 } uart_hw_flowcontrol_t;
typedef int uart_sclk_t;
#define UART_SCLK_APB 4
#define UART_SCLK_DEFAULT 4
