#pragma once
#include <cstdint>
#define LOG_LEVEL_NONE 0U
#define LOG_LEVEL_ERR 1U
#define LOG_LEVEL_WRN 2U
#define LOG_LEVEL_INF 3U
#define LOG_LEVEL_DBG 4U
#define LOG_MODULE_REGISTER(...) static_assert(true)
#define LOG_MODULE_DECLARE(...) static_assert(true)
#define LOG_ERR(...) zephyr_stub_log(LOG_LEVEL_ERR, __VA_ARGS__)
#define LOG_WRN(...) zephyr_stub_log(LOG_LEVEL_WRN, __VA_ARGS__)
#define LOG_INF(...) zephyr_stub_log(LOG_LEVEL_INF, __VA_ARGS__)
#define LOG_DBG(...) zephyr_stub_log(LOG_LEVEL_DBG, __VA_ARGS__)
extern "C" void zephyr_stub_log(unsigned level, const char* fmt, ...);
