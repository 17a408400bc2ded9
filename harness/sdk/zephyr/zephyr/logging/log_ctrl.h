#pragma once
#include <cstdint>
extern "C" {
struct log_backend;
const struct log_backend* log_backend_get_by_name(const char* name);
uint32_t log_filter_set(const struct log_backend* backend, uint32_t domain, int16_t source, uint32_t level);
}
