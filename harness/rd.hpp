#pragma once
#include <cstdint>
typedef uint64_t (*Reader)(uint64_t *, uint64_t, uint8_t);
extern Reader READERS[]; extern int N_READERS;
