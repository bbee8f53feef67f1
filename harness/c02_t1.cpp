// C02: a part of the types.
#include "c02_values.h"
void c02::addTypes1() {
    addType<int8_t>("int8");
    addType<uint8_t>("uint8");
    addType<int16_t>("int16");
    addType<uint16_t>("uint16");
    addType<int32_t>("int32");
    addType<uint32_t>("uint32");
    addType<int64_t>("int64");
    addType<uint64_t>("uint64");
    addType<long long>("longlong");
    addType<unsigned long long>("ulonglong");
    addType<char>("char");
    addType<bool>("bool");
}
