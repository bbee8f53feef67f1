// C02: a part of the types.
#include "c02_values.h"
void c02::addTypes3() {
    addType<float>("float");
    addType<double>("double");
    addType<std::string>("string");
    addType<std::vector<char>>("vector<char>");
    addType<std::vector<uint8_t>>("vector<uint8>");
    addType<std::vector<bool>>("vector<bool>");
    addType<std::vector<int8_t>>("vector<int8>");
    addType<std::vector<uint16_t>>("vector<uint16>");
    addType<std::vector<int32_t>>("vector<int32>");
    addType<std::vector<int64_t>>("vector<int64>");
    addType<std::vector<double>>("vector<double>");
    addType<std::vector<float>>("vector<float>");
}
