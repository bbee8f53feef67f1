// C02: a part of the types.
#include "c02_values.h"
void c02::addTypes4() {
    addType<std::vector<std::string>>("vector<string>");
    addType<std::list<int16_t>>("list<int16>");
    addType<std::deque<std::string>>("deque<string>");
    addType<std::set<std::string>>("set<string>");
    addType<std::map<std::string, int>>("map<string,int>");
    addType<std::map<uint64_t, std::string>>("map<uint64,string>");
    addType<std::pair<std::string, int64_t>>("pair");
    addType<std::tuple<int8_t, std::string, bool, uint64_t, std::vector<char>>>("tuple");
    addType<std::array<int32_t, 7>>("array<int32,7>");
    addType<std::array<std::string, 3>>("array<string,3>");
    addType<std::array<char, 17>>("array<char,17>");
}
