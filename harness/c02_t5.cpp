// C02: a part of the types.
#include "c02_values.h"
void c02::addTypes5() {
    addType<std::optional<int64_t>>("optional<int64>");
    addType<std::optional<std::string>>("optional<string>");
    addType<std::vector<std::optional<int>>>("vector<optional<int>>");
    addType<std::shared_ptr<std::string>>("shared_ptr<string>");
    addType<std::chrono::system_clock::time_point>("time_point");
    addType<timespec>("timespec");
    addType<std::forward_list<int>>("forward_list<int>");
    addType<std::multimap<int, std::string>>("multimap");
    addType<std::unordered_map<std::string, std::vector<int16_t>>>("unordered_map");
    addType<std::unordered_set<uint32_t>>("unordered_set");
    addType<std::multiset<int64_t>>("multiset");
    addType<std::vector<std::vector<std::vector<std::string>>>>("vector<vector<vector<string>>>");
    addType<std::map<int32_t, std::map<std::string, std::tuple<int8_t, std::string, std::vector<uint16_t>>>>>("map<int,map<string,tuple>>");
}
