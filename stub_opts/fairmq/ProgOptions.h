// Stand-in for <fairmq/ProgOptions.h> for the drivers that need nothing of it but reading settings.
#pragma once
#include <any>
#include <map>
#include <stdexcept>
#include <string>
#include <fairmq/ProgOptionsFwd.h>
namespace fair::mq {
class ProgOptions
{
  public:
    std::map<std::string, std::any> values;
    template<typename T> T GetProperty(const std::string& k) const
    {
        auto it = values.find(k);
        if (it == values.end()) throw std::out_of_range("no property " + k);
        return std::any_cast<T>(it->second);
    }
    template<typename T> T GetProperty(const std::string& k, const T& d) const
    {
        auto it = values.find(k);
        return it == values.end() ? d : std::any_cast<T>(it->second);
    }
    int Count(const std::string& k) const { return int(values.count(k)); }
};
}   // namespace fair::mq
