#pragma once
#include <string>
#include <vector>
namespace tlx {
inline std::vector<std::string> split(const std::string& sep,
                                      const std::string& str) {
    std::vector<std::string> out;
    if (sep.empty()) { out.push_back(str); return out; }
    size_t last = 0, p;
    while ((p = str.find(sep, last)) != std::string::npos) {
        out.push_back(str.substr(last, p - last));
        last = p + sep.size();
    }
    out.push_back(str.substr(last));
    return out;
}
inline std::vector<std::string> split(char sep, const std::string& str) {
    return split(std::string(1, sep), str);
}
}  // namespace tlx
