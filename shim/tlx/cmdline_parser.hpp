// Stand-in for tlx::CmdlineParser: the calls the VieCut programs make.
#pragma once
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include "tlx/logger.hpp"

namespace tlx {
class CmdlineParser {
    struct Opt {
        char key;
        std::string longkey;
        bool takes_arg;
        std::function<bool(const std::string&)> set;
    };
    struct Param {
        std::string name;
        std::function<bool(const std::string&)> set;
    };
    std::vector<Opt> opts_;
    std::vector<Param> params_;

    static bool to_i(const std::string& s, long long* v) {
        char* end = nullptr;
        *v = std::strtoll(s.c_str(), &end, 10);
        return end && *end == 0 && !s.empty();
    }
    static bool to_d(const std::string& s, double* v) {
        char* end = nullptr;
        *v = std::strtod(s.c_str(), &end);
        return end && *end == 0 && !s.empty();
    }
    void add(char k, const std::string& l, bool a,
             std::function<bool(const std::string&)> f) {
        opts_.push_back({ k, l, a, f });
    }

 public:
    void add_bool(char k, const std::string& l, bool& d,  // NOLINT
                  const std::string&) {
        bool* p = &d;
        add(k, l, false, [p](const std::string&) { *p = true; return true; });
    }
    void add_flag(char k, const std::string& l, bool& d,  // NOLINT
                  const std::string& s) { add_bool(k, l, d, s); }
    void add_int(char k, const std::string& l, int& d,  // NOLINT
                 const std::string&) {
        int* p = &d;
        add(k, l, true, [p](const std::string& s) {
                long long v;
                if (!to_i(s, &v)) return false;
                *p = static_cast<int>(v);
                return true;
            });
    }
    void add_size_t(char k, const std::string& l, size_t& d,  // NOLINT
                    const std::string&) {
        size_t* p = &d;
        add(k, l, true, [p](const std::string& s) {
                long long v;
                if (!to_i(s, &v) || v < 0) return false;
                *p = static_cast<size_t>(v);
                return true;
            });
    }
    void add_double(char k, const std::string& l, double& d,  // NOLINT
                    const std::string&) {
        double* p = &d;
        add(k, l, true, [p](const std::string& s) { return to_d(s, p); });
    }
    void add_string(char k, const std::string& l, std::string& d,  // NOLINT
                    const std::string&) {
        std::string* p = &d;
        add(k, l, true, [p](const std::string& s) { *p = s; return true; });
    }
    void add_stringlist(char k, const std::string& l,
                        std::vector<std::string>& d,  // NOLINT
                        const std::string&) {
        auto* p = &d;
        add(k, l, true, [p](const std::string& s) {
                p->push_back(s);
                return true;
            });
    }
    void add_param_string(const std::string& n, std::string& d,  // NOLINT
                          const std::string&) {
        std::string* p = &d;
        params_.push_back({ n, [p](const std::string& s) {
                                *p = s;
                                return true;
                            } });
    }
    void add_param_size_t(const std::string& n, size_t& d,  // NOLINT
                          const std::string&) {
        size_t* p = &d;
        params_.push_back({ n, [p](const std::string& s) {
                                long long v;
                                if (!to_i(s, &v) || v < 0) return false;
                                *p = static_cast<size_t>(v);
                                return true;
                            } });
    }
    bool process(int argc, char** argv) {
        size_t np = 0;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a.size() > 1 && a[0] == '-' && !(a[1] >= '0' && a[1] <= '9')) {
                Opt* o = nullptr;
                for (auto& x : opts_) {
                    if (a.rfind("--", 0) == 0 ? a.substr(2) == x.longkey
                                              : a[1] == x.key) {
                        o = &x;
                        break;
                    }
                }
                if (!o) {
                    std::cerr << "Error: unknown option \"" << a << "\"\n";
                    return false;
                }
                std::string v;
                if (o->takes_arg) {
                    if (a[1] != '-' && a.size() > 2) {
                        v = a.substr(2);
                    } else if (i + 1 < argc) {
                        v = argv[++i];
                    } else {
                        std::cerr << "Error: missing value for " << a << "\n";
                        return false;
                    }
                } else if (a[1] != '-' && a.size() > 2) {
                    // grouped short flags
                    if (!o->set("")) return false;
                    argv[i] = argv[i] + 1;
                    argv[i][0] = '-';
                    --i;
                    continue;
                }
                if (!o->set(v)) {
                    std::cerr << "Error: bad value for " << a << "\n";
                    return false;
                }
            } else {
                if (np >= params_.size()) {
                    std::cerr << "Error: unexpected extra argument " << a
                              << "\n";
                    return false;
                }
                if (!params_[np++].set(a)) return false;
            }
        }
        if (np < params_.size()) {
            std::cerr << "Error: parameter " << params_[np].name
                      << " missing\n";
            return false;
        }
        return true;
    }
};
}  // namespace tlx
