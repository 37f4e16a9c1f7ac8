// Brute-force linearizability check for small histories.
#pragma once
#include "mc.h"
#include <functional>
#include <string>
#include <vector>

template<typename Model>
struct History
{
    struct Op
    {
        std::string name;
        long call = 0, ret = -1;                     // ret < 0: still running
        std::function<bool(Model&)> apply;           // true if the recorded result is what the model gives
    };
    std::vector<Op> ops;
    long t = 0;

    // all of these are called under mc::Quiet (threads run one at a time)
    int call(const std::string& name) { ops.push_back({name, t++, -1, nullptr}); return int(ops.size()) - 1; }
    void ret(int i, std::function<bool(Model&)> apply, const std::string& result = "")
    {
        ops[i].ret = t++;
        ops[i].apply = std::move(apply);
        if (!result.empty()) ops[i].name += " = " + result;
    }
    bool search(uint64_t done, const Model& m) const
    {
        if (done == (1ull << ops.size()) - 1) return true;
        for (size_t i = 0; i < ops.size(); ++i) {
            if (done & (1ull << i)) continue;
            bool first = true;                       // no other pending op returned before this one was called
            for (size_t k = 0; k < ops.size(); ++k)
                if (k != i && !(done & (1ull << k)) && ops[k].ret >= 0 && ops[k].ret < ops[i].call) first = false;
            if (!first) continue;
            Model n = m;
            if (!ops[i].apply(n)) continue;
            if (search(done | (1ull << i), n)) return true;
        }
        return false;
    }
    void check(const Model& init = Model()) const
    {
        mc::Quiet q;
        for (auto& o : ops) if (!o.apply) mc::fail("operation %s did not finish", o.name.c_str());
        if (!search(0, init)) {
            std::string s;
            for (auto& o : ops) s += " [" + std::to_string(o.call) + "-" + std::to_string(o.ret) + " " + o.name + "]";
            mc::fail("history is not linearizable:%s", s.c_str());
        }
    }
};
