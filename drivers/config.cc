// C05/C06: fair::mq::ProgOptions as a property store, property change notification
#include "lin.h"
#include "mc.h"
#include <cctype>
#include <complex>
#include <limits>
#include <tuple>
#include <cstring>
#include <fairmq/ProgOptions.h>
#include <fairmq/Properties.h>
#include <fairmq/tools/Strings.h>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <filesystem>
using namespace fair::mq;
namespace fs = std::filesystem;
using std::map;
using std::string;
using std::vector;

namespace {
using Opt = std::optional<int>;
const string KA = "k.a", KB = "k.b";

// ------------------------------------------------------------------ C05
#ifndef C06
struct Model
{
    map<string, int> m;
    Opt get(const string& k) const { auto i = m.find(k); return i == m.end() ? Opt() : Opt(i->second); }
};
using H = History<Model>;
struct Env
{
    ProgOptions c;
    H h;
    string str(Opt o) { return o ? std::to_string(*o) : "-"; }
    void set(const string& k, int v)
    {
        int i;
        { mc::Quiet q; i = h.call("set " + k + "=" + std::to_string(v)); }
        c.SetProperty<int>(k, v);
        mc::Quiet q;
        h.ret(i, [=](Model& m) { m.m[k] = v; return true; });
    }
    void setm(int a, int b)
    {
        int i;
        { mc::Quiet q; i = h.call("set a=" + std::to_string(a) + " b=" + std::to_string(b)); }
        c.SetProperties({{KA, Property(a)}, {KB, Property(b)}});
        mc::Quiet q;
        h.ret(i, [=](Model& m) { m.m[KA] = a; m.m[KB] = b; return true; });
    }
    bool upd(const string& k, int v)
    {
        int i;
        { mc::Quiet q; i = h.call("update " + k + "=" + std::to_string(v)); }
        bool r = c.UpdateProperty<int>(k, v);
        mc::Quiet q;
        h.ret(i, [=](Model& m) { bool has = m.m.count(k); if (has) m.m[k] = v; return has == r; }, r ? "true" : "false");
        return r;
    }
    bool updm(int a, int b)
    {
        int i;
        { mc::Quiet q; i = h.call("update a=" + std::to_string(a) + " b=" + std::to_string(b)); }
        bool r = c.UpdateProperties({{KA, Property(a)}, {KB, Property(b)}});
        mc::Quiet q;
        h.ret(i, [=](Model& m) { bool has = m.m.count(KA) && m.m.count(KB); if (has) { m.m[KA] = a; m.m[KB] = b; } return has == r; }, r ? "true" : "false");
        return r;
    }
    void del(const string& k)
    {
        int i;
        { mc::Quiet q; i = h.call("delete " + k); }
        c.DeleteProperty(k);
        mc::Quiet q;
        h.ret(i, [=](Model& m) { m.m.erase(k); return true; });
    }
    void get(const string& k)
    {
        int i;
        { mc::Quiet q; i = h.call("get " + k); }
        Opt r;
        try { r = c.GetProperty<int>(k); } catch (PropertyNotFoundError&) {}
        mc::Quiet q;
        h.ret(i, [=](Model& m) { return m.get(k) == r; }, str(r));
    }
    void getstr(const string& k)
    {
        int i;
        { mc::Quiet q; i = h.call("get as string " + k); }
        string r;
        try { r = c.GetPropertyAsString(k); } catch (PropertyNotFoundError&) { r = "-"; }
        mc::Quiet q;
        h.ret(i, [=](Model& m) { return str(m.get(k)) == r; }, r);
    }
    void snap(int how)
    {
        int i;
        { mc::Quiet q; i = h.call("read all"); }
        map<string, string> got;
        switch (how) {
            case 0: { auto p = c.GetPropertiesStartingWith("k."); for (auto& x : p) got[x.first] = std::to_string(boost::any_cast<int>(x.second)); break; }
            case 1: { auto p = c.GetProperties("k\\..*"); for (auto& x : p) got[x.first] = std::to_string(boost::any_cast<int>(x.second)); break; }
            case 2: got = c.GetPropertiesAsStringStartingWith("k."); break;
            case 3: got = c.GetPropertiesAsString("k\\..*"); break;
        }
        mc::Quiet q;
        string s;
        for (auto& x : got) s += x.first + "=" + x.second + " ";
        h.ret(i, [=](Model& m) { map<string, string> w; for (auto& x : m.m) w[x.first] = std::to_string(x.second); return w == got; }, s);
    }
    void count(const string& k)
    {
        int i;
        { mc::Quiet q; i = h.call("count " + k); }
        int r = c.Count(k);
        mc::Quiet q;
        h.ret(i, [=](Model& m) { return int(m.m.count(k)) == r; }, std::to_string(r));
    }
    void any(int op, int v)
    {
        switch (op) {
            case 0: set(KA, v); break;
            case 1: setm(v, v + 100); break;
            case 2: upd(KA, v); break;
            case 3: updm(v, v + 100); break;
            case 4: del(KA); break;
            case 5: del(KB); break;
            case 6: get(KA); break;
            case 7: snap(0); break;
            case 8: snap(1); break;
            case 9: getstr(KA); break;
            case 10: snap(2); break;
            case 11: snap(3); break;
            case 12: count(KA); break;
            case 13: upd(KB, v); break;
        }
    }
};
void threads(vector<int> first, vector<int> second, vector<int> third, int len)
{
    int init = mc::choose(4, "init");
    vector<vector<int>> prog;
    for (auto& alphabet : {first, second, third}) {
        if (alphabet.empty()) continue;
        prog.emplace_back();
        for (int i = 0; i < len; ++i) prog.back().push_back(alphabet[mc::choose(int(alphabet.size()), "op")]);
    }
    Env e;
    if (init & 1) e.set(KA, 1);
    if (init & 2) e.set(KB, 2);
    vector<std::thread> t;
    int base = 10;
    for (auto& p : prog) { t.emplace_back([&e, p, base] { int v = base; for (int op : p) e.any(op, v++); }); base += 10; }
    for (auto& x : t) x.join();
    e.snap(0);
    e.h.check();
    mc::outcome(e.h.ops.back().name);
}

// single-threaded: every operation sequence, with values of different types
struct V { int kind = 0; int n = 0; string s; bool operator==(const V& o) const { return kind == o.kind && n == o.n && s == o.s; } };
void sequential(int depth)
{
    ProgOptions c;
    map<string, V> m;
    const string keys[] = {"p", "p.q", "x"};
    string log;
    auto verify = [&] {
        for (auto& k : keys) {
            bool has = m.count(k);
            V v = has ? m[k] : V();
            MC_CHECK(c.Count(k) == int(has), "%s: Count(%s) is %d", log.c_str(), k.c_str(), c.Count(k));
            bool threw = false;
            int n = -1;
            try { n = c.GetProperty<int>(k); } catch (PropertyNotFoundError&) { threw = true; MC_CHECK(!has, "%s: %s not found", log.c_str(), k.c_str()); } catch (std::exception&) { threw = true; MC_CHECK(has && v.kind == 1, "%s: reading %s fails", log.c_str(), k.c_str()); }
            MC_CHECK(threw == (!has || v.kind != 0), "%s: reading %s as int: threw=%d", log.c_str(), k.c_str(), int(threw));
            MC_CHECK(threw || n == v.n, "%s: %s reads %d, set to %d", log.c_str(), k.c_str(), n, v.n);
            threw = false;
            string s;
            try { s = c.GetProperty<string>(k); } catch (std::exception&) { threw = true; }
            MC_CHECK(threw == (!has || v.kind != 1) && (threw || s == v.s), "%s: %s reads '%s' as string", log.c_str(), k.c_str(), s.c_str());
            string want = !has ? "none" : v.kind ? v.s : std::to_string(v.n);
            MC_CHECK(c.GetPropertyAsString(k, "none") == want, "%s: %s as string with default is '%s'", log.c_str(), k.c_str(), c.GetPropertyAsString(k, "none").c_str());
            if (!has || v.kind == 0) MC_CHECK(c.GetProperty<int>(k, -7) == (has ? v.n : -7), "%s: %s with default", log.c_str(), k.c_str());
            if (has) MC_CHECK(c.GetPropertyAsString(k) == want && c.GetStringValue(k) == want, "%s: %s as string", log.c_str(), k.c_str());
        }
    };
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(9, "op"), k = op == 3 || op == 7 ? 0 : mc::choose(3, "key");
        mc::transition();
        int val = 10 + i;
        string sv = "value " + std::to_string(i), key = keys[k];
        log += " " + std::to_string(op) + ":" + key;
        switch (op) {
            case 0: c.SetProperty<int>(key, val); m[key] = {0, val, ""}; break;
            case 1: c.SetProperty<string>(key, sv); m[key] = {1, 0, sv}; break;
            case 2: c.SetProperties({{key, Property(val)}, {"x", Property(sv)}}); if (key == "x") m[key] = {0, val, ""}; else { m[key] = {0, val, ""}; m["x"] = {1, 0, sv}; } break;
            case 3: { bool r = c.UpdateProperties({{"p", Property(val)}, {"p.q", Property(sv)}}); bool want = m.count("p") && m.count("p.q"); MC_CHECK(r == want, "%s: UpdateProperties returned %d", log.c_str(), int(r)); if (want) { m["p"] = {0, val, ""}; m["p.q"] = {1, 0, sv}; } break; }
            case 4: { bool r = c.UpdateProperty<int>(key, val); MC_CHECK(r == bool(m.count(key)), "%s: UpdateProperty returned %d", log.c_str(), int(r)); if (r) m[key] = {0, val, ""}; break; }
            case 5: { bool r = c.UpdateProperty<string>(key, sv); MC_CHECK(r == bool(m.count(key)), "%s: UpdateProperty returned %d", log.c_str(), int(r)); if (r) m[key] = {1, 0, sv}; break; }
            case 6: c.DeleteProperty(key); m.erase(key); break;
            case 7: { bool r = c.UpdateProperties({{"p", Property(val)}, {"x", Property(val)}}); bool want = m.count("p") && m.count("x"); MC_CHECK(r == want, "%s: UpdateProperties returned %d", log.c_str(), int(r)); if (want) { m["p"] = {0, val, ""}; m["x"] = {0, val, ""}; } break; }
            case 8: c.SetValue<int>(key, val); m[key] = {0, val, ""}; break;
        }
        verify();
        uint64_t h = 0;
        for (auto& x : m) h = mc::hash_str(x.first + char('0' + x.second.kind), h);
        mc::state(h);
    }
    mc::outcome(std::to_string(m.size()));
}

// every subset of a universe of keys against every query
void queries()
{
    const vector<string> universe = {"chans.data.0.type", "chans.data.1.type", "chans.data.0.address", "chans.ctl.0.type", "chans.data", "chansXdata.0.type", "chan", "chans.dataset.0.type", "chans.data.10.type"};
    int mask = 0;
    for (size_t i = 0; i < universe.size(); ++i) mask |= mc::choose(2, "key") << i;
    ProgOptions c;
    std::set<string> keys;
    for (auto& k : c.GetPropertyKeys()) keys.insert(k);
    size_t nd = keys.size();
    for (size_t i = 0; i < universe.size(); ++i) if (mask >> i & 1) { c.SetProperty<int>(universe[i], int(i)); keys.insert(universe[i]); }
    if (mc::flag("delete")) for (auto& k : universe) { c.DeleteProperty(k); keys.erase(k); break; }
    auto ks = c.GetPropertyKeys();
    MC_CHECK(std::set<string>(ks.begin(), ks.end()) == keys && ks.size() == keys.size(), "key list");
    auto same = [&](const Properties& got, const std::set<string>& want, const string& what) {
        std::set<string> g;
        for (auto& x : got) {
            g.insert(x.first);
            for (size_t i = 0; i < universe.size(); ++i) if (universe[i] == x.first) MC_CHECK(boost::any_cast<int>(x.second) == int(i), "%s: wrong value for %s", what.c_str(), x.first.c_str());
        }
        mc::transition();
        MC_CHECK(g == want, "%s with key set %#x: %zu results, expected %zu", what.c_str(), unsigned(mask), g.size(), want.size());
    };
    for (string p : {"", "chan", "chans.", "chans.data", "chans.data.", "chans.data.0", "chans.data.0.type", "chans.data.0.typeX", "data", "x", "C"}) {
        std::set<string> want;
        for (auto& k : keys) if (k.size() >= p.size() && memcmp(k.data(), p.data(), p.size()) == 0) want.insert(k);
        same(c.GetPropertiesStartingWith(p), want, "prefix '" + p + "'");
        std::set<string> g;
        for (auto& x : c.GetPropertiesAsStringStartingWith(p)) { g.insert(x.first); for (size_t i = 0; i < universe.size(); ++i) if (universe[i] == x.first) MC_CHECK(x.second == std::to_string(i), "value of %s as string", x.first.c_str()); }
        MC_CHECK(g == want, "prefix '%s' as string", p.c_str());
    }
    // regular expressions with hand-written equivalents (whole-key match)
    auto starts = [](const string& k, const string& p) { return k.compare(0, p.size(), p) == 0; };
    auto ends = [](const string& k, const string& p) { return k.size() >= p.size() && k.compare(k.size() - p.size(), p.size(), p) == 0; };
    struct Q { string re; std::function<bool(const string&)> f; };
    const Q qs[] = {
        {".*", [](const string&) { return true; }},
        {"chans\\.data\\..*", [&](const string& k) { return starts(k, "chans.data."); }},
        {"chans.data.*", [&](const string& k) { return k.size() >= 10 && k.substr(0, 5) == "chans" && k.substr(6, 4) == "data"; }},
        {"chans\\..*\\.type", [&](const string& k) { return starts(k, "chans.") && ends(k, ".type") && k.size() >= 11; }},
        {"chan", [&](const string& k) { return k == "chan"; }},
        {"chans\\.data\\.[01]\\.type", [&](const string& k) { return k == "chans.data.0.type" || k == "chans.data.1.type"; }},
        {"data", [&](const string&) { return false; }},
        {"(chans\\.ctl\\.0\\.type|chan)", [&](const string& k) { return k == "chan" || k == "chans.ctl.0.type"; }},
    };
    for (auto& q : qs) {
        std::set<string> want;
        for (auto& k : keys) if (q.f(k)) want.insert(k);
        same(c.GetProperties(q.re), want, "expression '" + q.re + "'");
        std::set<string> g;
        for (auto& x : c.GetPropertiesAsString(q.re)) g.insert(x.first);
        MC_CHECK(g == want, "expression '%s' as string", q.re.c_str());
    }
    map<string, int> info;
    for (auto& k : keys) if (starts(k, "chans.") && ends(k, ".type") && k.size() >= 11) ++info[k.substr(6, k.find('.', 6) - 6)];
    auto ci = c.GetChannelInfo();
    MC_CHECK((map<string, int>(ci.begin(), ci.end()) == info), "channel information with key set %#x: %zu channels, expected %zu", unsigned(mask), ci.size(), info.size());
    mc::outcome(std::to_string(keys.size() - nd));
}
#else
// ------------------------------------------------------------------ C06
#ifdef TYPES
template<typename T> string text(const T& v) { std::ostringstream o; o << v; return o.str(); }
string text(const bool& v) { return v ? "true" : "false"; }
string text(const signed char& v) { return std::to_string(int(v)); }
string text(const unsigned char& v) { return std::to_string(int(v)); }
template<typename T> string text(const vector<T>& v)
{
    string s;
    for (size_t i = 0; i < v.size(); ++i) { T e = v[i]; s += (i ? ", " : "") + text(e); }
    return s;
}
struct Call { int type; string key, val; };
using TypeList = std::tuple<char, signed char, unsigned char, string, int, short, long, long long, unsigned, unsigned short, unsigned long, unsigned long long, float, double, long double, bool, fs::path,
      vector<char>, vector<signed char>, vector<unsigned char>, vector<bool>, vector<string>, vector<int>, vector<short>, vector<long>, vector<long long>, vector<unsigned>, vector<unsigned short>, vector<unsigned long>, vector<unsigned long long>, vector<float>, vector<double>, vector<long double>, vector<fs::path>>;
constexpr int NTYPES = int(std::tuple_size_v<TypeList>);
template<typename T> struct Values
{
    static vector<T> get()
    {
        vector<T> r = {T(), T(65), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()};
        if (std::is_floating_point_v<T>) { r.push_back(T(0.1)); r.push_back(T(1e-7)); r.push_back(T(123456789.25)); r.push_back(std::numeric_limits<T>::infinity()); }
        return r;
    }
};
template<> struct Values<bool> { static vector<bool> get() { return {false, true}; } };
template<> struct Values<string> { static vector<string> get() { return {"", "a", "two words", string("nul\0inside", 10), string(300, 'x')}; } };
template<> struct Values<fs::path> { static vector<fs::path> get() { return {"", "/a/b", "/with space/\"quote\""}; } };
template<typename E> struct Values<vector<E>>
{
    static vector<vector<E>> get()
    {
        auto base = Values<E>::get();
        vector<vector<E>> r = {{}};
        for (auto e : base) r.push_back({E(e)});
        r.push_back(vector<E>(base.begin(), base.end()));
        r.push_back(vector<E>(base.rbegin(), base.rend()));
        return r;
    }
};
struct Watch
{
    ProgOptions& c;
    vector<Call> calls;
    vector<std::pair<string, string>> strings;
    template<typename T> void sub(int i) { c.Subscribe<T>("w", std::function<void(string, T)>([this, i](string k, T v) { calls.push_back({i, k, text(v)}); })); }
    template<size_t... I> void all(std::index_sequence<I...>) { (sub<std::tuple_element_t<I, TypeList>>(int(I)), ...); }
    explicit Watch(ProgOptions& o) : c(o)
    {
        all(std::make_index_sequence<NTYPES>());
        c.SubscribeAsString("w", [this](string k, string v) { strings.emplace_back(k, v); });
    }
    void expect(int type, const string& k, const string& v, const char* what)
    {
        MC_CHECK(calls.size() == 1, "%s: type %d, value '%s': %zu typed subscribers called", what, type, v.c_str(), calls.size());
        MC_CHECK(calls[0].type == type && calls[0].key == k && calls[0].val == v, "%s: type %d, value '%s': subscriber of type %d told %s='%s'", what, type, v.c_str(), calls[0].type, calls[0].key.c_str(), calls[0].val.c_str());
        MC_CHECK(strings.size() == 1 && strings[0].first == k && strings[0].second == v, "%s: type %d, value '%s': string subscriber called %zu times, told '%s'", what, type, v.c_str(), strings.size(), strings.empty() ? "" : strings[0].second.c_str());
        calls.clear();
        strings.clear();
    }
    void nothing(const char* what) { MC_CHECK(calls.empty() && strings.empty(), "%s: %zu typed and %zu string subscribers called", what, calls.size(), strings.size()); }
};
template<typename T> void onetype(int i)
{
    ProgOptions c;
    Watch w(c);
    const string k = "some.key";
    string label;
    for (T v : Values<T>::get()) {
        string t = text(v);
        mc::transition();
        MC_CHECK(!c.UpdateProperty<T>(k, v), "update of a missing property succeeded");
        MC_CHECK(!c.UpdateProperties({{k, Property(v)}}), "update of a missing property succeeded");
        w.nothing("failed update");
        c.SetProperty<T>(k, v);
        w.expect(i, k, t, "SetProperty");
        MC_CHECK(c.GetPropertyAsString(k) == t, "type %d: '%s' reads '%s' as string", i, t.c_str(), c.GetPropertyAsString(k).c_str());
        MC_CHECK(text(c.GetProperty<T>(k)) == t, "type %d: '%s' reads '%s'", i, t.c_str(), text(c.GetProperty<T>(k)).c_str());
        MC_CHECK(c.GetPropertiesAsStringStartingWith(k)[k] == t && c.GetPropertiesAsString("some.*")[k] == t, "type %d: properties as string", i);
        w.nothing("reading");
        MC_CHECK(c.UpdateProperty<T>(k, v), "update failed");
        w.expect(i, k, t, "UpdateProperty");
        c.SetProperties({{k, Property(v)}});
        w.expect(i, k, t, "SetProperties");
        MC_CHECK(c.UpdateProperties({{k, Property(v)}}), "update failed");
        w.expect(i, k, t, "UpdateProperties");
        auto info = PropertyHelper::GetPropertyInfo(Property(v));
        MC_CHECK(info.first == t, "type %d: value information '%s', value '%s'", i, info.first.c_str(), t.c_str());
        MC_CHECK(label.empty() || label == info.second, "type name changes");
        label = info.second;
        MC_CHECK(PropertyHelper::ConvertPropertyToString(Property(v)) == t, "type %d: conversion", i);
        c.DeleteProperty(k);
        w.nothing("deletion");
    }
    MC_CHECK(!label.empty() && label[0] != '[', "type %d has no name", i);
    mc::outcome(label);
}
template<size_t... I> void typeN(int n, std::index_sequence<I...>) { ((int(I) == n ? onetype<std::tuple_element_t<I, TypeList>>(n) : void()), ...); }
template<size_t... I> vector<string> labels(std::index_sequence<I...>) { return {PropertyHelper::GetPropertyInfo(Property(std::tuple_element_t<I, TypeList>())).second...}; }
void types() { typeN(mc::choose(NTYPES, "type"), std::make_index_sequence<NTYPES>()); }
void typenames()
{
    auto l = labels(std::make_index_sequence<NTYPES>());
    std::set<string> s(l.begin(), l.end());
    MC_CHECK(int(s.size()) == NTYPES, "%d types share type names: only %zu different ones", NTYPES, s.size());
    struct Mine { int i; };
    ProgOptions c;
    const char* lit = "literal";
    MC_CHECK(PropertyHelper::GetPropertyInfo(Property(lit)).first == "literal" && PropertyHelper::GetPropertyInfo(Property(lit)).second == "string", "string literal");
    c.SetProperties({{"l", Property(lit)}});
    MC_CHECK(c.GetPropertyAsString("l") == "literal", "string literal");
    // a type made known by the user
    PropertyHelper::AddType<std::complex<int>>("complex label");
    int n = 0;
    string s1;
    c.Subscribe<std::complex<int>>("w", [&](string, std::complex<int> z) { n += z.real() * 10 + z.imag(); });
    c.SubscribeAsString("w", [&](string k, string v) { s1 += k + "=" + v + ";"; });
    c.SetProperty<std::complex<int>>("z", {1, 2});
    c.SetProperties({{"z", Property(std::complex<int>(3, 4))}});
    MC_CHECK(n == 12 + 34 && s1 == "z=(1,2);z=(3,4);", "user type: %d %s", n, s1.c_str());
    MC_CHECK(PropertyHelper::GetPropertyInfo(Property(std::complex<int>(3, 4))).second == "complex label", "label of a user type");
}
#endif
// every sequence of operations, with subscribers that come and go
void sequential(int depth)
{
    ProgOptions c;
    map<string, int> m;                                  // key -> kind
    bool subI[2] = {}, subS = false, subStr[2] = {};
    vector<string> got, want;
    string log;
    const char* who[] = {"alice", "bob"};
    for (int i = 0; i < depth; ++i) {
        int op = mc::choose(15, "op");
        string k = (op <= 5 || op == 14) && mc::choose(2, "key") ? "k2" : "k1";
        int v = i + 5;
        string sv = "s" + std::to_string(i);
        mc::transition();
        log += " " + std::to_string(op) + k;
        auto change = [&](const string& key, int kind, const string& t) {
            m[key] = kind;
            for (int s = 0; s < 2; ++s) {
                if (kind == 0 && subI[s]) want.push_back(string("i") + who[s] + key + t);
                if (subStr[s]) want.push_back(string("s") + who[s] + key + t);
            }
            if (kind == 1 && subS) want.push_back("S" + key + t);
        };
        bool r = true, exp = true;
        switch (op) {
            case 0: change(k, 0, std::to_string(v)); c.SetProperty<int>(k, v); break;
            case 1: change(k, 1, sv); c.SetProperty<string>(k, sv); break;
            case 2: exp = m.count(k); if (exp) change(k, 0, std::to_string(v)); r = c.UpdateProperty<int>(k, v); break;
            case 3: exp = m.count(k); if (exp) change(k, 1, sv); r = c.UpdateProperty<string>(k, sv); break;
            case 4: c.DeleteProperty(k); m.erase(k); break;
            case 5: c.GetPropertyAsString(k, ""); c.Count(k); break;
            case 6: change("k1", 0, std::to_string(v)); change("k2", 1, sv); c.SetProperties({{"k1", Property(v)}, {"k2", Property(sv)}}); break;
            case 7: exp = m.count("k1") && m.count("k2"); if (exp) { change("k1", 1, sv); change("k2", 0, std::to_string(v)); } r = c.UpdateProperties({{"k1", Property(sv)}, {"k2", Property(v)}}); break;
            case 8: case 9: { int s = op - 8; if (subI[s]) c.Unsubscribe<int>(who[s]); else c.Subscribe<int>(who[s], [&got, s, who](string key, int x) { got.push_back(string("i") + who[s] + key + std::to_string(x)); }); subI[s] = !subI[s]; break; }
            case 10: if (subS) c.Unsubscribe<string>("alice"); else c.Subscribe<string>("alice", [&](string key, string x) { got.push_back("S" + key + x); }); subS = !subS; break;
            case 11: case 12: { int s = op - 11; if (subStr[s]) c.UnsubscribeAsString(who[s]); else c.SubscribeAsString(who[s], [&got, s, who](string key, string x) { got.push_back(string("s") + who[s] + key + x); }); subStr[s] = !subStr[s]; break; }
            case 13: if (subI[0]) { c.Subscribe<int>(who[0], [&got, who](string key, int x) { got.push_back(string("i") + who[0] + key + std::to_string(x)); }); } break;   // again: replaces
            case 14: c.SetProperties({{k, Property(v)}}); change(k, 0, std::to_string(v)); break;
        }
        MC_CHECK(r == exp, "%s: update returned %d", log.c_str(), int(r));
        std::multiset<string> g(got.begin(), got.end()), w(want.begin(), want.end());
        if (g != w) {
            string a, b;
            for (auto& x : g) a += " " + x;
            for (auto& x : w) b += " " + x;
            mc::fail("%s: notified%s, expected%s", log.c_str(), a.c_str(), b.c_str());
        }
        got.clear();
        want.clear();
        mc::state(uint64_t(subI[0] | subI[1] << 1 | subS << 2 | subStr[0] << 3 | subStr[1] << 4 | int(m.count("k1")) << 5 | int(m.count("k2")) << 6));
    }
    mc::outcome(log.substr(0, 3));
}
// several threads change properties
void threads(int variant)
{
    ProgOptions c;
    vector<string> got, want;
    c.Subscribe<int>("w", [&](string k, int v) { mc::Quiet q; got.push_back("i" + k + "=" + std::to_string(v)); });
    c.SubscribeAsString("w", [&](string k, string v) { mc::Quiet q; got.push_back("s" + k + "=" + v); });
    auto done = [&](const string& k, int v) { mc::Quiet q; want.push_back("i" + k + "=" + std::to_string(v)); want.push_back("s" + k + "=" + std::to_string(v)); };
    c.SetProperty<int>("a", 0);
    done("a", 0);
    auto act = [&](int op, int v) {
        switch (op) {
            case 0: c.SetProperty<int>("a", v); done("a", v); break;
            case 1: if (c.UpdateProperty<int>("a", v)) done("a", v); break;
            case 2: c.SetProperties({{"a", Property(v)}, {"b", Property(v + 1)}}); done("a", v); done("b", v + 1); break;
            case 3: if (c.UpdateProperties({{"a", Property(v)}})) done("a", v); break;
            case 4: c.DeleteProperty("a"); break;
            case 5: c.Subscribe<int>("w", [&](string k, int x) { mc::Quiet q; got.push_back("i" + k + "=" + std::to_string(x)); }); break;
        }
    };
    int o1 = mc::choose(4, "op1"), o2 = mc::choose(variant ? 4 : 5, "op2"), o3 = variant ? mc::choose(5, "op3") : -1;
    std::thread t1([&] { act(o1, 10); }), t2([&] { act(o2, 20); }), t3;
    if (o3 >= 0) t3 = std::thread([&] { act(o3, 30); });
    t1.join();
    t2.join();
    if (t3.joinable()) t3.join();
    mc::Quiet q;
    std::multiset<string> g(got.begin(), got.end()), w(want.begin(), want.end());
    if (g != w) {
        string a, b;
        for (auto& x : g) a += " " + x;
        for (auto& x : w) b += " " + x;
        mc::fail("operations %d %d %d: notified%s, expected%s", o1, o2, o3, a.c_str(), b.c_str());
    }
    mc::outcome(std::to_string(g.size()));
}
// a subscriber reads and changes the configuration from its callback
void reentrant()
{
    ProgOptions c;
    int what = mc::choose(4, "what"), n = 0, s = 0;
    c.Subscribe<int>("w", [&](string k, int v) {
        ++n;
        MC_CHECK(c.GetProperty<int>(k) == v, "the callback reads another value");
        if (v > 2) return;
        switch (what) {
            case 0: c.SetProperty<int>(k, v + 1); break;
            case 1: c.UpdateProperty<int>(k, v + 1); break;
            case 2: c.SetProperties({{k, Property(v + 1)}}); break;
            case 3: c.UpdateProperties({{k, Property(v + 1)}}); break;
        }
    });
    std::set<string> seen;
    c.SubscribeAsString("w", [&](string, string v) { ++s; seen.insert(v); });
    if (mc::flag("many")) c.SetProperties({{"k", Property(1)}}); else c.SetProperty<int>("k", 1);
    MC_CHECK(n == 3 && s == 3 && seen == (std::set<string>{"1", "2", "3"}), "%d typed, %d string notifications", n, s);
}
#endif
}   // namespace

int main(int argc, char** argv)
{
    vector<mc::Scenario> v;
    auto O = [](int p, int pt, double w = 1) { mc::Opts o; o.preemptions = p; o.preemptions_thorough = pt; o.weight = w; o.races = true; return o; };
    mc::Opts m;
    m.in_main = true;
    m.sched_atomics = false;
#ifndef C06
    using V = vector<int>;
    v.push_back({"queries", "all subsets of 9 keys against prefixes, expressions and channel information", queries, m});
    v.push_back({"two-threads", "pairs of operations of two threads", [] { threads(V{0, 1, 2, 3, 4, 13}, V{0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, V{}, 1); }, O(2, 4)});
    v.push_back({"two-threads-2", "two operations each", [] { threads(V{1, 3, 5}, V{3, 4, 7}, V{}, 2); }, O(2, 3)});
    v.push_back({"three-threads", "three threads, one operation each", [] { threads(V{1, 3}, V{3, 5, 0}, V{2, 7, 4}, 1); }, O(1, 3)});
    v.push_back({"sequential", "all sequences of operations of 3 (4) steps on three keys and two value types", [] { sequential(mc::thorough() ? 4 : 3); }, m});
#else
#ifdef TYPES
    v.push_back({"type-names", "type names, literals, user types", typenames, m});
    v.push_back({"types", "all supported types, representative values, all ways to change a property", types, m});
#else
    v.push_back({"reentrant", "subscribers that change the property", reentrant, m});
    v.push_back({"two-threads", "two threads change or delete properties", [] { threads(0); }, O(2, 4)});
    v.push_back({"three-threads", "three threads change or delete properties", [] { threads(1); }, O(1, 3)});
    v.push_back({"sequential", "all sequences of 4 (5) operations with subscribers coming and going", [] { sequential(mc::thorough() ? 5 : 4); }, m});
#endif
#endif
    return mc::run(argc, argv, v);
}
