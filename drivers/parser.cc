// C12: channel configuration text -> properties -> channels, and back.  Configurations are described
// abstractly, rendered as JSON or as sub-option text, parsed by the real parsers and compared with an
// independent reading of the same description.
#include "mc.h"
#include <fairmq/Channel.h>
#include <fairmq/JSONParser.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/SuboptParser.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
using namespace fair::mq;
using std::map;
using std::string;
using std::vector;

namespace {
// ---------------------------------------------------------------- description
enum Kind { STR, INT, BOOL };
struct Key { const char* n; Kind k; const char* def; vector<const char*> vals; };
const vector<Key>& keys()
{
    static const vector<Key> k = {
        {"type", STR, "unspecified", {"push", "pull"}},
        {"method", STR, "unspecified", {"bind", "connect"}},
        {"address", STR, "unspecified", {"tcp://*:5555", "ipc://x"}},
        {"transport", STR, "default", {"shmem", "zeromq"}},
        {"sndBufSize", INT, "1000", {"0", "2147483647"}},
        {"rcvBufSize", INT, "1000", {"7", "0"}},
        {"sndKernelSize", INT, "0", {"11", "-5"}},
        {"rcvKernelSize", INT, "0", {"13", "1000000"}},
        {"sndTimeoutMs", INT, "-1", {"0", "250"}},
        {"rcvTimeoutMs", INT, "-1", {"17", "0"}},
        {"linger", INT, "500", {"-1", "19"}},
        {"rateLogging", INT, "1", {"0", "60"}},
        {"portRangeMin", INT, "22000", {"1", "30000"}},
        {"portRangeMax", INT, "23000", {"2", "65535"}},
        {"autoBind", BOOL, "true", {"false", "true"}},
    };
    return k;
}
using Opts = map<string, string>;      // key -> text of the value
struct Chan { string name; Opts o; vector<Opts> sub; int num = -1; };        // num: numSockets, -1 not given
struct Devc { string id, key; vector<Chan> c; };

using Flat = map<string, string>;      // property -> "type:value"
string typed(const Key& k, const string& v)
{
    if (k.k == STR) return "s:" + v;
    if (k.k == BOOL) return string("b:") + (v == "true" || v == "1" ? "1" : "0");
    return "i:" + std::to_string(atoi(v.c_str()));
}
Flat expected(const vector<Devc>& d, const string& id)
{
    Flat f;
    for (auto& x : d) {
        if ((x.key.empty() ? x.id : x.key) != id) continue;
        for (auto& c : x.c) {
            size_t n = c.num > 0 ? size_t(c.num) : c.sub.empty() ? 1 : c.sub.size();
            for (size_t i = 0; i < n; ++i)
                for (auto& k : keys()) {
                    string v = c.o.count(k.n) ? c.o.at(k.n) : k.def;
                    if (c.num <= 0 && i < c.sub.size() && c.sub[i].count(k.n)) v = c.sub[i].at(k.n);
                    f.emplace("chans." + c.name + "." + std::to_string(i) + "." + k.n, typed(k, v));
                }
        }
    }
    return f;
}
string show(const boost::any& a)
{
    if (a.type() == typeid(string)) return "s:" + boost::any_cast<string>(a);
    if (a.type() == typeid(int)) return "i:" + std::to_string(boost::any_cast<int>(a));
    if (a.type() == typeid(bool)) return string("b:") + (boost::any_cast<bool>(a) ? "1" : "0");
    return string("?:") + a.type().name();
}
void same(const Properties& p, const Flat& f, const string& text)
{
    for (auto& [k, v] : p) {
        auto i = f.find(k);
        MC_CHECK(i != f.end(), "%s: yields %s = %s, which it does not describe", text.c_str(), k.c_str(), show(v).c_str());
        MC_CHECK(i->second == show(v), "%s: %s is %s instead of %s", text.c_str(), k.c_str(), show(v).c_str(), i->second.c_str());
    }
    for (auto& [k, v] : f) MC_CHECK(p.count(k), "%s: %s = %s is missing", text.c_str(), k.c_str(), v.c_str());
}
string report(const Channel& c, const char* key)
{
    string k = key;
    if (k == "type") return "s:" + c.GetType();
    if (k == "method") return "s:" + c.GetMethod();
    if (k == "address") return "s:" + c.GetAddress();
    if (k == "transport") return "s:" + c.GetTransportName();
    if (k == "autoBind") return string("b:") + (c.GetAutoBind() ? "1" : "0");
    int v = k == "sndBufSize" ? c.GetSndBufSize() : k == "rcvBufSize" ? c.GetRcvBufSize() : k == "sndKernelSize" ? c.GetSndKernelSize()
        : k == "rcvKernelSize" ? c.GetRcvKernelSize() : k == "sndTimeoutMs" ? c.GetSndTimeout() : k == "rcvTimeoutMs" ? c.GetRcvTimeout()
        : k == "linger" ? c.GetLinger() : k == "rateLogging" ? c.GetRateLogging() : k == "portRangeMin" ? c.GetPortRangeMin() : c.GetPortRangeMax();
    return "i:" + std::to_string(v);
}
// a channel built from the properties reports them; so do its copies; storing it yields an equal one
void channels(const Properties& p, const string& text)
{
    std::set<std::pair<string, int>> subs;
    for (auto& [k, v] : p) {
        size_t b = k.find('.', 6), e = k.find('.', b + 1);
        subs.insert({k.substr(6, b - 6), atoi(k.substr(b + 1, e - b - 1).c_str())});
    }
    ProgOptions config;
    config.SetProperties(p);
    auto info = config.GetChannelInfo();
    map<string, int> want;
    for (auto& s : subs) ++want[s.first];
    MC_CHECK((map<string, int>(info.begin(), info.end())) == want, "%s: the configuration lists other channels", text.c_str());
    for (auto& [n, i] : subs) {
        string pre = "chans." + n + "." + std::to_string(i) + ".";
        Channel c(n, i, config.GetPropertiesStartingWith("chans." + n));
        Channel d(c), e;
        e = c;
        Channel f(c, "other[9]");
        MC_CHECK(c.GetName() == n + "[" + std::to_string(i) + "]" && f.GetName() == "other[9]", "%s: the channel is named %s", text.c_str(), c.GetName().c_str());
        for (auto& k : keys()) {
            string w = show(p.at(pre + k.n));
            for (auto* x : {&c, &d, &e, &f}) MC_CHECK(report(*x, k.n) == w, "%s: channel %s reports %s for %s, configured is %s", text.c_str(), x->GetName().c_str(), report(*x, k.n).c_str(), k.n, w.c_str());
        }
        // appended after the existing sub-channels of the name
        int at = config.GetChannelInfo().at(n);
        config.AddChannel(n, d);
        MC_CHECK(config.GetChannelInfo().at(n) == at + 1, "%s: storing a channel did not add one", text.c_str());
        Channel g(n, at, config.GetPropertiesStartingWith("chans." + n));
        for (auto& k : keys()) MC_CHECK(report(g, k.n) == report(c, k.n), "%s: a stored channel reads back %s for %s instead of %s", text.c_str(), report(g, k.n).c_str(), k.n, report(c, k.n).c_str());
        mc::transition();
    }
    for (auto& [k, v] : p) MC_CHECK(show(config.GetProperties("^" + k + "$").at(k)) == show(v), "%s: storing channels changed %s", text.c_str(), k.c_str());
}

// ---------------------------------------------------------------- rendering
string q(const string& s) { return "\"" + s + "\""; }
string jval(const string& key, const string& v, int style)      // 0: native JSON types, 1: everything as text
{
    for (auto& k : keys()) if (key == k.n && k.k != STR && style == 0) return v;
    return q(v);
}
string obj(const Opts& o, int style, const string& more = "")
{
    string s = more;
    for (auto& [k, v] : o) s += (s.empty() ? "" : ",") + q(k) + ":" + jval(k, v, style);
    return s;
}
string json(const vector<Devc>& ds, int style, bool junk)
{
    std::ostringstream s;
    s << "{\"fairMQOptions\":{";
    if (junk) s << "\"version\":3,\"channels\":[{\"name\":\"stray\"}],";
    s << "\"devices\":[";
    for (size_t d = 0; d < ds.size(); ++d) {
        auto& x = ds[d];
        s << (d ? "," : "") << "{";
        bool first = true;
        auto sep = [&] { if (!first) s << ","; first = false; };
        if (!x.id.empty()) { sep(); s << "\"id\":" << q(x.id); }
        if (!x.key.empty()) { sep(); s << "\"key\":" << q(x.key); }
        if (junk) { sep(); s << "\"note\":\"n\",\"sockets\":[{\"type\":\"req\"}]"; }
        sep();
        s << "\"channels\":[";
        for (size_t c = 0; c < x.c.size(); ++c) {
            auto& y = x.c[c];
            s << (c ? "," : "") << "{\"name\":" << q(y.name);
            if (junk) s << ",\"bogus\":{\"type\":\"req\",\"sockets\":[{}]},\"Type\":\"req\"";
            if (y.num >= 0) s << ",\"numSockets\":" << y.num;
            string o = obj(y.o, style);
            if (!o.empty()) s << "," << o;
            if (!y.sub.empty() || style == 0) {
                s << ",\"sockets\":[";
                for (size_t k = 0; k < y.sub.size(); ++k) s << (k ? "," : "") << "{" << obj(y.sub[k], style, junk ? "\"name\":\"inner\",\"numSockets\":4,\"foo\":1" : "") << "}";
                s << "]";
            }
            s << "}";
        }
        s << "]}";
    }
    s << "]}}";
    return s.str();
}
const string& file()
{
    static const string f = [] { const char* s = getenv("MC_SCRATCH"); return (s ? string(s) : string("/tmp")) + "/parser-" + std::to_string(getpid()) + ".json"; }();
    return f;
}
void check_json(const vector<Devc>& d, const string& id, int style, bool junk)
{
    string t = json(d, style, junk);
    { std::ofstream o(file(), std::ios::trunc); o << t; }
    auto p = JSONParser(file(), id);
    ::unlink(file().c_str());
    mc::transition();
    same(p, expected(d, id), t + " for " + id);
    channels(p, t);
}
string subopt(const Chan& c, int style)          // 0: name=, 1: "name:", 2: name last, options reversed
{
    vector<string> v;
    for (auto& [k, x] : c.o) v.push_back(k + "=" + x);
    if (c.num >= 0) v.push_back("numSockets=" + std::to_string(c.num));
    for (auto& s : c.sub) v.push_back("address=" + s.at("address"));
    if (style == 2) { auto n = v.size() - c.sub.size(); std::reverse(v.begin(), v.begin() + long(n)); v.push_back("name=" + c.name); }
    if (style == 0) v.insert(v.begin(), "name=" + c.name);
    string t;
    for (auto& x : v) t += (t.empty() ? "" : ",") + x;
    return style == 1 ? c.name + ":" + t : t;
}
void check_subopt(const vector<Chan>& c, int style)
{
    vector<string> t;
    string all;
    for (auto& x : c) { t.push_back(subopt(x, style)); all += " " + t.back(); }
    auto p = SuboptParser(t, "dev");
    mc::transition();
    vector<Devc> d = {{"dev", "", c}};
    same(p, expected(d, "dev"), "--channel-config" + all);
    channels(p, all);
}

// ---------------------------------------------------------------- scenarios
void put(Chan& c, const Key& k, int where, int v)      // where: 0 absent, 1 channel, 2 last sub-channel, 3 both
{
    if (where & 1) c.o[k.n] = k.vals[size_t(v)];
    if (where & 2) c.sub.back()[k.n] = k.vals[size_t(where == 3 ? 1 - v : v)];
}
// every pair of options x placement x value, x number of sub-channels x numSockets
void pairs_json()
{
    int a = mc::choose(int(keys().size()), "first option");
    int b = mc::choose(int(keys().size()), "second option");
    if (b < a) mc::abandon();
    Chan c{"data", {}, {}, -1};
    int ns = mc::choose(4, "sub-channels");
    for (int i = 0; i < ns; ++i) c.sub.push_back(i == 0 && ns > 1 ? Opts{{"address", "inproc://first"}} : Opts{});
    static const int nums[] = {-1, 0, 1, 3};
    c.num = nums[mc::choose(4, "numSockets")];
    put(c, keys()[size_t(a)], mc::choose(ns ? 4 : 2, "placement"), mc::choose(2, "value"));
    if (b != a) put(c, keys()[size_t(b)], mc::choose(ns ? 4 : 2, "placement"), 0);
    check_json({{"dev", "", {c}}}, "dev", mc::thorough() ? mc::choose(2, "style") : (a + b) % 2, false);
}
void pairs_subopt()
{
    int a = mc::choose(int(keys().size()), "first option");
    int b = mc::choose(int(keys().size()), "second option");
    if (b < a) mc::abandon();
    Chan c{"data", {}, {}, -1};
    static const int nums[] = {-1, 0, 1, 3};
    c.num = nums[mc::choose(4, "numSockets")];
    int ns = mc::choose(4, "addresses");
    for (int i = 0; i < ns; ++i) c.sub.push_back({{"address", i ? "tcp://h:" + std::to_string(i) : "ipc:///tmp/x"}});
    for (int k : {a, b}) if (string(keys()[size_t(k)].n) == "address") mc::abandon();      // an address is a sub-channel here
    int va = mc::choose(2, "value");
    c.o[keys()[size_t(a)].n] = keys()[size_t(a)].vals[size_t(va)];
    if (b != a) c.o[keys()[size_t(b)].n] = keys()[size_t(b)].vals[size_t(mc::choose(2, "value"))];
    check_subopt({c}, mc::choose(3, "style"));
}
// all options given at once, on every level
void full()
{
    int lvl = 1 + mc::choose(3, "placement"), v = mc::choose(2, "values");
    int drop = mc::choose(int(keys().size()) + 1, "option left out");
    int subs = 1 + mc::choose(3, "sub-channels");
    Chan c{"all-of_it", {}, vector<Opts>(size_t(subs)), -1};
    for (size_t i = 0; i < keys().size(); ++i) if (int(i) != drop) put(c, keys()[i], lvl, v);
    check_json({{"dev", "", {c}}}, "dev", mc::choose(2, "style"), mc::flag("junk"));
}
// who a description belongs to
void devices()
{
    static const char* ids[] = {"", "a", "b"};
    vector<Devc> d;
    int n = mc::choose(3, "devices") + 1;
    for (int i = 0; i < n; ++i) {
        Devc x{ids[mc::choose(3, "id")], ids[mc::choose(3, "key")], {}};
        int nc = mc::choose(3, "channels");
        for (int k = 0; k < nc; ++k) {
            Chan c{"c" + std::to_string(i) + std::to_string(k), {{"type", k ? "pub" : "sub"}, {"sndBufSize", std::to_string(10 * i + k)}}, {}, -1};
            if (k) c.sub = {{{"address", "tcp://x:1"}}, {{"type", "req"}}};
            d.size();
            x.c.push_back(c);
        }
        d.push_back(x);
    }
    check_json(d, ids[1 + mc::choose(2, "wanted")], 1, mc::flag("junk"));
}
void several()
{
    vector<Chan> v;
    int n = mc::choose(4, "channels");
    for (int i = 0; i < n; ++i) {
        Chan c{string(1, char('x' + i)), {}, {}, -1};
        switch (mc::choose(5, "shape")) {
            case 0: break;
            case 1: c.o = {{"type", "push"}, {"autoBind", "false"}}; break;
            case 2: c.sub = {{{"address", "tcp://a:1"}}}; c.o = {{"linger", "3"}}; break;
            case 3: c.sub = {{{"address", "tcp://a:1"}}, {{"address", "tcp://a:2"}}}; break;
            case 4: c.num = 2; c.o = {{"transport", "shmem"}}; break;
        }
        v.push_back(c);
    }
    if (mc::flag("json")) check_json({{"dev", "", v}}, "dev", mc::choose(2, "style"), false);
    else check_subopt(v, mc::choose(3, "style"));
}
// sub-option text token by token: values left out, empty, repeated, unknown keys, the name anywhere
void tokens()
{
    static const char* tok[] = {"name=a", "name", "name=b-2", "address=tcp://*:1", "address", "type=push", "type=pull", "type", "sndBufSize=5", "sndBufSize",
                                "autoBind=false", "numSockets=2", "numSockets", "bogus=1", "bogus", "", "Type=req", "types=x", "typ", "address=ipc://a=b:c"};
    int pre = mc::choose(2, "prefix");
    int n = mc::choose((mc::thorough() ? 5 : 4), "tokens") + !pre;
    Chan c{pre ? "pre" : "", {}, {}, -1};
    string t = pre ? "pre:" : "";
    for (int i = 0; i < n; ++i) {
        // ':' before the first '=' would be read as the end of a channel name
        int k = mc::choose(int(sizeof(tok) / sizeof(*tok)), "token");
        t += string(i ? "," : "") + tok[k];
        string s = tok[k];
        size_t e = s.find('=');
        if (e == string::npos) continue;
        string key = s.substr(0, e), v = s.substr(e + 1);
        if (key == "name") c.name = v;
        else if (key == "address") c.sub.push_back({{"address", v}});
        else if (key == "numSockets") c.num = atoi(v.c_str());
        else for (auto& x : keys()) if (key == x.n) c.o[key] = v;
    }
    Properties p;
    bool threw = false;
    try { p = SuboptParser({t}, "dev"); } catch (std::exception&) { threw = true; }
    mc::transition();
    mc::outcome(threw ? "refused" : std::to_string(p.size()));
    MC_CHECK(threw == c.name.empty(), "--channel-config %s: %s", t.c_str(), threw ? "refused" : "accepted without a channel name");
    if (threw) return;
    same(p, expected({{"dev", "", {c}}}, "dev"), "--channel-config " + t);
    channels(p, t);
}
// every subset of a channel's properties: what is missing has its default
void partial()
{
    unsigned mask = unsigned(mc::choose(1 << keys().size(), "given"));
    int v = mc::choose(2, "value"), idx = mc::choose(2, "index") * 10;
    Properties p;
    string pre = "chans.data." + std::to_string(idx) + ".";
    for (size_t i = 0; i < keys().size(); ++i) {
        auto& k = keys()[i];
        p["chans.data.1." + string(k.n)] = k.k == STR ? boost::any(string("zeromq")) : k.k == BOOL ? boost::any(false) : boost::any(77);     // a neighbour
        if (!(mask >> i & 1)) continue;
        string x = k.vals[size_t(v)];
        p[pre + k.n] = k.k == STR ? boost::any(x) : k.k == BOOL ? boost::any(x == "true") : boost::any(atoi(x.c_str()));
    }
    Channel c("data", idx, p);
    mc::transition();
    for (size_t i = 0; i < keys().size(); ++i) {
        auto& k = keys()[i];
        string want = typed(k, mask >> i & 1 ? k.vals[size_t(v)] : k.def);
        MC_CHECK(report(c, k.n) == want, "properties %x of a channel given: %s is %s instead of %s", mask, k.n, report(c, k.n).c_str(), want.c_str());
    }
}
// what cannot be a configuration is refused
void refused()
{
    auto throws = [](std::function<void()> f) { try { f(); } catch (std::exception&) { return true; } return false; };
    auto js = [&](const string& t, const string& id) { { std::ofstream o(file(), std::ios::trunc); o << t; } bool r = throws([&] { JSONParser(file(), id); }); ::unlink(file().c_str()); return r; };
    switch (mc::choose(8, "case")) {
        case 0: MC_CHECK(js("{\"fairMQOptions\":{\"devices\":[]}}", ""), "no device id"); break;
        case 1: MC_CHECK(js("{\"devices\":[]}", "dev"), "no options"); break;
        case 2: MC_CHECK(js("{\"fairMQOptions\":{\"devices\":[}}", "dev"), "damaged text"); break;
        case 3: MC_CHECK(js("{\"fairMQOptions\":{\"devices\":[{\"id\":\"dev\",\"channels\":[{\"type\":\"push\"}]}]}}", "dev"), "no channel name"); break;
        case 4: MC_CHECK(throws([] { JSONParser("/nonexistent/file", "dev"); }), "no file"); break;
        case 5: MC_CHECK(throws([] { SuboptParser({"name=a"}, ""); }), "no device id"); break;
        case 6: MC_CHECK(throws([] { Channel c("data", 0, {{"chans.data.0.transport", boost::any(string("pigeon"))}}); }), "unknown transport"); break;
        case 7: MC_CHECK(!js("{\"fairMQOptions\":{\"devices\":[]}}", "dev") && SuboptParser({}, "dev").empty(), "an empty configuration is one"); break;
    }
}
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.in_main = true;
    o.fork_each = false;
    o.preemptions = 0;
    o.sched_atomics = false;
    std::vector<mc::Scenario> v;
    auto add = [&](const char* n, const char* d, std::function<void()> f, int wt) { mc::Opts p = o; p.weight = wt; v.push_back({n, d, f, p}); };
    add("refused", "what cannot be a configuration", refused, 1);
    add("pairs_json", "every pair of options x level x value x number of sub-channels x numSockets, as JSON", pairs_json, 4);
    add("pairs_subopt", "every pair of options x value x addresses x numSockets x form, as sub-options", pairs_subopt, 4);
    add("full", "all options at once, one left out, on every level", full, 1);
    add("devices", "all assignments of ids and keys to up to three devices", devices, 2);
    add("several", "up to three channels of five shapes", several, 2);
    add("tokens", "all texts of up to four sub-option tokens", tokens, 4);
    add("partial", "every subset of a channel's properties", partial, 2);
    return mc::run(argc, argv, v);
}
