// C30: fair::mq::Parts against a model (list of part ids), every sequence of operations.
#include "mc.h"
#include <fairmq/Parts.h>
#include <map>
using namespace fair::mq;

#ifndef SHORTER
#define SHORTER 0
#endif
namespace {
int g_live;
std::map<int, int> g_destroyed;
struct Msg : Message
{
    int id;
    explicit Msg(int i) : id(i) { ++g_live; }
    ~Msg() override { --g_live; ++g_destroyed[id]; }
    void Rebuild() override {}
    void Rebuild(Alignment) override {}
    void Rebuild(size_t) override {}
    void Rebuild(size_t, Alignment) override {}
    void Rebuild(void*, size_t, FreeFn*, void*) override {}
    void* GetData() const override { return const_cast<int*>(&id); }
    size_t GetSize() const override { return sizeof(int); }
    bool SetUsedSize(size_t, Alignment) override { return true; }
    Transport GetType() const override { return Transport::ZMQ; }
    void Copy(const Message&) override {}
};
int idof(const Message& m) { return dynamic_cast<const Msg&>(m).id; }

struct World
{
    Parts p[2];
    std::vector<int> m[2];
    int next = 0;
    std::string ops;
    int created() const { return next; }
    MessagePtr mk() { return std::make_unique<Msg>(next++); }

    void check(bool last)
    {
        int total = 0;
        for (int k = 0; k < 2; ++k) {
            Parts& a = p[k];
            const Parts& ca = a;
            auto& e = m[k];
            total += int(e.size());
            MC_CHECK(a.Size() == e.size(), "%s: container %d has size %zu, expected %zu", ops.c_str(), k, a.Size(), e.size());
            MC_CHECK(a.Empty() == e.empty(), "%s: Empty() wrong", ops.c_str());
            MC_CHECK(size_t(a.end() - a.begin()) == e.size() && size_t(ca.end() - ca.begin()) == e.size() && size_t(a.cend() - a.cbegin()) == e.size(), "%s: range size wrong", ops.c_str());
            size_t i = 0;
            for (auto& x : a) { MC_CHECK(x && idof(*x) == e[i], "%s: iteration position %zu holds another part", ops.c_str(), i); ++i; }
            i = 0;
            for (auto& x : ca) { MC_CHECK(x && idof(*x) == e[i], "%s: const iteration position %zu", ops.c_str(), i); ++i; }
            for (i = 0; i < e.size(); ++i) {
                MC_CHECK(idof(a[i]) == e[i] && idof(ca[i]) == e[i], "%s: index %zu holds part %d, expected %d", ops.c_str(), i, idof(a[i]), e[i]);
                MC_CHECK(a.At(i) && idof(*a.At(i)) == e[i] && idof(*ca.At(i)) == e[i] && idof(a.AtRef(i)) == e[i], "%s: At(%zu) wrong", ops.c_str(), i);
            }
            if (last) for (size_t j : {e.size(), e.size() + 1, size_t(-1)}) {
                int bad = 0;
                try { a.At(j); } catch (std::out_of_range&) { ++bad; }
                try { ca.At(j); } catch (std::out_of_range&) { ++bad; }
                try { a.AtRef(j); } catch (std::out_of_range&) { ++bad; }
                MC_CHECK(bad == 3, "%s: access to position %zu of %zu did not fail", ops.c_str(), j, e.size());
            }
        }
        MC_CHECK(g_live == total, "%s: %d parts alive, containers hold %d", ops.c_str(), g_live, total);
        for (auto& d : g_destroyed) MC_CHECK(d.second == 1, "%s: part %d destroyed %d times", ops.c_str(), d.first, d.second);
    }
};

void sequential()
{
    g_live = 0;
    g_destroyed.clear();
    {
        World w;
        const int depth = (mc::thorough() ? 5 : 4) - SHORTER;
        for (int step = 0; step < depth; ++step) {
            int k = step ? mc::choose(2, "container") : 0;
            int op = mc::choose(14, "op");
            mc::transition();
            w.ops += char('A' + op); w.ops += char('0' + k);
            Parts& a = w.p[k];
            Parts& b = w.p[1 - k];
            auto& e = w.m[k];
            auto& f = w.m[1 - k];
            int n = w.next;
            switch (op) {
                case 0: a.AddPart(w.mk()); e.push_back(n); break;
                case 1: a.AddPart(w.mk().release()); e.push_back(n); break;
                case 2: { auto x = w.mk(), y = w.mk(); a.AddPart(std::move(x), std::move(y)); e.push_back(n); e.push_back(n + 1); break; }
                case 3: { auto x = w.mk(), y = w.mk(), z = w.mk(); a.AddPart(std::move(x), std::move(y), std::move(z)); e.insert(e.end(), {n, n + 1, n + 2}); break; }
                case 4: a.AddPart(std::move(b)); e.insert(e.end(), f.begin(), f.end()); f.clear(); break;
                case 5: { auto x = w.mk(); a.AddPart(std::move(x), std::move(b)); e.push_back(n); e.insert(e.end(), f.begin(), f.end()); f.clear(); break; }
                case 6: a.Clear(); e.clear(); break;
                case 7: a = std::move(b); e = f; f.clear(); break;
                case 8: { Parts t(std::move(a)); MC_CHECK(t.Size() == e.size(), "%s: moved-to size", w.ops.c_str()); a = std::move(t); break; }
                case 9: { auto x = w.mk(), y = w.mk(); a = Parts(std::move(x), std::move(y)); e = {n, n + 1}; break; }
                case 10: a = Parts(); e.clear(); break;
                case 11: { if (e.empty()) mc::abandon(); MessagePtr t = std::move(a.At(0)); a.fParts.erase(a.fParts.begin()); e.erase(e.begin()); break; }
                case 12: { Parts t; auto x = w.mk(); t.AddPart(std::move(x)); t.AddPart(std::move(a)); a.AddPart(std::move(t)); e.insert(e.begin(), n); break; }
                case 13: { auto x = w.mk(); Parts t(std::move(x)); t.AddPart(w.mk()); a.AddPart(std::move(t)); MC_CHECK(t.Empty(), "%s: source keeps parts", w.ops.c_str()); e.push_back(n); e.push_back(n + 1); break; }
            }
            w.check(step + 1 == depth);
            uint64_t h = w.m[0].size() * 64 + w.m[1].size();
            mc::state(h);
        }
        mc::outcome(std::to_string(w.m[0].size()) + "," + std::to_string(w.m[1].size()));
    }
    MC_CHECK(g_live == 0, "%d parts leaked after destruction", g_live);
}
}   // namespace

int main(int argc, char** argv)
{
    mc::Opts o;
    o.in_main = true;
    o.fork_each = false;
    o.preemptions = 0;
    return mc::run(argc, argv, {{"seq", "all sequences of part container operations over two containers", sequential, o}});
}
