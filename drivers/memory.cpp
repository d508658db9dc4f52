// Driver for C20: ownership histories (spec/Memory.tla); asks the address sanitizer which of the objects exist.
#include "common.h"
#include "fields.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"
#include <sanitizer/asan_interface.h>

struct World
{
    std::vector<void *> ptr;        // by id - 1; pointers as the user got them
    std::vector<std::string> kind;
    std::vector<int> gone;          // not judged any more (removed from a lattice)
    ChargedParticle *P(int id) { return (ChargedParticle *)ptr.at(id - 1); }
    Bunch *B(int id) { return (Bunch *)ptr.at(id - 1); }
    Beam *M(int id) { return (Beam *)ptr.at(id - 1); }
    Lattice *L(int id) { return (Lattice *)ptr.at(id - 1); }
    HomogeneousField *E(int id) { return (HomogeneousField *)ptr.at(id - 1); }
    void add(const char *k, void *p) { ptr.push_back(p); kind.push_back(k); gone.push_back(0); }
    int id(const void *p, const char *k)
    {
        for (size_t i = 0; i < ptr.size(); i++) if (ptr[i] == p && kind[i] == k && !__asan_address_is_poisoned(ptr[i])) return (int)i + 1;
        return 0;
    }
    void full(Bunch *b)
    {
        add("B", b);
        for (int i = 0; i < b->getNOP(); i++) add("P", b->getParticle(i));
    }
    json view()
    {
        json out = json::array();
        for (size_t i = 0; i < ptr.size(); i++)
        {
            int n = (int)i + 1;
            const std::string &k = kind[i];
            json kids = json::array();
            double q = 0;
            int alive = gone[i] ? 2 : __asan_address_is_poisoned(ptr[i]) ? 0 : 1;
            if (alive == 1)
            {
                if (k == "P") q = P(n)->getCharge() / ElementaryCharge;
                if (k == "E") q = E(n)->Field(0.0, Vector(0, 0, 0)).E().x;
                if (k == "B") { q = B(n)->getTotalCharge() / ElementaryCharge; for (int j = 0; j < B(n)->getNOP(); j++) kids.push_back(id(B(n)->getParticle(j), "P")); }
                if (k == "M") { q = M(n)->getTotalCharge() / ElementaryCharge; for (int j = 0; j < M(n)->getNOB(); j++) kids.push_back(id(M(n)->getBunch(j), "B")); }
                if (k == "L") { q = L(n)->Field(0.0, Vector(0, 0, 0)).E().x; for (int j = 0; j < L(n)->count(); j++) kids.push_back(id(L(n)->at(j), "E")); }
            }
            out.push_back({{"alive", alive}, {"kids", kids}, {"q", (int)std::lround(q)}});
        }
        return out;
    }
    void destroy(int n)
    {
        const std::string &k = kind[n - 1];
        if (k == "P") delete P(n);
        if (k == "B") delete B(n);
        if (k == "M") delete M(n);
        if (k == "L") delete L(n);
        if (k == "E") delete E(n);
    }
};

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const json &b) -> json {
        World w;
        json bad = json::array();
        int step = 0;
        for (auto &e : b["h"])
        {
            std::string op = e["op"];
            step++;
            int n = e["id"];
            if (op == "new")
            {
                std::string k = e["k"];
                if (k == "P") w.add("P", new ChargedParticle((double)n, 1.0));
                if (k == "B") w.add("B", new Bunch());
                if (k == "M") w.add("M", new Beam());
                if (k == "L") w.add("L", new Lattice());
                if (k == "E") w.add("E", new HomogeneousField(Vector(n, 0, 0), Vector(0, 0, 0)));
            }
            else if (op == "newfull") w.full(new Bunch((int)e["n"], 100.0 + n, 1.0));
            else if (op == "copyP") w.add("P", new ChargedParticle(w.P(e["from"])));
            else if (op == "copyB") w.full(new Bunch(w.B(e["from"])));
            else if (op == "give")
            {
                int to = e["to"];
                const std::string &k = w.kind[to - 1];
                if (k == "B") w.B(to)->Add(w.P(n));
                if (k == "M") w.M(to)->Add(w.B(n));
                if (k == "L") w.L(to)->addElement(w.E(n));
            }
            else if (op == "replace") w.B(e["to"])->replaceParticle(e["i"], w.P(n));
            else if (op == "clear") w.M(n)->clear();
            else if (op == "remove")
            {
                int i = e["i"];
                if (e["bad"] == 0) w.gone[w.id(w.L(n)->at(i), "E") - 1] = 1;
                if (refused([&] { w.L(n)->remove(i); }) != (e["bad"] == 1)) bad.push_back({{"step", step}, {"refusal", 1}});
            }
            else if (op == "delete") w.destroy(n);
            json v = w.view();
            if (v != e["view"]) { bad.push_back({{"step", step}, {"op", op}, {"got", v}, {"expected", e["view"]}}); break; }
        }
        // the user gives up what is left
        if (bad.empty())
        {
            auto &r = b["roots"];
            for (size_t i = 0; i < r.size(); i++) if (r[i] == 1) w.destroy((int)i + 1);
            for (size_t i = 0; i < w.ptr.size(); i++) if (!w.gone[i] && !__asan_address_is_poisoned(w.ptr[i])) bad.push_back({{"left over", (int)i + 1}, {"kind", w.kind[i]}});
        }
        json res;
        res["obs"] = bad;
        return res;
    });
}
