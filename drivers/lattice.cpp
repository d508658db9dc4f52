// Driver for C11: histories of a lattice.
#include "terms.h"
#include <map>

int main(int argc, char **argv)
{
    teufel::rank = 1;       // keep the elements quiet
    return drive(argc, argv, [](const json &b) -> json {
        double L = b["L"], EU = b["EU"], BU = b["BU"];
        json bad = json::array(); int n = 0;
        Lattice *lat = new Lattice();
        std::map<int, GeneralField *> el;
        std::vector<GeneralField *> removed;
        int k = 0;
        for (auto &c : b["h"])
        {
            std::string op = c["op"];
            auto err = [&](const std::string &s) { if (bad.size() < 6) bad.push_back("call " + std::to_string(k) + " " + op + ": " + s); };
            try
            {
                if (op == "add")
                {
                    GeneralField *e = element(c["e"], L, EU, BU);
                    el[c["id"]] = e;
                    lat->addElement(e);
                    if (!e->is_external()) err("an external element does not call itself external");
                    if (lat->count() != c["n"].get<int>()) err("count");
                }
                else if (op == "remove")
                {
                    GeneralField *e = nullptr; int i = c["i"];
                    if (c["ok"].get<bool>()) e = lat->at(i);
                    bool exc = refused([&] { lat->remove(i); });
                    if (exc == c["ok"].get<bool>()) err("refusal");
                    if (e && !exc) removed.push_back(e);
                    if (lat->count() != c["n"].get<int>()) err("count");
                }
                else if (op == "at")
                {
                    GeneralField *e = nullptr;
                    bool exc = refused([&] { e = lat->at(c["i"]); });
                    if (exc == c["ok"].get<bool>()) err("refusal");
                    if (!exc && c["ok"].get<bool>() && e != el[c["id"]]) err("wrong element");
                }
                else if (op == "probe")
                {
                    double t = c["t"].get<double>() * L / SpeedOfLight;
                    Vector x = vec(c["x"], L);
                    double mag[2] = {0, 0};
                    ElMagField want, single;
                    for (auto &f : c["f"])
                    {
                        double m[2] = {0, 0};
                        ElMagField w = terms(f["f"], EU, BU, m);
                        want += w; mag[0] += m[0]; mag[1] += m[1];
                        ElMagField g = el[f["id"]]->Field(t, x);
                        if (!((g.E() - w.E()).norm() <= 1e-9 * m[0] + 1e-12 * EU) || !((g.B() - w.B()).norm() <= 1e-9 * m[1] + 1e-12 * BU))
                        {
                            char s[300]; snprintf(s, 300, "element %d E (%.6g %.6g %.6g) B (%.6g %.6g %.6g), expected E (%.6g %.6g %.6g) B (%.6g %.6g %.6g)", f["id"].get<int>(), g.E().x, g.E().y, g.E().z,
                                                  g.B().x, g.B().y, g.B().z, w.E().x, w.E().y, w.E().z, w.B().x, w.B().y, w.B().z);
                            err(s);
                        }
                        n++;
                    }
                    ElMagField g = lat->Field(t, x);
                    if (!((g.E() - want.E()).norm() <= 1e-9 * mag[0] + 1e-12 * EU) || !((g.B() - want.B()).norm() <= 1e-9 * mag[1] + 1e-12 * BU)) err("lattice field");
                }
            }
            catch (std::exception &e) { err(std::string("exception ") + e.what()); }
            catch (...) { err("exception"); }
            k++;
        }
        for (auto *e : removed) delete e;      // removing hands the element back
        delete lat;
        return json{{"obs", bad}, {"n", n}};
    });
}
