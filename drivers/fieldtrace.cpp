// Driver for C05: executes histories of field-trace operations.
#include "common.h"
#include "fieldtrace.h"
#include <memory>

static double U, TU;      // field unit, time unit

static ElMagField mk(const json &v) { return ElMagField(Vector(v[0].get<double>() * U, v[1].get<double>() * U, v[2].get<double>() * U), Vector(v[3].get<double>() * U, v[4].get<double>() * U, v[5].get<double>() * U)); }
static json un(ElMagField f, double s = 1.0)
{
    double u = U / s;
    return json::array({q(f.E().x, u), q(f.E().y, u), q(f.E().z, u), q(f.B().x, u), q(f.B().y, u), q(f.B().z, u)});
}

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const json &b) -> json {
        U = b["U"]; TU = b["TU"];
        int R = b["R"];
        std::vector<std::unique_ptr<FieldTrace>> g(R + 1);
        json obs = json::array();
        for (auto &o : b["h"])
        {
            std::string op = o["op"];
            int r = o["r"];
            json e; e["exc"] = false;
            FieldTrace *p = g[r].get();
            auto S = [&](const char *k) { return g[o[k].get<int>()].get(); };
            try
            {
                if (op == "new") g[r].reset(new FieldTrace(o["t0"].get<double>() * TU, o["dt"].get<double>() * TU, o["n"].get<std::size_t>()));
                else if (op == "fill") for (size_t i = 0; i < o["v"].size(); i++) p->set_field(i, mk(o["v"][i]));
                else if (op == "set") p->set_field(o["i"].get<std::size_t>(), mk(o["v"]));
                else if (op == "add") p->add(o["i"].get<std::size_t>(), mk(o["v"]));
                else if (op == "zero") p->zero();
                else if (op == "sett0") p->set_t0(o["t0"].get<double>() * TU);
                else if (op == "copy") { FieldTrace *n = new FieldTrace(S("s")); g[r].reset(n); }
                else if (op == "assign") *p = *S("s");
                else if (op == "plus") { FieldTrace x = *S("a") + *S("b"); g[r].reset(new FieldTrace(&x)); }
                else if (op == "minus") { FieldTrace x = *S("a") - *S("b"); g[r].reset(new FieldTrace(&x)); }
                else if (op == "pluseq") *p += *S("b");
                else if (op == "mul") { FieldTrace x = *S("a") * o["k"].get<double>(); g[r].reset(new FieldTrace(&x)); }
                else if (op == "div") { FieldTrace x = *S("a") / o["k"].get<double>(); g[r].reset(new FieldTrace(&x)); }
                else if (op == "at") { ElMagField f = p->get_field(o["t"].get<double>() * TU); e["ret"] = un(f, p->get_dt() / TU); }
                else if (op == "time")
                {
                    e["ret"] = json::array();
                    double t = p->get_time(o["i"].get<std::size_t>());
                    // the sample must be readable as well (both forms agree)
                    ElMagField f1 = p->get_field(o["i"].get<std::size_t>());
                    e["ret"] = json::array({q(t, TU), q(p->get_last_time(), TU), q(2 * p->get_center_time(), TU)});
                }
                else if (op == "buffer")
                {
                    FieldTrace *s = S("s");
                    int ex = o["extra"];
                    std::vector<ElMagField> buf(s->get_N() + 3);
                    ElMagField mark(Vector(7e77, 7e77, 7e77), Vector(7e77, 7e77, 7e77));
                    for (auto &x : buf) x = mark;
                    if (ex == -1) s->get_buffer(buf.data(), s->get_N() - 1); else
                    s->get_buffer(buf.data(), s->get_N());
                    for (size_t i = s->get_N(); i < buf.size(); i++) if (buf[i].E().x != 7e77) e["overrun"] = true;
                    p->set_buffer(buf.data(), s->get_N() + ex);
                }
                else if (op == "deriv") { FieldTrace *n = S("s")->derivative(); FieldTrace *m = new FieldTrace(n); delete n;
                    // derivative is per time unit
                    FieldTrace x = *m * TU; delete m; g[r].reset(new FieldTrace(&x)); }
                else if (op == "transform")
                {
                    Vector ax[3];
                    for (int k = 0; k < 3; k++)
                    {
                        int a = o["f"][k][0]; double s = o["f"][k][1];
                        ax[k] = Vector(a == 1 ? s : 0, a == 2 ? s : 0, a == 3 ? s : 0);
                    }
                    p->transform(ax[0], ax[1], ax[2]);
                }
                else if (op == "cancel")
                {
                    int a = o["ax"]; double s = o["s"];
                    p->cancel_long_fields(Vector(a == 1 ? s : 0, a == 2 ? s : 0, a == 3 ? s : 0));
                }
                else if (op == "poynting") e["ret"] = qv(p->Poynting(), U * U * TU / MuNull);
                else if (op == "retard") S("s")->retard(o["del"].get<double>() * TU, p);
                else e["unknown"] = op;
            }
            catch (std::exception const &) { e["exc"] = true; }
            catch (...) { e["exc"] = true; }
            json rg = json::array();
            for (int k = 1; k <= R; k++)
            {
                json t;
                if (!g[k]) { t = {{"t0", 0}, {"dt", 0}, {"d", json::array()}, {"live", false}}; }
                else
                {
                    t["live"] = true;
                    t["t0"] = q(g[k]->get_t0(), TU); t["dt"] = q(g[k]->get_dt(), TU);
                    t["d"] = json::array();
                    for (size_t i = 0; i < g[k]->get_N(); i++) t["d"].push_back(un(g[k]->get_field(i)));
                }
                rg.push_back(t);
            }
            e["regs"] = rg;
            obs.push_back(e);
        }
        return json{{"obs", obs}};
    });
}
