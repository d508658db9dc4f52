// Driver for C13: ensemble quantities (spec/Moments.tla) and distributions (spec/Dist.tla).
#include "common.h"
#include "bunch.h"
#include <memory>

static json moments(const json &b)
{
    json obs = json::array();
    double Sc = b["sc"], XU = b["XU"].get<double>() / Sc, PU = 1.0 / Sc, TU = b["TU"];
    // the whole ensemble may sit far from the origin, in space, time and momentum
    double base = b.value("base", 0.0);
    Vector XO = Vector(base, -2 * base, 4 * base) * XU, PO = Vector(0, 0, base / 64) * PU;
    double TO = -base * TU;
    Bunch bu;
    int n = 0;
    for (auto &o : b["h"])
    {
        std::string op = o["op"], w = "call " + std::to_string(n++) + " " + op + ": ";
        auto bad = [&](const std::string &t, double e, double g) { if (obs.size() < 5) { char c[160]; snprintf(c, 160, " expected %.12g got %.12g", e, g); obs.push_back(w + t + c); } };
        auto eq = [&](const std::string &t, double e, double g, double s) { if (!(std::fabs(e - g) <= 1e-9 * (s + std::fabs(e)))) bad(t, e, g); };
        auto P = [&](const json &p) { return Vector(p[3].get<double>() * PU, p[4].get<double>() * PU, p[5].get<double>() * PU) + PO; };
        auto X = [&](const json &p) { return Vector(p[0].get<double>() * XU, p[1].get<double>() * XU, p[2].get<double>() * XU) + XO; };
        if (op == "add") { ChargedParticle *p = new ChargedParticle(-3.0, 2.0); p->initTrajectory(o["t"].get<double>() * TU + TO, X(o["p"]), P(o["p"]), Vector(1, 2, 3)); bu.Add(p); }
        else if (op == "corr")
        {
            int i = o["i"], d = o["d"];
            // the factor refers to SI units of the coordinates
            double f = o["f"].get<double>();
            if (i >= 0 && i < 3 && d >= 3) f *= PU / XU;
            if (i >= 3 && d >= 0 && d < 3) f *= XU / PU;
            bu.addCorrelation(i, d, f);
        }
        else if (op == "move") bu.getParticle(o["k"].get<int>() - 1)->initTrajectory(7 * TU + TO, X(o["p"]), P(o["p"]), Vector(1, 2, 3));
        const json &r = o["rep"];
        double N = r["n"];
        if (bu.getNOP() != (int)N) { bad("NOP", N, bu.getNOP()); continue; }
        for (int i = 0; i < bu.getNOP(); i++)
        {
            ChargedParticle *p = bu.getParticle(i);
            Vector x = X(r["parts"][i]), q = P(r["parts"][i]);
            if (p->getNP() != 1) bad("points", 1, p->getNP());
            for (int k = 0; k < 2; k++)
            {
                Vector gx = k ? p->getPosition() : p->TrajPoint(0), gp = k ? p->getMomentum() : p->TrajMomentum(0), ga = k ? p->getAccel() : p->TrajAccel(0);
                double gt = k ? p->getTime() : p->TrajTime(0);
                eq("x", x.x, gx.x, XU); eq("y", x.y, gx.y, XU); eq("z", x.z, gx.z, XU);
                eq("px", q.x, gp.x, PU); eq("py", q.y, gp.y, PU); eq("pz", q.z, gp.z, PU);
                eq("a", 0, (ga - Vector(1, 2, 3)).norm(), 1); eq("t", r["tms"][i].get<double>() * TU + TO, gt, TU);
            }
        }
        eq("total charge", -3.0 * ElementaryCharge * N, bu.getTotalCharge(), ElementaryCharge);
        if (N == 0) continue;
        Vector ax = bu.avgPosition(), am = bu.avgMomentum(), rx = bu.rmsPosition();
        auto S = [&](int c) { return r["s1"][c].get<double>(); };
        eq("avg x", S(0) * XU / N + XO.x, ax.x, XU); eq("avg y", S(1) * XU / N + XO.y, ax.y, XU); eq("avg z", S(2) * XU / N + XO.z, ax.z, XU);
        eq("avg px", S(3) * PU / N, am.x, PU); eq("avg py", S(4) * PU / N, am.y, PU); eq("avg pz", S(5) * PU / N + PO.z, am.z, PU);
        auto R = [&](int c) { return std::sqrt(r["v"][c].get<double>()) * XU / N; };
        // a vanishing spread is only zero up to rounding
        eq("rms x", R(0), rx.x, 10 * XU); eq("rms y", R(1), rx.y, 10 * XU); eq("rms z", R(2), rx.z, 10 * XU);
        eq("avg time", r["t"].get<double>() * TU / N + TO, bu.avgTime(), TU);
        long double g = 0, m = 0, d = 0;
        std::vector<long double> ps;
        for (int i = 0; i < N; i++)
        {
            const json &p = r["parts"][i];
            long double q2 = base == 0 ? r["p2"][i].get<long double>() : powl(p[3].get<double>(), 2) + powl(p[4].get<double>(), 2) + powl(p[5].get<double>() + (long double)base / 64, 2);
            q2 *= (long double)PU * PU;
            ps.push_back(sqrtl(q2)); g += sqrtl(1 + q2); m += sqrtl(q2);
        }
        for (auto q : ps) d += (q - m / N) * (q - m / N);
        eq("avg gamma", g / N, bu.avgGamma(), 1e-9);
        // a vanishing spread is only zero up to rounding
        if (m > 0) eq("delta", sqrtl(d / N) / (m / N), bu.delta(), 1e-5);
        for (int k = 1; k <= 4; k++)
        {
            std::complex<double> c = bu.BunchingFactor(k * SpeedOfLight / (4.0 * XU));
            eq("bunching re", r["b"][k - 1][0].get<double>() / N, c.real(), 1 + base * 1e-4); eq("bunching im", r["b"][k - 1][1].get<double>() / N, c.imag(), 1 + base * 1e-4);
        }
        if (obs.size()) break;
    }
    return json{{"obs", obs}};
}

static json dists(const json &b)
{
    json obs = json::array();
    int R = b["R"];
    std::vector<std::unique_ptr<Distribution>> g(R + 1);
    int n = 0;
    for (auto &o : b["h"])
    {
        std::string op = o["op"], w = "call " + std::to_string(n++) + " " + op + ": ";
        auto bad = [&](const std::string &t, double e, double v) { if (obs.size() < 5) { char c[160]; snprintf(c, 160, " expected %.12g got %.12g", e, v); obs.push_back(w + t + c); } };
        Distribution *d = g[o["r"].get<int>()].get();
        bool exc = false;
        try
        {
            if (op == "new")
            {
                int D = o["d"], N = o["n"];
                d = new Distribution(D, N); g[o["r"].get<int>()].reset(d);
                for (int i = 0; i < N; i++) for (int k = 0; k < D; k++)
                {
                    double v = d->getCoordinate(i, k);
                    if (!(v >= -1.0 && v < 1.0)) bad("initial coordinate out of [-1,1)", 0, v);
                    d->setCoordinate(i, k, o["rows"][i][k].get<double>());
                }
            }
            else if (op == "set") d->setCoordinate(o["i"], o["k"], o["v"].get<double>());
            else if (op == "get") { double v = d->getCoordinate(o["i"], o["k"]); if (o["ret"] != 999999 && v != o["ret"].get<double>()) bad("value", o["ret"].get<double>(), v); }
            else if (op == "scale") d->scale(o["k"], o["f"].get<double>());
            else if (op == "corr") d->addCorrelation(o["i"], o["d"], o["f"].get<double>());
            else if (op == "gauss") d->generateGaussian(o["k"], 0.5);
            else if (op == "buf")
            {
                Distribution *s = g[o["s"].get<int>()].get();
                int sz = s->getDIM() * s->getNOP(), x = o["x"];
                std::vector<double> buf(sz + 3, -7e77);
                // the announced size is wrong by x at either end
                if (x < 0) s->bufferData(buf.data(), sz + x); else s->bufferData(buf.data(), sz);
                for (int i = sz; i < sz + 3; i++) if (buf[i] != -7e77) bad("buffer overrun", i, 0);
                d->fromBuffer(buf.data(), sz + x);
            }
            else if (op == "sub") { Distribution *s = g[o["s"].get<int>()]->subDist(o["i"], o["n"]); g[o["r"].get<int>()].reset(s); }
            else bad("unknown op", 0, 0);
        }
        catch (...) { exc = true; }
        if (exc != o["exc"].get<bool>()) bad("refusal", o["exc"].get<bool>(), exc);
        for (int r = 1; r <= R; r++)
        {
            const json &m = o["regs"][r - 1];
            if (m["dim"] == 0) continue;
            Distribution *p = g[r].get();
            if (p->getDIM() != m["dim"].get<int>()) { bad("DIM", m["dim"].get<int>(), p->getDIM()); continue; }
            if (p->getNOP() != m["nop"].get<int>()) { bad("NOP", m["nop"].get<int>(), p->getNOP()); continue; }
            for (int i = 0; i < p->getNOP(); i++) for (int k = 0; k < p->getDIM(); k++)
                if (m["a"][i][k] != 999999 && m["a"][i][k].get<double>() != p->getCoordinate(i, k)) bad("register " + std::to_string(r) + " coordinate", m["a"][i][k].get<double>(), p->getCoordinate(i, k));
        }
        if (obs.size()) break;
    }
    return json{{"obs", obs}};
}

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const json &b) -> json { return b.contains("R") ? dists(b) : moments(b); });
}
