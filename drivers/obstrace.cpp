// Driver for C04: deposits fields of particles into observation traces.
#include "common.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"
#include "fieldtrace.h"

// particle with given arrival times and fields, in the way of tests/teufel.integrate_field.cpp
class Special : public ChargedParticle
{
public:
    std::vector<double> t; std::vector<ElMagField> f;
    Special(std::vector<double> tt, std::vector<ElMagField> ff) : t(tt), f(ff) { NP = (int)t.size(); }
    virtual double RetardedTime(int i, Vector) { return t.at(i); }
    virtual ElMagField RetardedField(int i, Vector) { return f.at(i); }
};

// A real particle at rest with transverse "acceleration": at distance R from the observer its field is
// E = q/(4 pi eps0) ( n/R^2 - A/(R c) ), B = n x E / c, arriving R/c after the trajectory time.
static ChargedParticle *real_particle(std::vector<double> tArr, std::vector<double> F, Vector obs, double R)
{
    double k = -1.0 * ElementaryCharge / (4.0 * Pi * EpsNull);     // charge -1
    int n = (int)tArr.size();
    std::vector<double> b(9 + 10 * n, 0.0);
    b[0] = -1.0; b[1] = 1.0; b[8] = 1.0;
    for (int i = 0; i < n; i++)
    {
        double *p = &b[9 + 10 * i];
        p[0] = tArr[i] - R / SpeedOfLight;
        p[1] = obs.x; p[2] = obs.y; p[3] = obs.z - R;
        p[7] = -F[i] * R * SpeedOfLight / k; // A.x such that E.x = F
    }
    return new ChargedParticle(b.data(), n, n);
}

// unit vector fields: point k carries component (k-1) of (Ex,Ey,Ez,Bx,By,Bz)
static ElMagField basis(int k, double amp)
{
    double c[6] = {0, 0, 0, 0, 0, 0};
    c[k % 6] = amp;
    return ElMagField(Vector(c[0], c[1], c[2]), Vector(c[3], c[4], c[5]));
}
static double comp(ElMagField f, int k)
{
    switch (k % 6) { case 0: return f.E().x; case 1: return f.E().y; case 2: return f.E().z; case 3: return f.B().x; case 4: return f.B().y; default: return f.B().z; }
}

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const json &b) -> json {
        json r;
        double u = b["unit"].get<double>();          // duration of one time unit
        int W = b["W"], N = b["N"], t0 = b["t0"], D = b["D"];
        double base = b.value("base", 0.0);          // additional offset of all times (in units)
        double scale = 1.0 / (2.0 * D * W);
        FieldTrace tr((t0 + base) * u, W * u, N);
        Vector obs = b.contains("obs") ? vec(b["obs"]) : Vector(0, 0, 0);
        std::string mode = b["mode"];
        if (mode == "basis")
        {
            // one particle, linear response to every trajectory point separately
            auto T = b["T"];
            std::vector<double> t; std::vector<ElMagField> f;
            double amp = b.value("amp", 1.0);
            for (size_t i = 0; i < T.size(); i++) { t.push_back((T[i].get<double>() + base) * u); f.push_back(basis(i, amp)); }
            // a first or last step which begins or ends far outside the window, with the same field at both ends
            if (b.contains("far")) { double far = b["far"]; if (far > 0) { t.back() += far * u; f.back() = f[f.size() - 2]; } else { t.front() += far * u; f.front() = f[1]; } }
            Special *p = new Special(t, f);
            std::string via = b["via"];
            Bunch *bu = nullptr; Beam *be = nullptr;
            bool thrown = refused([&] {
                if (via == "particle") p->integrateFieldTrace(obs, &tr);
                else { bu = new Bunch(); bu->Add(p);
                       if (via == "bunch") bu->integrateFieldTrace(obs, &tr);
                       else { be = new Beam(); be->Add(bu); be->integrateFieldTrace(obs, &tr); } }
            });
            json out = json::array();
            if (thrown) out = "exception";
            else for (int i = 0; i < N; i++)
            {
                json row = json::array();
                ElMagField g = tr.get_field((std::size_t)i);
                for (size_t k = 0; k < T.size(); k++) row.push_back(q(comp(g, k), scale * amp));
                // nothing in the unused components
                for (int k = (int)T.size(); k < 6; k++) if (std::fabs(comp(g, k)) > 1e-12 * amp) row.push_back("stray");
                out.push_back(row);
            }
            if (tr.get_N() != (std::size_t)N || tr.get_t0() != (t0 + base) * u || tr.get_dt() != W * u) out = "timing changed";
            if (be) delete be; else if (bu) delete bu; else delete p;
            r["obs"] = out;
            return r;
        }
        // mode "sum": bunches of particles with scalar fields, prefilled trace
        bool real = b["real"];
        double amp = b.value("amp", 1.0);
        double R = b.value("R", 1.0);
        for (int i = 0; i < N; i++)
            tr.set_field(i, ElMagField(Vector(b["pre"][i].get<double>() * scale * amp, 0, 0), Vector(0, b["pre"][i].get<double>() * scale * amp, 0)));
        Beam *be = new Beam();
        for (auto &jb : b["bunches"])
        {
            Bunch *bu = new Bunch();
            for (auto &jp : jb)
            {
                std::vector<double> t, F;
                for (size_t i = 0; i < jp["T"].size(); i++) { t.push_back((jp["T"][i].get<double>() + base) * u); F.push_back(jp["F"][i].get<double>() * amp); }
                if (real) bu->Add(real_particle(t, F, obs, R));
                else
                {
                    std::vector<ElMagField> f;
                    for (double x : F) f.push_back(ElMagField(Vector(x, 0, 0), Vector(0, x, 0)));
                    bu->Add(new Special(t, f));
                }
            }
            be->Add(bu);
        }
        bool thrown = refused([&] { be->integrateFieldTrace(obs, &tr); });
        json out = json::array();
        if (thrown) out = "exception";
        else for (int i = 0; i < N; i++)
        {
            ElMagField g = tr.get_field((std::size_t)i);
            json a = q(g.E().x, scale * amp, real ? 1e-3 : 1e-6);
            // the magnetic field runs along: special particles carry By = F, real ones B = n x E / c
            double by = g.B().y, pre = b["pre"][i].get<double>() * scale * amp;
            double expb = real ? (g.E().x - pre) / SpeedOfLight + pre : g.E().x;
            if (std::fabs(by - expb) > 1e-6 * (std::fabs(expb) + amp)) a = "B mismatch";
            out.push_back(a);
        }
        delete be;
        r["obs"] = out;
        return r;
    });
}
