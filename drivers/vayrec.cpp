// Recorder for C03: tracks particles through arbitrary E+B fields and records for every call the residuals of
// the equations a Vay step has to satisfy, in units of 1e-12 of the quantities involved.
#include "common.h"
#include "beam.h"
#include <random>

struct Wavy : public GeneralField
{
    Vector E0, B0, k; double w;
    bool is_external() override { return true; }
    ElMagField Field(double t, Vector X) override
    {
        double c = cos(dot(k, X) - w * t), s = sin(dot(k, X) * 0.7 + w * t);
        return ElMagField(E0 * c + Vector(E0.z, E0.x, -E0.y) * s, B0 * s + Vector(-B0.y, B0.z, B0.x) * (c + 0.3));
    }
};
static Vector uy(Vector p) { return p * (1.0 / sqrt(1.0 + p.abs2nd())); }
static json r3(Vector v, double unit)
{
    json a = json::array();
    for (double x : {v.x, v.y, v.z}) { double y = x / unit; a.push_back(std::fabs(y) < 1e9 ? (long)std::lround(y) : (y == y ? 1000000000L : 1000000001L)); }
    return a;
}
struct Snap
{
    std::vector<double> d;
    explicit Snap(ChargedParticle *p) : d(p->TrajBufSize()) { p->serializeTraj(d.data()); }
    Vector end() const { return Vector(d[5], d[6], d[7]); }
    int np() const { return (d.size() - 9) / 10; }
    double t(int i) const { return d[9 + 10 * i]; }
    Vector x(int i) const { return Vector(d[10 + 10 * i], d[11 + 10 * i], d[12 + 10 * i]); }
    Vector p(int i) const { return Vector(d[13 + 10 * i], d[14 + 10 * i], d[15 + 10 * i]); }
    Vector a(int i) const { return Vector(d[16 + 10 * i], d[17 + 10 * i], d[18 + 10 * i]); }
};

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const json &b) -> json {
        std::mt19937_64 g(b["seed"].get<unsigned long>());
        auto U = [&](double a, double c) { return std::uniform_real_distribution<double>(a, c)(g); };
        auto V = [&](double s) { return Vector(U(-s, s), U(-s, s), U(-s, s)); };
        json recs = json::array();
        double dt = std::pow(10.0, U(-15, -11)), q = U(-3, 3), m = U(0.5, 20);
        double half = q / m * InvRestMass * dt * 0.5;
        double pm = std::pow(10.0, U(-2, 3)), kick = std::pow(10.0, U(-3, 0.5));
        Wavy F; F.E0 = V(kick * SpeedOfLight / fabs(half)); F.B0 = V(kick * sqrt(1 + pm * pm) / fabs(half));
        F.k = V(1.0 / (SpeedOfLight * dt)); F.w = U(-1, 1) / dt;
        if (b["seed"].get<unsigned long>() % 7 == 0) F.E0 = Vector(0, 0, 0);
        if (b["seed"].get<unsigned long>() % 7 == 1) F.B0 = Vector(0, 0, 0);
        int nb = b["nb"], np = b["np"], steps = b["steps"];
        Beam beam;
        for (int i = 0; i < nb; i++)
        {
            Bunch *bu = new Bunch(np, q, m);
            for (int j = 0; j < np; j++) bu->getParticle(j)->initTrajectory(U(-5, 5) * dt, V(10 * SpeedOfLight * dt), V(pm), V(1));
            beam.Add(bu);
        }
        beam.setTrackingMethod(TRACKING_VAY); beam.setTimeStep(dt);
        std::vector<ChargedParticle *> P;
        for (int i = 0; i < nb; i++) for (int j = 0; j < np; j++) P.push_back(beam.getBunch(i)->getParticle(j));
        std::vector<std::vector<json>> per(P.size());
        for (int s = 0; s <= steps; s++)
        {
            bool setup = s == 0 || s == b["again"].get<int>();
            std::vector<Snap> old; for (auto p : P) old.emplace_back(p);
            if (setup) beam.setupTracking(&F); else beam.doStep(&F);
            for (size_t i = 0; i < P.size(); i++)
            {
                Snap n(P[i]); const Snap &o = old[i];
                int lo = o.np() - 1, ln = n.np() - 1;
                double t = n.t(ln); Vector X = n.x(ln), p = n.p(ln), pe = n.end();
                ElMagField f = F.Field(t, X);
                Vector e = f.E() * (half / SpeedOfLight), tau = f.B() * half;
                double scale = (1e-12) * (1 + p.norm() + pe.norm() + o.end().norm() + e.norm() + tau.norm());
                json r; r["op"] = setup ? "setup" : "step"; r["np0"] = o.np(); r["np"] = n.np();
                r["dT"] = (long)std::lround((t - o.t(lo)) / dt * 1000);
                Vector beta0 = uy(o.end());
                Vector xe = setup ? o.x(lo) : o.x(lo) + beta0 * (SpeedOfLight * dt);
                r["x"] = r3(X - xe, 1e-12 * (X.norm() + SpeedOfLight * dt));
                r["ph"] = r3(p - (setup ? o.p(lo) : o.end() + e + cross(beta0, tau)), scale);
                r["pe"] = r3(pe - (p + e + cross(uy(pe), tau)), scale);
                r["a"] = r3(n.a(ln) * (0.5 * dt) - (e + cross(uy(p), tau)), scale);
                int ch = 0;
                for (int k = 0; k < lo + (setup ? 0 : 1) && k < n.np(); k++)
                    for (int c = 0; c < 10; c++) if (o.d[9 + 10 * k + c] != n.d[9 + 10 * k + c]) ch++;
                // the current state is the stored point
                if (P[i]->getTime() != t || (P[i]->getPosition() - X).norm() != 0 || (P[i]->getMomentum() - p).norm() != 0) ch++;
                r["old"] = json::array({ch * 1000000});
                per[i].push_back(r);
            }
        }
        for (auto &v : per) for (auto &r : v) recs.push_back(r);
        return json{{"recs", recs}};
    });
}
