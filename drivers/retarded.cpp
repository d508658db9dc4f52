// Driver for C12: fields of particles with given trajectories at given observation events.
#include "common.h"
#include "fieldtrace.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"

static double U, S;      // seconds per time unit; S = length of one unit
static Vector Off; static double T0;
static double rat(const json &j) { return j[0].get<double>() / j[1].get<double>(); }
static Vector rvec(const json &j) { return Vector(rat(j[0]), rat(j[1]), rat(j[2])); }

struct Pt { double t; Vector x, p, a; };     // in spec units (t, x relative to the offsets), a per time unit
struct Part { double q; std::vector<Pt> pt; };

struct Src { bool on; double R; Vector n; Vector beta, bp; double g2; };
// Lienard-Wiechert field in SI units of a source state (a: per time unit)
static ElMagField lw(double q, Vector n, double R, Vector P, Vector A)
{
    double g2 = 1.0 + P.abs2nd(), g = sqrt(g2);
    Vector b = P * (1.0 / g), bp = A * (1.0 / (g * U));
    double D = 1.0 - dot(b, n);
    Vector V = (n - b) * (1.0 / g2);
    // n x ((n-b) x b') written with scalar products
    Vector W = (n - b) * dot(n, bp) - bp * D;
    double k = q * ElementaryCharge / (4.0 * Pi * EpsNull);
    Vector E = (V * (1.0 / (R * R)) + W * (1.0 / (R * SpeedOfLight))) * (k / (D * D * D));
    return ElMagField(E, cross(n, E) * (1.0 / SpeedOfLight));
}
// solve the light cone for particle p in class c (0 = before, i = segment i); returns the field
static ElMagField solve(Part &p, int c, double ot, Vector ox, double &dist)
{
    double t1; Vector x1, v; Vector P0, P1, A0, A1; double len = 260;
    if (c == 0)
    {
        Pt &a = p.pt[0];
        double g = sqrt(1.0 + a.p.abs2nd());
        t1 = a.t; x1 = a.x; v = a.p * (1.0 / g); P0 = P1 = a.p; A0 = A1 = Vector(0, 0, 0);
    }
    else
    {
        Pt &a = p.pt[c - 1], &b = p.pt[c];
        t1 = a.t; x1 = a.x; len = b.t - a.t; v = (b.x - a.x) * (1.0 / len); P0 = a.p; P1 = b.p; A0 = a.a; A1 = b.a;
    }
    // (ot - t1 - s)^2 = |d - v s|^2, earlier root
    double T = ot - t1; Vector d = ox - x1;
    double aa = 1.0 - v.abs2nd(), hb = T - dot(v, d), cc = T * T - d.abs2nd();
    double disc = sqrt(hb * hb - aa * cc);
    double s = hb >= 0 ? cc / (hb + disc) : (hb - disc) / aa;
    Vector r = d - v * s;
    dist = r.norm();
    double f = s / len;
    return lw(p.q, r * (1.0 / dist), dist * S, P0 * (1.0 - f) + P1 * f, A0 * (1.0 - f) + A1 * f);
}

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const json &b) -> json {
        U = b["U"]; S = U * SpeedOfLight;
        T0 = b["T0"].get<double>() * U; Off = vec(b["X0"], S);
        double tol = b["tol"];
        json bad = json::array(); int n = 0, exact = 0, skipped = 0;
        auto err = [&](const std::string &s, int k) { if (bad.size() < 6) bad.push_back("observation " + std::to_string(k) + ": " + s); };
        std::vector<Part> parts;
        Beam beam; Bunch *bunch = new Bunch(); std::vector<ChargedParticle *> cp;
        for (auto &j : b["parts"])
        {
            Part p; p.q = j["q"];
            int N = j["pt"].size();
            std::vector<double> buf(9 + 10 * N, 0.0);
            buf[0] = p.q; buf[1] = b["mass"].get<double>(); buf[8] = 1;
            for (int i = 0; i < N; i++)
            {
                auto &e = j["pt"][i];
                Pt x{e["t"].get<double>(), vec(e["x"]), rvec(e["p"]), rvec(e["a"])};
                p.pt.push_back(x);
            }
            // random restored trajectory: current state is the last point
            ChargedParticle *c = new ChargedParticle(p.q, b["mass"].get<double>());
            int len = c->TrajBufSize();
            (void)len;
            for (int i = 0; i < N; i++)
            {
                Pt &x = p.pt[i];
                double *w = &buf[9 + 10 * i];
                w[0] = T0 + x.t * U; Vector r = Off + x.x * S;
                w[1] = r.x; w[2] = r.y; w[3] = r.z; w[4] = x.p.x; w[5] = x.p.y; w[6] = x.p.z;
                w[7] = x.a.x / U; w[8] = x.a.y / U; w[9] = x.a.z / U;
            }
            delete c;
            c = new ChargedParticle(buf.data(), N, N);
            parts.push_back(p); cp.push_back(c); bunch->Add(c);
            if (bunch->getNOP() >= b["split"].get<int>()) { beam.Add(bunch); bunch = new Bunch(); }
        }
        beam.Add(bunch);
        auto close = [&](ElMagField got, ElMagField want, double scaleE, int k, const std::string &what) {
            double m = std::max(scaleE, want.E().norm()), dE = (got.E() - want.E()).norm(), dB = (got.B() - want.B()).norm() * SpeedOfLight;
            if (!(dE <= tol * m) || !(dB <= tol * m)) { char s[200]; snprintf(s, 200, "%s: E error %.3g, B error %.3g (relative to %.6g)", what.c_str(), dE / m, dB / m, m); err(s, k); }
        };
        auto spec = [&](const json &o, double q) {
            double R = o["R"].get<double>() * S, D = rat(o["lw"]["D"]), k = q * ElementaryCharge / (4.0 * Pi * EpsNull);
            Vector nn = rvec(o["lw"]["n"]);
            Vector E = (rvec(o["lw"]["V"]) * (1.0 / (R * R)) + rvec(o["lw"]["W"]) * (1.0 / (R * S))) * (k / (D * D * D));
            return ElMagField(E, cross(nn, E) * (1.0 / SpeedOfLight));
        };
        int k = 0;
        for (auto &o : b["obs"])
        {
            std::string kind = o["kind"];
            int me = o["k"].get<int>() - 1;
            double t = T0 + o["t"].get<double>() * U;
            Vector x = Off + vec(o["x"], S);
            double q = parts[me].q;
            if (kind == "index")
            {
                int i = o["s"].get<int>() - 1;
                // The indexed form is only reachable through trace recording: two points with the state of point i
                // emit a constant field for 260 time units, recorded by the middle one of three samples of 520.
                Pt &y = parts[me].pt[i];
                std::vector<double> w(29, 0.0);
                w[0] = q; w[1] = b["mass"].get<double>(); w[8] = 1;
                for (int m = 0; m < 2; m++)
                {
                    double *v = &w[9 + 10 * m]; Vector r = Off + y.x * S;
                    v[0] = T0 + (y.t + 260 * m) * U; v[1] = r.x; v[2] = r.y; v[3] = r.z; v[4] = y.p.x; v[5] = y.p.y; v[6] = y.p.z;
                    v[7] = y.a.x / U; v[8] = y.a.y / U; v[9] = y.a.z / U;
                }
                ChargedParticle two(w.data(), 2, 2);
                FieldTrace tr(t + (130 - 520) * U, 520 * U, 3);
                if (refused([&] { two.integrateFieldTrace(x, &tr); })) err("recording refused", k);
                close(tr.get_field((std::size_t)1) * 2.0, spec(o, q), 0, k, "recorded field"); exact++;
                close(tr.get_field((std::size_t)0), ElMagField(), spec(o, q).E().norm(), k, "too early");
                close(tr.get_field((std::size_t)2), ElMagField(), spec(o, q).E().norm(), k, "too late");
                k++; continue;
            }
            bool allok = true; ElMagField sum; double mag = 0;
            ElMagField psum;
            for (size_t j = 0; j < cp.size(); j++)
            {
                ElMagField f;
                if (refused([&] { f = cp[j]->RetardedField(t, x); })) { err("refused", k); continue; }
                psum += f;
                mag += f.E().norm();
                int c = o["views"][j]["c"];
                bool edge = o["views"][j]["edge"];
                std::string w = "particle " + std::to_string(j) + " class " + std::to_string(c);
                if (edge && (c == 1 || c == (int)parts[j].pt.size())) { skipped++; continue; }   // jump or end of the signal
                if (c == (int)parts[j].pt.size())
                { if (f.E().norm() != 0.0 || f.B().norm() != 0.0) err(w + ": field after the end", k); n++; continue; }
                double dist; ElMagField want = solve(parts[j], c, o["t"].get<double>(), vec(o["x"]), dist);
                if (c > 0 && dist < b["near"].get<double>()) { skipped++; continue; }
                close(f, want, 0, k, w); n++;
                if ((int)j == me && o.contains("lw")) { close(f, spec(o, q), 0, k, w + " exact"); exact++; }
            }
            // superposition
            close(beam.RetardedField(t, x), psum, mag, k, "beam");
            ElMagField bs;
            for (int i = 0; i < beam.getNOB(); i++) bs += beam.getBunch(i)->RetardedField(t, x);
            close(bs, psum, mag, k, "bunches");
            k++;
        }
        return json{{"obs", bad}, {"n", n}, {"exact", exact}, {"skipped", skipped}};
    });
}
