// Driver for C06: the one-dimensional radiation field, stepped and probed as the behaviour says.
#include "common.h"
#include "h5read.h"
#include <unistd.h>
#include "pugixml.hpp"
#include "parser.h"
#include "fel1d.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"

static std::string num(double x) { char s[40]; snprintf(s, 40, "%.17g", x); return s; }
static std::string xyz(const char *n, Vector v) { return std::string("<") + n + " x=\"" + num(v.x) + "\" y=\"" + num(v.y) + "\" z=\"" + num(v.z) + "\"/>"; }
static Vector unitv(const json &j) { return vec(j) * (1.0 / j[3].get<double>()); }

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const json &b) -> json {
        json bad = json::array(); int n_val = 0, n_ref = 0, n_file = 0;
        auto err = [&](const std::string &s) { if (bad.size() < 8) bad.push_back(s); };
        auto &cfg = b["cfg"];
        double dt = b["dt"], ds = dt * SpeedOfLight, E0 = b["E0"], A0 = b["A0"], w0 = b["w0"];
        int N = cfg["N"], log = cfg["log"], np = cfg["np"], split = cfg["split"];
        Vector origin = vec(b["origin"], ds), P = unitv(cfg["frame"]["P"]), EX = unitv(cfg["frame"]["E"]), BY = unitv(cfg["frame"]["B"]);
        // values of the symbols
        auto symbol = [&](int n, int d) -> double {
            if (n < 0)
            {
                auto &a = b["amp"][d];
                double c = a[0][0].get<double>() / a[0][1].get<double>(), g = a[1][0].get<double>() / a[1][1].get<double>();
                return E0 * cos(2.0 * Pi * c) * exp(-0.5 * g * g);
            }
            auto &m = b["size"][n - 1];
            double area = 0.5 * Pi * w0 * w0 * m[0].get<double>() / m[1].get<double>();
            double x = d / 4.0;
            return ElementaryCharge * A0 / 5.0 / area * dt * MuNull * SpeedOfLight * SpeedOfLight * exp(-x * x / 8.0) / (2.0 * sqrt(2.0 * Pi));
        };
        auto value = [&](const json &f, double &mag) {
            double v = 0.0;
            mag = 0.0;
            for (auto &t : f) { double s = symbol(t[0], t[1]) * t[2].get<double>(); v += s; mag += fabs(s); }
            return v;
        };
        // magnitudes anywhere on the grid bound the rounding errors (neighbouring cells are subtracted)
        std::string fn = std::string("fel_") + std::to_string(getpid()) + "_" + std::to_string(b["id"].get<long>()) + ".h5";
        std::string xml = "<FEL1D N=\"" + std::to_string(N) + "\">" + xyz("position", origin) + xyz("prop", vec(cfg["frame"]["prop"])) + xyz("pol", vec(cfg["frame"]["pol"]));
        if (log || cfg.contains("step")) xml += "<log file=\"" + fn + "\" step=\"" + std::to_string(log) + "\"/>";
        xml += "<mode zR=\"" + num(cfg["mode"][0].get<double>() * ds) + "\" w0=\"" + num(w0) + "\" zwaist=\"" + num(cfg["mode"][1].get<double>() * ds) + "\"/>";
        if (!cfg["seed"].empty())
            xml += "<seed E0=\"" + num(E0) + "\" lambda=\"" + num(cfg["seed"][0].get<double>() * ds) + "\" tau=\"" + num(cfg["seed"][2].get<double>() * dt) +
                   "\" tstart=\"" + num(cfg["seed"][1].get<double>() * dt) + "\"/>";
        xml += "</FEL1D>";
        pugi::xml_document doc;
        doc.load_string(xml.c_str());
        pugi::xml_document empty; pugi::xml_node dummy = empty.append_child("teufel");
        InputParser parser(dummy);
        FEL_1D *fel = nullptr;
        bool made = !refused([&] { fel = new FEL_1D(dt, doc.child("FEL1D"), &parser); });
        bool bar = !b["ops"].empty() && b["ops"][0]["op"] == "create";
        if (made == bar) err(made ? "grid or log not refused: " + xml : "creation refused");
        if (!made || bar) return json{{"obs", bad}, {"ref", 1}};
        int n = 0;      // steps of the field
        auto place = [&](double q, double tr) { return origin + P * (ds * (n - q / 4.0)) + EX * (tr * ds) - BY * (2.0 * tr * ds); };
        auto build = [&](const json &ps, bool rest) {
            Beam *beam = new Beam();
            std::vector<Bunch *> B;
            for (int i = 0; i < split; i++) B.push_back(new Bunch());
            for (int k = 0; k < np; k++)
            {
                auto &p = ps[k];
                ChargedParticle *c = new ChargedParticle(p["e"].get<double>(), rest ? 1e6 : 1.0);
                int g = p["g"];
                Vector mom = g == 5 ? Vector(0, 0, 0) : P * (g == 4 ? 0.75 : 4.0 / 3.0);
                Vector acc = (EX * p["a"][0].get<double>() + BY * p["a"][1].get<double>() + P * p["a"][2].get<double>()) * A0;
                if (rest) { mom = Vector(0, 0, 0); acc = Vector(0, 0, 0); }
                c->initTrajectory(rest ? 0.0 : (n + p["t"].get<double>() / 8.0) * dt, place(p["q"], p["tr"]), mom, acc);
                B[k % split]->Add(c);
            }
            for (auto *x : B) beam->Add(x);
            beam->setTimeStep(dt);
            return beam;
        };
        // amplitudes which may cancel (phase of the seed, direction of the acceleration) set the scale of the rounding errors
        double scale = cfg["seed"].empty() ? 0.0 : E0;
        for (auto &o : b["ops"])
            if (o["op"] == "step" && o["ok"])
                for (auto &p : o["p"]) scale += fabs(symbol(o["nots"], 0) * p["e"].get<double>() * p["g"].get<double>()) * vec(p["a"]).norm();
        int k = 0;
        for (auto &o : b["ops"])
        {
            k++;
            std::string op = o["op"], at = "operation " + std::to_string(k) + " (" + op + "): ";
            bool ok = o["ok"];
            if (op == "init")
            {
                Beam beam;
                beam.setTimeStep(ok ? dt * (1.0 + 1e-12) : dt * (1.0 + o["dt"].get<double>() * 1e-6));
                bool r = refused([&] { fel->init(&beam); });
                if (r == ok) err(at + (ok ? "refused" : "not refused"));
                if (ok) n++; else n_ref++;
            }
            else if (op == "step")
            {
                Beam *beam = build(o["p"], false);
                beam->setNOTS(o["nots"]);
                bool r = refused([&] { fel->step(beam); });
                if (r == ok) err(at + (ok ? "refused" : "not refused"));
                if (ok) n++; else n_ref++;
                delete beam;
            }
            else if (op == "probe" || op == "all")
            {
                int cells = op == "all" ? N : 1;
                for (int i = 0; i < cells; i++)
                {
                    double q = op == "all" ? 4.0 * i : o["q"].get<double>(), t = op == "all" ? 0.0 : o["t"].get<double>(), tr = op == "all" ? 0.0 : o["tr"].get<double>();
                    ElMagField F;
                    bool r = refused([&] { F = fel->Field((n + t / 8.0) * dt, place(q, tr)); });
                    if (r == ok) { err(at + (ok ? "refused" : "not refused")); break; }
                    if (!ok) { n_ref++; break; }
                    double mag, v = value(op == "all" ? o["f"][i] : o["f"], mag), tol = 1e-9 * mag + 1e-12 * scale + 1e-300;
                    n_val++;
                    Vector E = F.E(), B = F.B() * SpeedOfLight;
                    if (!((E - EX * v).norm() <= tol + 1e-12 * fabs(v)) || !((B - BY * v).norm() <= tol + 1e-12 * fabs(v)))
                    {
                        char s[300];
                        snprintf(s, 300, "%scell %d step %d: E=(%.9g %.9g %.9g) cB=(%.9g %.9g %.9g), expected amplitude %.9g", at.c_str(), (int)lround(q / 4), n, E.x, E.y, E.z, B.x, B.y, B.z, v);
                        err(s);
                    }
                }
            }
            else if (op == "write")
            {
                if (refused([&] { fel->write_output(); })) { err(at + "refused"); continue; }
                hid_t f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
                if (f < 0) { err(at + "no file"); continue; }
                auto &rec = o["rec"];
                for (int w = 0; w < 2; w++)
                {
                    const char *name = w ? "CurrentDensity" : "InteractionField", *key = w ? "j" : "f";
                    std::vector<hsize_t> dims;
                    std::vector<double> v = h5data(f, name, dims);
                    if (dims.size() != 2 || dims[0] != rec.size() || (int)dims[1] != N) { err(at + name + " has " + std::to_string(dims.size() ? dims[0] : 0) + " rows, expected " + std::to_string(rec.size())); continue; }
                    for (size_t i = 0; i < rec.size(); i++) for (int c = 0; c < N; c++)
                    {
                        double mag, x = value(rec[i][key][c], mag), u = w ? dt * dt : 1.0;
                        n_val++;
                        if (!(fabs(v[i * N + c] * u - x) <= 1e-9 * mag + 1e-12 * scale + 1e-300))
                        { err(at + name + " row " + std::to_string(i) + " cell " + std::to_string(c) + ": " + num(v[i * N + c] * u) + " expected " + num(x)); c = N; }
                    }
                }
                auto attr = [&](const char *a, double x) {
                    double v = NAN;
                    if (!h5attr(f, "InteractionField", a, v) || !(fabs(v - x) <= 1e-12 * fabs(x) + 1e-30)) err(at + "attribute " + a + " = " + num(v) + " expected " + num(x));
                };
                attr("N_field", N); attr("N_steps", rec.size()); attr("N_output", log); attr("dt", dt); attr("w0", w0);
                attr("z_Rayl", cfg["mode"][0].get<double>() * ds); attr("z_waist", cfg["mode"][1].get<double>() * ds);
                attr("origin.x", origin.x); attr("origin.y", origin.y); attr("origin.z", origin.z);
                Vector d = P * (-ds);
                double eps = 1e-15 * ds; (void)eps;
                attr("prop.x", d.x); attr("prop.y", d.y); attr("prop.z", d.z);
                H5Fclose(f);
                unlink(fn.c_str());
                n_file++;
            }
            else if (op == "run")
            {
                // the coupling of a program run: tracking and field alternate
                Beam *beam = build(o["p"], true);
                beam->setTrackingMethod(TRACKING_VAY);
                Lattice *lat = new Lattice();
                lat->addElement(fel);
                beam->setupTracking(lat);
                beam->setNOTS(0);
                fel->init(beam);
                int done = 0;
                bool r = refused([&] { for (int i = 0; i < o["steps"].get<int>(); i++) { beam->doStep(lat); fel->step(beam); done++; } });
                if (done != o["done"].get<int>()) err(at + std::to_string(done) + " steps performed, expected " + o["done"].dump());
                if (r != (o["done"] < o["steps"])) err(at + "refusal");
                if (r) n_ref++;
                fel = nullptr;      // owned by the lattice
            }
        }
        unlink(fn.c_str());
        return json{{"obs", bad}, {"val", n_val}, {"ref", n_ref}, {"file", n_file}};
    });
}
