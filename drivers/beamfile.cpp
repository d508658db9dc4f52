// Driver for C17: watch-point files of beams and import of bunches.
#include "common.h"
#include "h5read.h"
#include <cstring>
#include <map>
#include <unistd.h>
#include "SDDS.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"

static double rat(const json &j) { return j[0].get<double>() / j[1].get<double>(); }
static Vector rvec(const json &j, double u = 1.0) { return Vector(rat(j[0]) * u, rat(j[1]) * u, rat(j[2]) * u); }
static std::string num(double x) { char s[40]; snprintf(s, 40, "%.17g", x); return s; }

struct Sdds { std::map<std::string, std::vector<double>> col; std::map<std::string, double> par; bool ok = false; long rows = 0; };
static Sdds readsdds(const std::string &fn)
{
    Sdds r;
    SDDS_DATASET d;
    std::vector<char> n(fn.begin(), fn.end());
    n.push_back(0);
    if (SDDS_InitializeInput(&d, n.data()) != 1) { SDDS_ClearErrors(); return r; }
    if (SDDS_ReadPage(&d) != 1) { SDDS_ClearErrors(); return r; }
    r.rows = SDDS_RowCount(&d);
    for (const char *p : {"NumberOfParticles", "Charge"})
    {
        char nm[40]; strcpy(nm, p);
        double v;
        if (SDDS_GetParameterIndex(&d, nm) >= 0 && SDDS_GetParameterAsDouble(&d, nm, &v)) r.par[p] = v;
    }
    for (const char *c : {"t", "x", "y", "z", "px", "py", "pz", "p", "xp", "yp", "gamma"})
    {
        char nm[40]; strcpy(nm, c);
        if (SDDS_GetColumnIndex(&d, nm) < 0) continue;
        double *v = r.rows ? SDDS_GetColumnInDoubles(&d, nm) : nullptr;
        r.col[c] = v ? std::vector<double>(v, v + r.rows) : std::vector<double>();
        if (v) free(v);
    }
    SDDS_ClearErrors();
    SDDS_Terminate(&d);
    r.ok = true;
    return r;
}

// write an import file; bad: what is wrong with it
static void makefile_(const std::string &fn, const std::string &mode, const std::string &bad, const json &rows, double q, double L, double T)
{
    if (bad == "nofile") return;
    if (bad == "garbage") { std::ofstream(fn) << "this is not a particle file\n1 2 3\n"; return; }
    if (bad == "empty") { std::ofstream f(fn); return; }
    std::vector<std::string> cols = {"x", "xp", "y", "yp", "p", "t"};
    if (mode == "extra") cols = {"t", "dt", "p", "x", "particleID", "y", "xp", "yp"};
    int n = rows.size(), np = bad == "more" ? n + 1 : bad == "less" ? n - 1 : bad == "negative" ? -1 : n;
    SDDS_DATASET d;
    std::vector<char> nm(fn.begin(), fn.end()); nm.push_back(0);
    SDDS_InitializeOutput(&d, mode == "ascii" ? SDDS_ASCII : SDDS_BINARY, 1, NULL, NULL, nm.data());
    if (mode == "extra") SDDS_DefineSimpleParameter(&d, "Pass", "", SDDS_LONG);
    if (bad != "noParticles") SDDS_DefineSimpleParameter(&d, "Particles", "", SDDS_LONG);
    if (mode == "extra") SDDS_DefineSimpleParameter(&d, "pCentral", "", SDDS_DOUBLE);
    if (bad != "noCharge") SDDS_DefineSimpleParameter(&d, "Charge", "C", SDDS_DOUBLE);
    for (auto &c : cols)
        if (bad != "no" + c) SDDS_DefineColumn(&d, (char *)c.c_str(), NULL, NULL, NULL, NULL, bad == "text" + c ? SDDS_STRING : SDDS_DOUBLE, 0);
    SDDS_WriteLayout(&d);
    SDDS_StartPage(&d, n);
    if (mode == "extra") SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Pass", 4, "pCentral", 77.0, NULL);
    if (bad != "noParticles") SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Particles", np, NULL);
    if (bad != "noCharge") SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Charge", q * ElementaryCharge, NULL);
    for (auto &c : cols)
    {
        if (bad == "no" + c) continue;
        int i = 0;
        for (auto &r : rows)
        {
            double v = c == "dt" ? 1e-3 * i : c == "particleID" ? 100.0 - i : c == "x" || c == "y" ? r[c].get<double>() * L : c == "t" ? r[c].get<double>() * T : rat(r[c]);
            if (bad == "text" + c) SDDS_SetRowValues(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, i++, c.c_str(), "abc", NULL);
            else SDDS_SetRowValues(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, i++, c.c_str(), v, NULL);
        }
    }
    SDDS_WritePage(&d);
    SDDS_Terminate(&d);
    SDDS_ClearErrors();
    if (bad == "truncated")
    {
        std::ifstream in(fn, std::ios::binary);
        std::stringstream s; s << in.rdbuf();
        std::string t = s.str();
        // cut within the table
        size_t cut = mode == "ascii" ? t.rfind('\n', t.size() - 2) - 8 : t.size() - 12;
        std::ofstream(fn, std::ios::binary) << t.substr(0, cut);
    }
}

int main(int argc, char **argv)
{
    return drive(argc, argv, [](const json &b) -> json {
        json bad = json::array(); int n = 0;
        auto err = [&](const std::string &s) { if (bad.size() < 8) bad.push_back(s); };
        double T = b["T"], L = T * SpeedOfLight;
        char tmpl[] = "bf_XXXXXX";
        char *dir = mkdtemp(tmpl);
        if (chdir(dir)) return json{{"obs", "no directory"}};
        Beam *beam = new Beam();
        std::vector<Bunch *> B;
        int k = 0;
        std::string at;
        auto near = [&](double a, double e, double scale, const std::string &what) {
            n++;
            if (!(fabs(a - e) <= 1e-12 * std::max(fabs(e), scale))) err(at + what + ": " + num(a) + " expected " + num(e));
        };
        auto nearv = [&](Vector a, Vector e, double scale, const std::string &what) {
            n++;
            if (!((a - e).norm() <= 1e-12 * std::max(e.norm(), scale))) err(at + what + ": (" + num(a.x) + "," + num(a.y) + "," + num(a.z) + ") expected (" + num(e.x) + "," + num(e.y) + "," + num(e.z) + ")");
        };
        auto file = [&](int len, const char *ext) { std::string s = "f" + std::to_string(k) + "_"; while ((int)s.size() + 5 < len) s += "n"; return s + ext; };
        auto table = [&](const Sdds &s, const json &c, bool charge) {
            if (!s.ok) { err(at + "unreadable file"); return; }
            if (s.rows != c["n"].get<long>()) { err(at + std::to_string(s.rows) + " rows expected " + c["n"].dump()); return; }
            near(s.par.count("NumberOfParticles") ? s.par.at("NumberOfParticles") : -1, c["n"], 0, "NumberOfParticles");
            if (charge) near(s.par.count("Charge") ? s.par.at("Charge") : NAN, rat(c["q"]) * ElementaryCharge, ElementaryCharge, "Charge");
            for (const char *x : {"t", "x", "y", "z", "px", "py", "pz", "p", "xp", "yp", "gamma"}) if (!s.col.count(x)) { err(at + "no column " + x); return; }
            for (long i = 0; i < s.rows; i++)
            {
                auto &r = c["rows"][i];
                auto v = [&](const char *x) { return s.col.at(x)[i]; };
                std::string w = "row " + std::to_string(i) + " ";
                near(v("t"), rat(r["t"]) * T, T, w + "t");
                nearv(Vector(v("x"), v("y"), v("z")), rvec(r["x"], L), L, w + "position");
                nearv(Vector(v("px"), v("py"), v("pz")), rvec(r["p"]), 1, w + "momentum");
                near(v("p"), sqrt(rat(r["p2"])), 1, w + "p");
                near(v("gamma"), sqrt(rat(r["g2"])), 1, w + "gamma");
                if (!r["xp"].empty()) near(v("xp"), rat(r["xp"]), 1, w + "xp");
                if (!r["yp"].empty()) near(v("yp"), rat(r["yp"]), 1, w + "yp");
            }
        };
        for (auto &o : b["h"])
        {
            k++;
            std::string op = o["op"];
            at = std::to_string(k) + " " + op + (o.contains("bad") ? " " + o["bad"].get<std::string>() : "") + ": ";
            if (op == "bunch")
            {
                Bunch *x = new Bunch();
                for (auto &p : o["b"])
                {
                    ChargedParticle *c = new ChargedParticle(rat(p["q"]), 3.0);
                    // the start point is another one than the current state
                    c->initTrajectory(-99.0 * T, Vector(7, 8, 9) * L, Vector(0.1, 0.2, 0.3), Vector(0, 0, 0));
                    c->setCurrentPoint(rat(p["t"]) * T, rvec(p["x"], L), rvec(p["p"]), Vector(0, 0, 0));
                    x->Add(c);
                }
                B.push_back(x);
                beam->Add(x);
            }
            else if (op == "move")
            {
                auto &s = o["s"];
                B[o["b"].get<int>() - 1]->getParticle(o["i"].get<int>() - 1)->setCurrentPoint(rat(s["t"]) * T, rvec(s["x"], L), rvec(s["p"]), Vector(1, 2, 3));
            }
            else if (op == "write")
            {
                auto &c = o["c"];
                if (o["f"] == "hdf5")
                {
                    std::string fn = file(o["name"], ".hdf");
                    int r = beam->WriteWatchPointHDF5(fn);
                    if (r != c["n"].get<int>()) err(at + "returns " + std::to_string(r) + " expected " + c["n"].dump());
                    hid_t f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
                    if (f < 0) { err(at + "no file"); continue; }
                    std::vector<hsize_t> dims;
                    std::vector<double> v = h5data(f, "electrons", dims);
                    H5Fclose(f);
                    if (dims.size() != 2 || dims[0] != c["n"].get<hsize_t>() || dims[1] != 6) { err(at + "shape"); continue; }
                    for (size_t i = 0; i < dims[0]; i++)
                    {
                        auto &r = c["rows"][i];
                        nearv(Vector(v[6 * i], v[6 * i + 1], v[6 * i + 2]), rvec(r["x"], L), L, "row " + std::to_string(i) + " position");
                        nearv(Vector(v[6 * i + 3], v[6 * i + 4], v[6 * i + 5]), rvec(r["p"]), 1, "row " + std::to_string(i) + " momentum");
                    }
                    unlink(fn.c_str());
                }
                else
                {
                    std::string fn = file(o["name"], ".sdds");
                    int r = beam->WriteWatchPointSDDS(fn);
                    if (r != 0) err(at + "returns " + std::to_string(r));
                    table(readsdds(fn), c, true);
                    unlink(fn.c_str());
                }
            }
            else if (op == "writebunch")
            {
                std::string fn = file(o["name"], ".sdds");
                int r = B[o["b"].get<int>() - 1]->WriteWatchPointSDDS(fn.c_str());
                if (r != 0) err(at + "returns " + std::to_string(r));
                table(readsdds(fn), o["c"], false);
                unlink(fn.c_str());
            }
            else if (op == "nowrite")
            {
                std::string fn = "no/such/directory/file";
                int r = o["f"] == "hdf5" ? beam->WriteWatchPointHDF5(fn) : o["f"] == "sdds" ? beam->WriteWatchPointSDDS(fn) : B[0]->WriteWatchPointSDDS(fn.c_str());
                SDDS_ClearErrors();
                if (o["f"] == "hdf5" ? r >= 0 : r == 0) err(at + o["f"].get<std::string>() + " returns " + std::to_string(r));
            }
            else if (op == "import")
            {
                std::string fn = file(o["name"], ".imp");
                makefile_(fn, o["mode"], o.value("bad", ""), o["rows"], o["q"], L, T);
                Bunch *x = nullptr;
                bool thrown = refused([&] { x = new Bunch(fn.c_str(), vec(o["dir"])); });
                SDDS_ClearErrors();
                unlink(fn.c_str());
                auto &e = o["b"];
                if (thrown) { if (!o.contains("bad")) err(at + "refused"); x = new Bunch(); }
                B.push_back(x);
                beam->Add(x);
                if (x->getNOP() != (int)e.size()) { err(at + std::to_string(x->getNOP()) + " particles expected " + std::to_string(e.size())); break; }
                double tot = 0;
                for (size_t i = 0; i < e.size(); i++)
                {
                    ChargedParticle *p = x->getParticle(i);
                    std::string w = "particle " + std::to_string(i) + " ";
                    double buf[PARTICLE_SERIALIZE_BUFSIZE];
                    p->serialize(buf);
                    near(p->getCharge(), rat(e[i]["q"]) * ElementaryCharge, 0, w + "charge");
                    near(buf[1], -rat(e[i]["q"]), 0, w + "mass");
                    near(p->getTime(), rat(e[i]["t"]) * T, T, w + "time");
                    near(p->TrajTime(0), rat(e[i]["t"]) * T, T, w + "start time");
                    nearv(p->getPosition(), rvec(e[i]["x"], L), L * 20, w + "position");
                    nearv(p->getMomentum(), rvec(e[i]["p"]), 1, w + "momentum");
                    nearv(p->TrajPoint(0), rvec(e[i]["x"], L), L * 20, w + "start point");
                    if (p->getNP() != 1) err(at + w + "trajectory length");
                    tot += p->getCharge();
                }
                near(beam->getTotalCharge(), [&] { double s = 0; for (auto *y : B) s += y->getTotalCharge(); return s; }(), ElementaryCharge, "total charge");
            }
        }
        delete beam;
        int rc = chdir("..");
        rc |= system((std::string("/bin/rm -rf ./") + dir).c_str());
        return json{{"obs", bad}, {"n", n}, {"rc", rc}};
    });
}
