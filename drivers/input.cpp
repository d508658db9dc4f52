// Driver for C10: complete input documents.  The document is parsed by the real InputParser; everything it created is
// compared with objects built from the expected values.
#include "common.h"
#include "h5read.h"
#include <Eigen/Dense>
#include <cstring>
#include <iomanip>
#include <list>
#include <map>
#include <set>
#include <unistd.h>
#include "pugixml.hpp"
#include "parser.h"
#include "beam.h"
#include "bunch.h"
#include "particle.h"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"
#include "fel1d.h"
#include "screen.h"
#include "snapshot.h"
#include "point_observer.h"
#include "mesh.h"
#include "source_screen.h"
#include "logger.h"

static double unit(const std::string &u)
{
    if (u == "_c") return SpeedOfLight;
    if (u == "_e") return ElementaryCharge;
    if (u == "_h") return PlanckH;
    if (u == "_mec2") return mecsquared;
    if (u == "_eps0") return EpsNull;
    if (u == "_pi") return Pi;
    return 1.0;
}
static double val(const json &v) { return v["n"].get<double>() * unit(v["u"]); }

struct Item
{
    std::string kind;
    std::map<std::string, double> v;
    std::map<std::string, std::string> x;
    Item(const json &j) : kind(j["kind"])
    {
        for (auto &a : j["attrs"]) { v[a["p"]] = val(a["v"]); x[a["p"]] = a["x"]; }
    }
    bool has(const std::string &p) const { return v.count(p) > 0; }
    double operator()(const std::string &p, double d = 0.0) const { auto i = v.find(p); return i == v.end() ? d : i->second; }
    int i(const std::string &p, int d = 0) const { auto k = v.find(p); return k == v.end() ? d : (int)std::lround(k->second); }
    Vector vec(const std::string &p) const { return Vector((*this)(p + "/x"), (*this)(p + "/y"), (*this)(p + "/z")); }
    std::string s(const std::string &p) const { auto k = x.find(p); return k == x.end() ? "" : k->second; }
};

static bool eq(double a, double b, double rel = 1e-9)
{
    if (std::isnan(a) && std::isnan(b)) return true;
    return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b));
}
static bool eqv(Vector a, Vector b, double rel = 1e-9) { return eq(a.x, b.x, rel) && eq(a.y, b.y, rel) && eq(a.z, b.z, rel); }
static std::string str(Vector v) { char s[120]; snprintf(s, 120, "(%.10g %.10g %.10g)", v.x, v.y, v.z); return s; }

// sources which record where the field is asked for
static Vector seen;
class RecField : public GeneralField
{
public:
    bool is_external() override { return true; }
    ElMagField Field(double t, Vector X) override { seen = X; return ElMagField(Vector(0, 0, 0), Vector(0, 0, 0)); }
};
class RecParticle : public ChargedParticle
{
public:
    RecParticle() { NP = 2; }
    virtual double RetardedTime(int i, Vector X) { seen = X; return i == 0 ? -1e30 : 1e30; }
    virtual ElMagField RetardedField(int i, Vector X) { seen = X; return ElMagField(Vector(0, 0, 0), Vector(0, 0, 0)); }
};

// ---- files which documents refer to
static void make_screen(const std::string &fn)
{
    ScreenObserver<Lattice> sc(fn, Vector(0, 0, 0), Vector(0.5, 0, 0), Vector(0, 0.25, 0), 2, 2, 1.0e-9, 1.0e-10, 0, 0, 3);
    for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) for (int t = 0; t < 3; t++)
        sc.setField(i, k, t, ElMagField(Vector(i + 1, k + 2, t), Vector(k, t - 1, i) * 1e-8));
    sc.generateOutput();
}
static void make_mesh(const std::string &fn)
{
    hid_t f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    h5put(f, "MeshCornerPoints", {4, 3}, std::vector<double>{0, 0, 1, 3, 0, 1, 0, 3, 1, 3, 3, 1}); h5putattr(f, "MeshCornerPoints", "Ncp", 4);
    h5put(f, "ObservationPosition", {2, 3}, std::vector<double>{1, 1, 1, 2, 2, 1}); h5putattr(f, "ObservationPosition", "Np", 2);
    h5put(f, "MeshTriangles", {2, 3}, std::vector<int>{0, 1, 2, 1, 3, 2}); h5putattr(f, "MeshTriangles", "Ntri", 2);
    h5put(f, "ObservationTime", {2}, std::vector<double>{0.5, 0.75}); h5putattr(f, "ObservationTime", "Nt", 3); h5putattr(f, "ObservationTime", "dt", 0.25);
    H5Fclose(f);
}
static void make_sdds(const std::string &fn)
{
    std::ofstream o(fn);
    o << "SDDS1\n&parameter name=Particles, type=long, &end\n&parameter name=Charge, type=double, units=C, &end\n";
    for (const char *c : {"x", "xp", "y", "yp", "p", "t"}) o << "&column name=" << c << ", type=double, &end\n";
    o << "&data mode=ascii, &end\n3\n7.5e-10\n3\n";
    o << "1 0.125 2 -0.25 40 1e-9\n-3 0.0625 0.5 0.5 41 3e-9\n0.25 -0.5 -4 0.125 43 2e-9\n";
}

static GeneralField *reference(const Item &e)
{
    const std::string &k = e.kind;
    if (k == "planar") { auto *u = new PlanarUndulator(e.vec("position")); u->Setup(e("field/B"), e("field/period"), e.i("field/N")); return u; }
    if (k == "tgu") { auto *u = new TransverseGradientUndulator(e.vec("position")); u->Setup(e("field/B"), e("field/kx"), e("field/modulation"), e("field/period"), e.i("field/N")); return u; }
    if (k == "wave") { auto *w = new GaussianWave(0.0, e.vec("position")); w->Setup(e("field/lambda"), std::complex<double>(e("field/ReA"), e("field/ImA")), e("field/rayleigh")); return w; }
    if (k == "packet")
    {
        auto *w = new GaussianWavePacket(e("position/t"), e.vec("position"));
        w->Setup(e("field/lambda"), std::complex<double>(e("field/ReA"), e("field/ImA")), e("field/rayleigh"), e("field/tau"));
        return w;
    }
    if (k == "hard") return new HardEdgeDipole(e.vec("B"), e.vec("p1"), e.vec("n1"), e.vec("p2"), e.vec("n2"));
    if (k == "soft") return new SoftEdgeDipole(e.vec("B"), e.vec("p1"), e.vec("n1"), e("transition/l1"), e.vec("p2"), e.vec("n2"), e("transition/l2"));
    if (k == "background") return new HomogeneousField(e.vec("E"), e.vec("B"));
    if (k == "source") return new SourceScreen(e.s("file").c_str(), e.vec("position"), e("position/t"));
    return nullptr;
}
template <class T> bool is(GeneralField *f) { return dynamic_cast<T *>(f) != nullptr; }
static bool right_type(const std::string &k, GeneralField *f)
{
    if (k == "planar") return is<PlanarUndulator>(f);
    if (k == "tgu") return is<TransverseGradientUndulator>(f);
    if (k == "wave") return is<GaussianWave>(f);
    if (k == "packet") return is<GaussianWavePacket>(f);
    if (k == "hard") return is<HardEdgeDipole>(f);
    if (k == "soft") return is<SoftEdgeDipole>(f);
    if (k == "background") return is<HomogeneousField>(f);
    if (k == "source") return is<SourceScreen>(f);
    return false;
}
// places where the element shows all its properties
static void samples(const Item &e, std::vector<std::pair<double, Vector>> &out)
{
    const std::string &k = e.kind;
    if (k == "planar" || k == "tgu")
    {
        double l = e("field/period"); int n = e.i("field/N");
        for (double z : {-0.5 * n - 0.3, -0.37 * n, -0.11, 0.23, 0.31 * n + 0.07, 0.5 * n + 0.2, 0.5 * n + 0.7})
            for (double y : {0.0, 0.05}) out.push_back({0.0, e.vec("position") + Vector(k == "tgu" ? 0.3 : 0.0, y * l, z * l)});
    }
    else if (k == "wave" || k == "packet")
    {
        double l = e("field/lambda"), zr = e("field/rayleigh"), w0 = sqrt(l * zr / Pi);
        for (double z : {-0.7, 0.2, 1.3}) for (double r : {0.0, 0.6}) for (double ph : {0.0, 0.2, 0.45})
        {
            double t = (z * zr + ph * l) / SpeedOfLight;
            if (k == "packet") { t += e("position/t"); if (ph > 0.3) t += e("field/tau"); }
            out.push_back({t, e.vec("position") + Vector(r * w0, 0.3 * w0, z * zr)});
        }
    }
    else if (k == "hard" || k == "soft")
    {
        Vector p1 = e.vec("p1"), p2 = e.vec("p2"), n1 = e.vec("n1"), n2 = e.vec("n2");
        double sc = std::max(1.0, std::max(p1.norm(), p2.norm()));
        for (double a : {-1.3, -0.01, 0.01, 0.9}) for (double b : {-1.1, -0.02, 0.03, 1.7})
        {
            out.push_back({0.0, p1 + n1 * a + n2 * b}); out.push_back({0.0, p2 + n1 * a + n2 * b});
            out.push_back({0.0, (p1 + p2) * 0.5 + Vector(a, b, a * b) * sc});
        }
    }
    else if (k == "background") for (double a : {0.0, 3.0}) out.push_back({a, Vector(a, -a, 1)});
    else if (k == "source")
        for (double z : {1.0, -2.0}) for (double t : {0.0, 0.15e-9, 0.3e-9, 0.5e-9})
            out.push_back({e("position/t") + 0e-9 + t + std::fabs(z) / SpeedOfLight + (0.0), e.vec("position") + Vector(0.3, 0.1, z)});
}

static std::map<std::string, std::vector<double>> sdds_columns(const std::string &fn, std::map<std::string, double> &par)
{
    std::ifstream f(fn); std::string line;
    std::vector<std::string> cols, pars; std::map<std::string, std::vector<double>> out;
    auto name = [](const std::string &l) { size_t p = l.find("name="); if (p == std::string::npos) return std::string(); size_t q = l.find_first_of(", ", p); return l.substr(p + 5, q - p - 5); };
    while (std::getline(f, line))
    {
        if (line.compare(0, 7, "&column") == 0) cols.push_back(name(line));
        else if (line.compare(0, 10, "&parameter") == 0) pars.push_back(name(line));
        else if (line.compare(0, 5, "&data") == 0) break;
    }
    auto next = [&](std::string &l) { while (std::getline(f, l)) if (!l.empty() && l[0] != '!') return true; return false; };
    for (auto &p : pars) if (next(line)) par[p] = atof(line.c_str());
    std::vector<double> all; double v; std::string rest;
    long rows = next(line) ? atol(line.c_str()) : 0;
    while (f >> v) all.push_back(v);
    for (size_t c = 0; c < cols.size(); c++) for (long r = 0; r < rows && r * cols.size() + c < all.size(); r++) out[cols[c]].push_back(all[r * cols.size() + c]);
    return out;
}

int main(int argc, char **argv)
{
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    auto *coutbuf = std::cout.rdbuf();
    // a directory of its own for every process: source screens write files with fixed names
    char tmpl[] = "inputXXXXXX", cwd[4096];
    std::string in = argv[1], out = argv[2];
    if (!getcwd(cwd, sizeof cwd) || !mkdtemp(tmpl) || chdir(tmpl)) return 4;
    int rc = drive(argc, argv, [&](const json &b) -> json {
        json bad = json::array(); long n = 0;
        auto err = [&](const std::string &s) { if (bad.size() < 8) bad.push_back(s); };
        std::vector<Item> items[5];
        Item *tracking = nullptr;
        std::vector<std::string> files;
        for (auto &d : b["doc"])
        {
            if (d["kind"] == "calc" || d["kind"] == "section") continue;
            Item it(d);
            int sec = d["sec"];
            if (it.kind == "tracking") tracking = new Item(d);
            else items[sec].push_back(it);
            for (auto &a : d["attrs"])
            {
                std::string x = a["x"];
                if (d["df"] == "nofile") continue;
                if (x.compare(0, 10, "screenfile") == 0) make_screen(x); else if (x.compare(0, 8, "meshfile") == 0) make_mesh(x); else if (x.compare(0, 8, "sddsfile") == 0) make_sdds(x);
                if (x.find("file") != std::string::npos) files.push_back(x);
            }
        }
        std::string rej = b["rej"];
        pugi::xml_document doc;
        if (!doc.load_string(b["xml"].get<std::string>().c_str())) return json{{"obs", {"XML does not load"}}, {"n", 0}};
        std::ostringstream cap;
        std::cout.rdbuf(cap.rdbuf());
        std::cout << std::setprecision(12);
        teufel::rank = 0;
        Lattice lattice; Beam beam; std::vector<Logger *> logs; ProbeInfo probe; probe.requested = false;
        std::vector<watch_t> watches; std::list<InteractionField *> interactions; std::vector<BaseObserver *> observers;
        std::string stage = "root", why; bool exc = false; int nlat = -1, nbeam = -1;
        try
        {
            InputParser parser(doc.child("teufel"));
            stage = "lattice"; nlat = parser.parseLattice(&lattice);
            stage = "beam"; nbeam = parser.parseBeam(&beam, &logs, &probe);
            stage = "tracking"; parser.parseTracking(&beam, &watches, &interactions);
            stage = "observer"; parser.parseObservers(&observers);
            stage = "";
        }
        catch (std::exception &e) { exc = true; why = e.what(); }
        catch (...) { exc = true; }
        std::cout.flush();
        teufel::rank = 1;      // the references stay quiet
        std::string console = cap.str();
        std::ostringstream trash;
        std::cout.rdbuf(trash.rdbuf());
        if (exc && rej == "") err("legal input rejected in " + stage + " " + why);
        if (!exc && rej != "") err("illegal input accepted (" + rej + ")");
        if (exc && rej != "" && stage != rej) err("rejected in " + stage + " instead of " + rej + " " + why);
        auto done = [&](int sec) { static const char *o[] = {"root", "lattice", "beam", "tracking", "observer"}; for (int i = 1; i <= 4; i++) { if (stage == o[i]) return sec < i; } return stage == ""; };

        // ---------------------------------------------------------------- console
        std::vector<std::pair<std::string, double>> printed;
        {
            std::istringstream is(console); std::string line;
            while (std::getline(is, line))
            {
                size_t p = line.find("calc : p");
                if (p == std::string::npos) continue;
                size_t e = line.find(" = ", p);
                if (e == std::string::npos) { continue; }
                const char *s0 = line.c_str() + e + 3; char *s1;
                double v = strtod(s0, &s1);
                if (s1 == s0) continue;         // could not be evaluated
                printed.push_back({line.substr(p + 7, e - p - 7), v});
            }
            auto &lg = b["log"];
            for (size_t i = 0; i < std::max(printed.size(), lg.size()); i++)
            {
                if (i >= lg.size()) { err("printed more than once: " + printed[i].first); break; }
                if (i >= printed.size()) { if (i < b["sure"].get<size_t>()) err("not printed: " + lg[i]["tag"].get<std::string>()); break; }
                if (printed[i].first != lg[i]["tag"]) { err("printed " + printed[i].first + " instead of " + lg[i]["tag"].get<std::string>()); break; }
                n++;
                if (!eq(printed[i].second, val(lg[i]["v"]), 1e-3)) { err("value printed for " + printed[i].first + ": " + std::to_string(printed[i].second) + " expected " + std::to_string(val(lg[i]["v"]))); break; }
            }
            for (auto &t : b["toks"]) if (console.find(t.get<std::string>()) == std::string::npos) err("no report about an expression which can't be evaluated: " + t.get<std::string>());
        }
        // ---------------------------------------------------------------- lattice
        if (done(1))
        {
            if (nlat != (int)items[1].size() || lattice.count() != nlat) err("number of lattice elements");
            else for (int i = 0; i < nlat; i++)
            {
                const Item &e = items[1][i];
                GeneralField *f = lattice.at(i);
                if (!right_type(e.kind, f)) { err("element " + std::to_string(i) + " is no " + e.kind); continue; }
                GeneralField *r = reference(e);
                std::vector<std::pair<double, Vector>> pts; samples(e, pts);
                double es = 0, bs = 0; bool same = true;
                std::vector<ElMagField> w, g;
                for (auto &p : pts) { w.push_back(r->Field(p.first, p.second)); g.push_back(f->Field(p.first, p.second)); if (std::isfinite(w.back().E().norm())) es = std::max(es, w.back().E().norm()); if (std::isfinite(w.back().B().norm())) bs = std::max(bs, w.back().B().norm()); }
                for (size_t m = 0; m < pts.size(); m++)
                {
                    n++;
                    double de = (g[m].E() - w[m].E()).norm(), db = (g[m].B() - w[m].B()).norm();
                    bool ne = !std::isfinite(w[m].E().norm()), nb = !std::isfinite(w[m].B().norm());
                    if (ne ? std::isfinite(g[m].E().norm()) : !(de <= 1e-4 * es)) same = false;
                    if (nb ? std::isfinite(g[m].B().norm()) : !(db <= 1e-4 * bs)) same = false;
                }
                if (!same) err("element " + std::to_string(i) + " (" + e.kind + ") has other properties than given");
                if (e.kind == "planar")
                {
                    auto *u = dynamic_cast<PlanarUndulator *>(f);
                    if (!eq(u->GetBPeak(), e("field/B")) || !eq(u->GetLambdaU(), e("field/period")) || u->GetNPeriods() != e.i("field/N")) err("undulator parameters");
                }
                delete r;
            }
        }
        // ---------------------------------------------------------------- beam
        if (done(2))
        {
            std::vector<Item> bunches; std::vector<const Item *> loggers; std::vector<bool> traj; const Item *pr = nullptr;
            for (auto &e : items[2]) { if (e.kind == "probe") pr = &e; else bunches.push_back(e); }
            if (nbeam != (int)bunches.size() || beam.getNOB() != nbeam) err("number of bunches");
            else
            {
                size_t il = 0;
                for (int i = 0; i < nbeam; i++)
                {
                    const Item &e = bunches[i];
                    std::string id = e.kind + " " + std::to_string(i);
                    Bunch *bu = beam.getBunch(i);
                    std::vector<ChargedParticle *> ref;
                    bool stat = e.has("position/xrms") || e.has("position/yrms") || e.has("position/zrms") || e.has("position/zft") || e.has("momentum/xrms") || e.has("momentum/yrms") || e.has("momentum/delta");
                    Vector pos = e.vec("position"), mom = e.vec("momentum"); double gamma = e("gamma"), t0 = e("time/t0"), bg = sqrt(gamma * gamma - 1.0);
                    if (e.kind == "SDDS")
                    {
                        Vector dir(0, 0, 1);
                        if (e.has("dir/x")) { dir = e.vec("dir"); dir.normalize(); }
                        Bunch *rb = new Bunch(e.s("file").c_str(), dir);
                        for (auto k : {"correlations/linear#1/", "correlations/linear#2/"}) if (e.has(k + std::string("dep"))) rb->addCorrelation(e.i(k + std::string("indep")), e.i(k + std::string("dep")), e(k + std::string("factor")));
                        for (int m = 0; m < rb->getNOP(); m++) ref.push_back(rb->getParticle(m));
                        if (rb->getNOP() != 3) err("reference SDDS bunch");
                        stat = false;
                    }
                    else
                    {
                        int np = e.kind == "bunch" ? e.i("n") : 1;
                        mom = mom * (bg / mom.norm());
                        double q = e("charge") / ElementaryCharge;
                        for (int m = 0; m < np; m++) { auto *p = new ChargedParticle(q / np, q / e("cmr") / np); p->initTrajectory(t0, pos, mom, Vector(0, 0, 0)); ref.push_back(p); }
                    }
                    if (bu->getNOP() != (int)ref.size()) { err(id + ": number of particles"); continue; }
                    int np = ref.size();
                    for (int m = 0; m < np; m++)
                    {
                        ChargedParticle *p = bu->getParticle(m); n++;
                        if (!eq(p->getCharge(), ref[m]->getCharge())) { err(id + ": charge"); break; }
                        if (!eq(p->getTime(), ref[m]->getTime())) { err(id + ": time"); break; }
                        if (stat) continue;
                        Vector dx = p->getPosition() - ref[m]->getPosition(), dp = p->getMomentum() - ref[m]->getMomentum();
                        if (!(dx.norm() <= 1e-9 * ref[m]->getPosition().norm())) { err(id + ": position " + str(p->getPosition()) + " expected " + str(ref[m]->getPosition())); break; }
                        if (!(dp.norm() <= 1e-9 * ref[m]->getMomentum().norm())) { err(id + ": momentum " + str(p->getMomentum()) + " expected " + str(ref[m]->getMomentum())); break; }
                    }
                    if (stat)
                    {
                        // every coordinate is distributed as given, the correlations are applied one after the other
                        double s[6] = {e("position/xrms"), e("position/yrms"), e.has("position/zft") ? e("position/zft") / sqrt(3.0) : e("position/zrms"), bg * e("momentum/xrms"), bg * e("momentum/yrms"), bg * e("momentum/delta")};
                        Eigen::Matrix<double, 6, 6> M = Eigen::Matrix<double, 6, 6>::Identity(), S = Eigen::Matrix<double, 6, 6>::Zero(), C, G = Eigen::Matrix<double, 6, 6>::Zero();
                        for (int m = 0; m < 6; m++) S(m, m) = s[m] * s[m];
                        for (auto k : {"correlations/linear#1/", "correlations/linear#2/"}) if (e.has(k + std::string("dep")))
                        {
                            int a = e.i(k + std::string("indep")), d = e.i(k + std::string("dep"));
                            Eigen::Matrix<double, 6, 6> T = Eigen::Matrix<double, 6, 6>::Identity();
                            if (a != d) T(d, a) += e(k + std::string("factor"));
                            M = T * M;
                        }
                        C = M * S * M.transpose();
                        Vector pm = e.vec("momentum"); pm.normalize(); pm = pm * bg;
                        Eigen::Matrix<double, 6, 1> mean = Eigen::Matrix<double, 6, 1>::Zero();
                        std::vector<Eigen::Matrix<double, 6, 1>> d(np);
                        for (int m = 0; m < np; m++)
                        {
                            Vector x = bu->getParticle(m)->getPosition() - pos, p = bu->getParticle(m)->getMomentum() - pm;
                            d[m] << x.x, x.y, x.z, p.x, p.y, p.z;
                            mean += d[m] / np;
                        }
                        for (int m = 0; m < np; m++) G += d[m] * d[m].transpose() / np;
                        double lim = 8.0 / sqrt((double)np);
                        for (int k = 0; k < 6; k++)
                        {
                            // rounding against the mean values
                            double fl = 1e-12 * (k < 3 ? pos.norm() : bg);
                            if (std::fabs(mean(k)) > lim * sqrt(C(k, k)) + fl) { err(id + ": mean of coordinate " + std::to_string(k)); break; }
                            bool b2 = false;
                            for (int l = 0; l < 6; l++)
                            {
                                double fl2 = fl + 1e-12 * (l < 3 ? pos.norm() : bg);
                                double tol = 1.5 * lim * sqrt(C(k, k) * C(l, l) + C(k, l) * C(k, l)) + fl2 * (sqrt(C(k, k)) + sqrt(C(l, l)) + fl2);
                                n++;
                                if (std::fabs(G(k, l) - C(k, l)) > tol) { char t[200]; snprintf(t, 200, ": covariance %d %d is %.6g expected %.6g", k, l, G(k, l), C(k, l)); err(id + t); b2 = true; break; }
                            }
                            if (b2) break;
                        }
                    }
                    else if (e.kind != "SDDS")
                    {
                        // the charge to mass ratio shows in the motion; on copies, the beam itself stays as it is
                        HomogeneousField f(Vector(3e5, -2e5, 1e5), Vector(1e-3, 2e-3, -1e-3));
                        double dt = 1e-10 / (1.0 + std::fabs(e("cmr"))) * gamma;
                        ChargedParticle p(bu->getParticle(0)), r(ref[0]);
                        p.InitVay(dt, &f); r.InitVay(dt, &f);
                        for (int m = 0; m < 3; m++) { p.StepVay(&f); r.StepVay(&f); }
                        Vector dp = p.getMomentum() - r.getMomentum(), d0 = r.getMomentum() - ref[0]->getMomentum();
                        if (!(dp.norm() <= 1e-6 * d0.norm() + 1e-12 * r.getMomentum().norm())) err(id + ": charge to mass ratio");
                    }
                    // loggers, in the order of the entries
                    for (std::string kind : {"log", "trajectories"})
                    {
                        if (!e.has(kind + "/file")) continue;
                        if (il >= logs.size()) { err(id + ": no logger"); break; }
                        Logger *lg = logs[il++];
                        int step = e.i(kind + "/step", 1);
                        for (int k = 0; k < 14; k++) if (lg->log_requested(k) != (k % step == 0)) { err(id + ": logging interval"); break; }
                        bool isp = dynamic_cast<ParameterLogger<Bunch> *>(lg) != nullptr, ist = dynamic_cast<TrajectoryLogger<Bunch> *>(lg) != nullptr;
                        if (isp != (kind == "log") || ist != (kind != "log")) { err(id + ": type of logger"); continue; }
                        lg->update();
                        unlink(e.s(kind + "/file").c_str());
                        lg->WriteData();
                        if (kind == "log")
                        {
                            std::map<std::string, double> par;
                            auto col = sdds_columns(e.s("log/file"), par);
                            if (!col.count("gamma") || col["gamma"].size() != 1 || !eq(col["gamma"][0], bu->avgGamma(), 1e-6)) err(id + ": logged quantities");
                            if (!col.count("t") || col["t"].size() != 1 || !eq(col["t"][0], bu->avgTime(), 1e-6)) err(id + ": logged time");
                            if (e.has("log/bunching-freq") != (par.count("BunchingFrequency") > 0)) err(id + ": bunching factor");
                            else if (e.has("log/bunching-freq") && !eq(par["BunchingFrequency"], e("log/bunching-freq"), 1e-6)) err(id + ": bunching frequency");
                        }
                        else
                        {
                            hid_t f = H5Fopen(e.s("trajectories/file").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
                            if (f < 0) { err(id + ": no trajectory file"); continue; }
                            std::vector<hsize_t> d; h5data(f, "Trajectories", d);
                            H5Fclose(f);
                            if (d != std::vector<hsize_t>{1, (hsize_t)std::min(np, e.i("trajectories/particles", 1000000)), 6}) err(id + ": number of particles in trajectories");
                        }
                    }
                    for (auto *p : ref) delete p;
                }
                if (il != logs.size()) err("number of loggers");
            }
            if (probe.requested != (pr != nullptr)) err("probe requested");
            else if (pr && (std::string(probe.filename) != pr->s("file") || (int)probe.step != pr->i("step", 1) || (int)probe.number != pr->i("number", 1))) err("probe properties");
        }
        // ---------------------------------------------------------------- tracking
        if (done(3))
        {
            if (beam.getTrackingMethod() != TRACKING_VAY) err("tracking method");
            if (!eq(beam.getTimeStep(), (*tracking)("delta_t"))) err("time step");
            if (beam.getNOTS() != tracking->i("n")) err("number of steps " + std::to_string(beam.getNOTS()));
            size_t nw = 0; auto fi = interactions.begin();
            for (auto &e : items[3])
            {
                if (e.kind == "fel1d")
                {
                    if (fi == interactions.end()) { err("number of interactions"); break; }
                    FEL_1D *fel = dynamic_cast<FEL_1D *>(*fi++);
                    if (!fel) { err("type of interaction"); continue; }
                    double dt = (*tracking)("delta_t"), ds = dt * SpeedOfLight; int N = e.i("N");
                    Vector prop = e.vec("prop"); prop.normalize();
                    Vector ex = e.vec("pol"); ex = ex - prop * dot(ex, prop); ex.normalize();
                    Vector ey = cross(prop, ex), head = e.vec("position");
                    double E0 = e("seed/E0"), lam = e("seed/lambda", 1.0), tau = e("seed/tau", 1.0), ts = e("seed/tstart");
                    bool ok = true, far = head.norm() > 1e5 * ds;
                    for (int k : {0, 1, N / 2, N - 1})
                    {
                        if (far) break;
                        double t = k * dt - ts, w = e.has("seed/E0") ? E0 * cos(2 * Pi * SpeedOfLight / lam * t) * exp(-0.5 * pow(t / tau, 2)) : 0.0;
                        ElMagField g;
                        if (refused([&] { g = fel->Field(0.0, head - prop * (k * ds)); })) { ok = false; continue; }
                        double tol = 1e-6 * std::fabs(E0) * (1 + 1e-9 * std::fabs(t) * SpeedOfLight / lam);
                        if ((g.E() - ex * w).norm() > tol || (g.B() - ey * (w / SpeedOfLight)).norm() > tol / SpeedOfLight) ok = false;
                        n++;
                    }
                    if (!ok) err("fel1d: field differs from the given seed and directions");
                    if (!far && (!refused([&] { fel->Field(0.0, head - prop * (N * ds)); }) || !refused([&] { fel->Field(0.0, head + prop * ds); }))) err("fel1d: grid length");
                    if (e.has("log/file"))
                    {
                        unlink(e.s("log/file").c_str());
                        fel->write_output();
                        hid_t f = H5Fopen(e.s("log/file").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
                        if (f < 0) { err("fel1d: no output"); continue; }
                        auto attr = [&](const char *nm, double w) { double v; if (!h5attr(f, "InteractionField", nm, v)) err(std::string("fel1d: no attribute ") + nm); else if (!eq(v, w) && std::fabs(v - w) > 1e-9 * ds) err(std::string("fel1d: attribute ") + nm); n++; };
                        attr("N_field", N); attr("N_output", e.i("log/step", 1)); attr("dt", dt); attr("w0", e("mode/w0")); attr("z_Rayl", e("mode/zR")); attr("z_waist", e("mode/zwaist"));
                        attr("origin.x", head.x); attr("origin.y", head.y); attr("origin.z", head.z);
                        std::vector<hsize_t> d; h5data(f, "InteractionField", d);
                        if (d != std::vector<hsize_t>{1, (hsize_t)N}) err("fel1d: shape of output");
                        H5Fclose(f);
                    }
                    else { trash.str(""); fel->write_output(); if (trash.str().find("writing") != std::string::npos) err("fel1d: output not requested"); }
                }
                else
                {
                    if (nw >= watches.size()) { err("number of watch points"); break; }
                    watch_t &w = watches[nw++];
                    if (w.step != e.i("step") || std::string(w.filename) != e.s("file") || w.type != (e.kind == "watch" ? hdf5 : sdds)) err("watch point");
                }
            }
            if (fi != interactions.end()) err("more interactions than given");
            if (nw != watches.size()) err("more watch points than given");
        }
        // ---------------------------------------------------------------- observers
        if (done(4))
        {
            if (observers.size() != items[4].size()) err("number of observers");
            else for (size_t i = 0; i < observers.size(); i++)
            {
                const Item &e = items[4][i]; BaseObserver *o = observers[i];
                std::string id = e.kind + " observer " + std::to_string(i);
                bool lat = e.has("source") && e("source") == 1.0;
                if (o->getSourceType() != (lat ? LatticeObservation : BeamObservation)) err(id + ": source type");
                bool type = false;
                if (e.kind == "snapshot") type = lat ? (bool)dynamic_cast<SnapshotObserver<Lattice> *>(o) : (bool)dynamic_cast<SnapshotObserver<Beam> *>(o);
                if (e.kind == "screen") type = lat ? (bool)dynamic_cast<ScreenObserver<Lattice> *>(o) : (bool)dynamic_cast<ScreenObserver<Beam> *>(o);
                if (e.kind == "mesh") type = lat ? (bool)dynamic_cast<MeshedScreen<Lattice> *>(o) : (bool)dynamic_cast<MeshedScreen<Beam> *>(o);
                if (e.kind == "point") type = lat ? (bool)dynamic_cast<PointObserver<Lattice> *>(o) : (bool)dynamic_cast<PointObserver<Beam> *>(o);
                if (!type) { err(id + ": type"); continue; }
                int nx = e.i("hpitch/n"), ny = e.i("vpitch/n"), nt = e.i("time/n");
                size_t cells = e.kind == "snapshot" ? nx * ny : e.kind == "screen" ? nx * ny * nt : e.kind == "point" ? nt : 6;
                if (o->getBufferSize() != 6 * cells) { err(id + ": size"); continue; }
                double *buf = o->getBuffer(); bool zero = true;
                for (size_t k = 0; k < 6 * cells; k++) if (buf[k] != 0.0) zero = false;
                delete[] buf;
                if (!zero) err(id + ": does not start with zero fields");
                if (e.kind == "mesh") continue;
                unlink(e.s("file").c_str());
                o->generateOutput();
                double t0 = e("time/t0"), dt = e("time/dt"); Vector pos = e.vec("position"), h = e.vec("hpitch"), v = e.vec("vpitch");
                if (e.kind == "point")
                {
                    std::map<std::string, double> par; auto col = sdds_columns(e.s("file"), par);
                    const std::vector<double> *tc = nullptr;
                    for (auto &c : col) if (c.first == "t") tc = &c.second;
                    if (!tc || (int)tc->size() != nt) { err(id + ": file"); continue; }
                    for (int k = 0; k < nt; k++) { n++; if (std::fabs((*tc)[k] - (t0 + k * dt)) > 1e-6 * dt + 1e-9 * std::fabs(t0)) { err(id + ": time axis"); break; } }
                    seen = Vector(0.123, 4.56, 7.89);
                    if (lat) { Lattice l; l.addElement(new RecField()); auto *q = dynamic_cast<PointObserver<Lattice> *>(o); q->setSource(&l); q->integrate(); }
                    else { Beam l; Bunch *lb = new Bunch(); lb->Add(new RecParticle()); l.Add(lb); auto *q = dynamic_cast<PointObserver<Beam> *>(o); q->setSource(&l); q->integrate(); }
                    if (!eqv(seen, pos) && (lat || nt > 1)) err(id + ": position " + str(seen) + " expected " + str(pos));
                    continue;
                }
                hid_t f = H5Fopen(e.s("file").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
                if (f < 0) { err(id + ": no output file"); continue; }
                std::vector<hsize_t> d; std::vector<double> p = h5data(f, "ObservationPosition", d);
                if (d != std::vector<hsize_t>{(hsize_t)nx, (hsize_t)ny, 3}) err(id + ": shape");
                else
                {
                    double sc = pos.norm() + (h.norm() + v.norm()) * 4;
                    for (int ix = 0; ix < nx; ix++) for (int iy = 0; iy < ny; iy++)
                    {
                        Vector w = e.kind == "screen" ? pos + h * (ix - nx / 2) + v * (iy - ny / 2) : pos + h * (ix - 0.5 * (nx - 1)) + v * (iy - 0.5 * (ny - 1)), g(p[3 * (ix * ny + iy)], p[3 * (ix * ny + iy) + 1], p[3 * (ix * ny + iy) + 2]);
                        n++;
                        if ((g - w).norm() > 1e-9 * sc) { err(id + ": cell position " + str(g) + " expected " + str(w)); ix = nx; break; }
                    }
                }
                auto attr = [&](const char *nm, double w) { double x; if (!h5attr(f, "ElMagField", nm, x)) err(id + ": no attribute " + nm); else if (!eq(x, w)) err(id + ": attribute " + nm); n++; };
                attr("t0", t0);
                if (e.kind == "screen")
                {
                    attr("dt", dt); attr("NOTS", nt);
                    auto sattr = [&](const char *nm, double w) { double x; if (!h5attr(f, "Screen", nm, x)) err(id + ": no attribute " + nm); else if (!eq(x, w)) err(id + ": attribute " + nm); n++; };
                    sattr("dtx", e("hpitch/dt")); sattr("dty", e("vpitch/dt"));
                }
                H5Fclose(f);
            }
        }
        for (auto *o : observers) delete o;
        for (auto &f : files) unlink(f.c_str());
        delete tracking;
        std::cout.rdbuf(coutbuf);
        return json{{"obs", bad}, {"n", n}};
    });
    if (chdir(cwd)) return 5;
    std::string cmd = std::string("rm -rf ./") + tmpl;
    if (system(cmd.c_str())) return 6;
    return rc;
}
