// Driver for C19: executes histories of modifications and queries in one world; every answer is compared with that
// of a fresh world which has seen nothing but the modifications in the query's cone, with the answers of the same
// queries asked by many threads at once, and the whole state is compared before and after.
#include "common.h"
#include "h5read.h"
#include "terms.h"
#include "beam.h"
#include "bunch.h"
#include "particle.h"
#include "source_screen.h"
#include <algorithm>
#include <complex>
#include <cstring>
#include <map>
#include <memory>
#include <omp.h>
#include <set>

static const double MM = 1e-3, PS = 1e-12;
static std::string screenfile;
typedef std::vector<double> Ans;

// reproducible numbers in -1..1
static double rnd(int a, int b, int c)
{
    unsigned long long x = 0x9E3779B97F4A7C15ULL * (a * 1000003ULL + b * 7919ULL + c * 131ULL + 17ULL);
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 27; x *= 0x94D049BB133111EBULL; x ^= x >> 31;
    return (double)(x >> 11) / 4503599627370496.0 - 1.0;
}

static void make_screen(const std::string &fn)
{
    hsize_t nx = 3, ny = 3, nt = 10;
    hid_t h = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    std::vector<double> s = {0, 0, -6 * MM, 0, 0, 1, 1.5 * MM, 0, 0, 0, 1.5 * MM, 0};
    h5put(h, "Screen", {4, 3}, s);
    h5putattr(h, "Screen", "Nx", (int)nx); h5putattr(h, "Screen", "Ny", (int)ny); h5putattr(h, "Screen", "NOTS", (int)nt);
    h5putattr(h, "Screen", "t0", -30 * PS); h5putattr(h, "Screen", "dt", 8 * PS);
    std::vector<double> v;
    for (hsize_t i = 0; i < nx * ny * nt * 6; i++) v.push_back(rnd(i, 5, 5) * (i % 6 < 3 ? 1e6 : 1e6 / SpeedOfLight));
    h5put(h, "ElMagField", {nx, ny, nt, 6}, v);
    H5Fclose(h);
}

static GeneralField *make_element(const std::string &k, int s)
{
    Vector o(0, 0, (4.0 + 2.0 * rnd(s, 1, 1)) * MM);
    if (k == "planar") { auto *u = new PlanarUndulator(o); u->Setup(0.4 + 0.3 * rnd(s, 2, 1), (3.0 + rnd(s, 3, 1)) * MM, 4); return u; }
    if (k == "tgu") { auto *u = new TransverseGradientUndulator(o); u->Setup(0.3, 400.0, 0.1, (3.0 + rnd(s, 3, 1)) * MM, 4); return u; }
    if (k == "wave") { auto *w = new GaussianWave(0.0, o); w->Setup(0.5 * MM * (1.5 + rnd(s, 4, 1)), std::complex<double>(2e6, 1e6 * rnd(s, 5, 1)), 5 * MM); return w; }
    if (k == "packet")
    {
        auto *w = new GaussianWavePacket(2 * PS * rnd(s, 6, 1), o);
        w->Setup(0.7 * MM, std::complex<double>(1e6, 3e6 * rnd(s, 5, 1)), 6 * MM, 4 * PS);
        return w;
    }
    if (k == "hard") return new HardEdgeDipole(Vector(0, 0.5 + 0.3 * rnd(s, 7, 1), 0), Vector(0, 0, 1 * MM), Vector(0, 0, -1), Vector(0, 0, 5 * MM), Vector(0, 0, 1));
    if (k == "soft") return new SoftEdgeDipole(Vector(0.2, 0.4 * rnd(s, 7, 1), 0), Vector(0, 0, 2 * MM), Vector(0, 0.1, -1), 1 * MM, Vector(0, 0, 6 * MM), Vector(0, 0, 1), 1.5 * MM);
    if (k == "homog") return new HomogeneousField(Vector(1e5 * rnd(s, 8, 1), 2e5, 0), Vector(0, 0.01, 0.02 * rnd(s, 9, 1)));
    if (k == "source") return new SourceScreen(screenfile, Vector(0, 0, (-6.0 + rnd(s, 1, 2)) * MM), rnd(s, 2, 2) * PS);
    throw std::runtime_error("unknown element " + k);
}
static void again(GeneralField *f, const std::string &k, int s)
{
    if (k == "planar") dynamic_cast<PlanarUndulator *>(f)->Setup(0.5 + 0.3 * rnd(s, 2, 2), (3.0 + rnd(s, 3, 2)) * MM, 3);
    if (k == "tgu") dynamic_cast<TransverseGradientUndulator *>(f)->Setup(0.35, 300.0, 0.05, (3.0 + rnd(s, 3, 2)) * MM, 5);
    if (k == "wave") dynamic_cast<GaussianWave *>(f)->Setup(0.5 * MM * (1.5 + rnd(s, 4, 2)), std::complex<double>(1e6, 2e6 * rnd(s, 5, 2)), 4 * MM);
    if (k == "packet") dynamic_cast<GaussianWavePacket *>(f)->Setup(0.8 * MM, std::complex<double>(2e6, 1e6 * rnd(s, 5, 2)), 5 * MM, 3 * PS);
}
static ChargedParticle *make_particle(int id, int s, int k)
{
    ChargedParticle *p = new ChargedParticle(-(100.0 + 10.0 * id), 100.0 + 10.0 * id);
    Vector x(rnd(id, s, 1) * 0.3 * MM, rnd(id, s, 2) * 0.3 * MM, rnd(id, s, 3) * MM);
    Vector m(rnd(id, s, 4), rnd(id, s, 5), 9.0 + 3.0 * rnd(id, s, 6));
    double t = 0;
    p->initTrajectory(t, x, m, Vector(1e9, -2e9, 0) * rnd(id, s, 7));
    for (int i = 1; i < k; i++)
    {
        m += Vector(rnd(id, s, 10 + i), rnd(id, s, 20 + i), 0.1) * 0.3;
        x += m / sqrt(1 + m.abs2nd()) * SpeedOfLight * PS;
        t += PS;
        p->storeTrajectoryPoint(t, x, m, Vector(1e9, 1e9 * i, 0));
    }
    return p;
}

struct World
{
    Beam *beam = new Beam();
    Lattice *lat = new Lattice();
    std::map<int, Bunch *> bun;
    std::map<int, std::vector<int>> slot;
    std::map<int, GeneralField *> el;
    std::vector<GeneralField *> removed;
    std::map<int, ChargedParticle *> part;
    const std::set<std::pair<std::string, int>> *only = nullptr;

    World() { beam->setTimeStep(PS); beam->setTrackingMethod(TRACKING_VAY); }
    ~World() { delete beam; delete lat; for (auto *e : removed) delete e; }
    bool has(const char *k, int i) const { return !only || only->count({k, i}); }
    Bunch *bunch(int b)
    {
        if (!bun.count(b)) { bun[b] = new Bunch(); beam->Add(bun[b]); }
        return bun[b];
    }
    void join(int b, int id, ChargedParticle *p) { bunch(b)->Add(p); slot[b].push_back(id); part[id] = p; }
    void modify(const json &o)
    {
        std::string op = o["op"];
        if (op == "bunch")
        {
            for (auto &i : o["ids"]) if (has("p", i)) join(o["b"], i, make_particle(i, o["seed"], 1));
        }
        else if (op == "add") { if (has("p", o["id"])) join(o["b"], o["id"], make_particle(o["id"], o["seed"], o["k"])); }
        else if (op == "replace")
        {
            int id = o["id"], old = o["old"], b = o["b"];
            if (part.count(old))
            {
                auto &s = slot[b];
                int pos = std::find(s.begin(), s.end(), old) - s.begin();
                ChargedParticle *p = make_particle(id, o["seed"], o["k"]);
                bun[b]->replaceParticle(pos, p);
                s[pos] = id; part.erase(old); part[id] = p;
            }
            else if (has("p", id)) join(b, id, make_particle(id, o["seed"], o["k"]));
        }
        else if (op == "shift" || op == "mirror")
        {
            int id = o["id"], s = o["seed"];
            if (!part.count(id)) return;
            Vector d(rnd(s, 1, 9), rnd(s, 2, 9), rnd(s, 3, 9));
            if (op == "shift") part[id]->Shift(d * MM, s % 2 ? 1.0 : -1.0);
            else part[id]->Mirror(Vector(0, 0, 2 * MM), d, s % 2 ? 1.0 : -1.0);
        }
        else if (op == "corr")
        {
            int s = o["seed"], i = s % 6, d = (s / 6 + s + 2) % 6;
            if (i == d) d = (d + 1) % 6;
            if (bun.count(o["b"])) bun[o["b"]]->addCorrelation(i, d, (d < 3 ? (i < 3 ? 0.3 : 1e-5) : (i < 3 ? 100.0 : 0.1)));
        }
        else if (op == "clear") { if (bun.count(o["b"])) bun[o["b"]]->clearTrajectories(); }
        else if (op == "elem")
        {
            int id = o["id"];
            if (!has("e", id) && !has("l", id)) return;
            el[id] = make_element(o["kind"], o["seed"]);
            lat->addElement(el[id]);
        }
        else if (op == "rem")
        {
            int id = o["id"];
            if (!el.count(id)) return;
            for (int i = 0; i < lat->count(); i++) if (lat->at(i) == el[id]) { lat->remove(i); break; }
            removed.push_back(el[id]);
        }
        else if (op == "resetup") { if (el.count(o["id"])) again(el[o["id"]], o["kind"], o["seed"]); }
        else if (op == "setup") beam->setupTracking(lat);
        else if (op == "step") { for (int i = 0; i < o["n"].get<int>(); i++) beam->doStep(lat); }
        else throw std::runtime_error("unknown call " + op);
    }
    void put(Ans &a, const Vector &v) { a.push_back(v.x); a.push_back(v.y); a.push_back(v.z); }
    void put(Ans &a, ElMagField f) { put(a, f.E()); put(a, f.B()); }
    Ans query(const json &o)
    {
        Ans a;
        std::string w = o["q"];
        double t = o["t"].get<double>() * 0.1 * PS;
        Vector x = vec(o["x"], 0.1 * MM);
        auto P = [&] { return part.at(o["id"].get<int>()); };
        auto B = [&] { return bun.at(o["b"].get<int>()); };
        auto trace = [&](std::function<void(FieldTrace *)> f) {
            FieldTrace tr(t - 3 * PS, 1.3 * PS, 12);
            f(&tr);
            for (int i = 0; i < 12; i++) put(a, tr.get_field((std::size_t)i));
        };
        try
        {
            if (w == "coord") { Vector p, m; P()->CoordinatesAtTime(t, &p, &m); put(a, p); put(a, m); }
            else if (w == "pfield") put(a, P()->RetardedField(t, x));
            else if (w == "ptrace") trace([&](FieldTrace *tr) { P()->integrateFieldTrace(x, tr); });
            else if (w == "pstate")
            {
                ChargedParticle *p = P();
                a = {p->getCharge(), (double)p->getNP(), p->getTime()};
                put(a, p->getPosition()); put(a, p->getMomentum()); put(a, p->getAccel());
                for (int i = 0; i < p->getNP(); i++) { a.push_back(p->TrajTime(i)); put(a, p->TrajPoint(i)); put(a, p->TrajMomentum(i)); put(a, p->TrajAccel(i)); }
            }
            else if (w == "bfield") put(a, B()->RetardedField(t, x));
            else if (w == "btrace") trace([&](FieldTrace *tr) { B()->integrateFieldTrace(x, tr); });
            else if (w == "moments")
            {
                Bunch *b = B();
                a = {(double)b->getNOP(), b->getTotalCharge(), b->avgTime(), b->avgGamma(), b->delta()};
                put(a, b->avgPosition()); put(a, b->rmsPosition()); put(a, b->avgMomentum());
                std::complex<double> f = b->BunchingFactor(o["f"].get<double>() * 1e11);
                a.push_back(f.real()); a.push_back(f.imag());
            }
            else if (w == "afield") put(a, beam->RetardedField(t, x));
            else if (w == "atrace") trace([&](FieldTrace *tr) { beam->integrateFieldTrace(x, tr); });
            else if (w == "totals") a = {(double)beam->getNOP(), beam->getTotalCharge(), (double)beam->getNOTS()};
            else if (w == "lfield") put(a, lat->Field(t, x));
            else if (w == "efield") put(a, el.at(o["id"].get<int>())->Field(t, x));
            else throw std::runtime_error("unknown query");
        }
        catch (std::out_of_range &e) { a = {-99}; }
        catch (...) { a = {-77.5}; }
        return a;
    }
    // everything that is stored
    std::string state()
    {
        std::string s;
        auto raw = [&](const double *d, size_t n) { s.append((const char *)d, n * sizeof(double)); };
        for (auto &p : part)
        {
            std::vector<double> b(p.second->TrajBufSize() + 16, 0.0);
            p.second->serializeTraj(b.data());
            p.second->bufferProbe(b.data() + p.second->TrajBufSize());
            // fields are only defined once the particle is tracked: time, position, momentum and acceleration suffice
            raw(b.data(), b.size() - 6);
        }
        double d[4] = {(double)beam->getNOB(), (double)beam->getNOTS(), beam->getTimeStep(), (double)lat->count()};
        raw(d, 4);
        for (int i = 0; i < lat->count(); i++) for (auto &e : el) if (e.second == lat->at(i)) { double k = e.first; raw(&k, 1); }
        for (auto &b : bun) for (int i = 0; i < b.second->getNOP(); i++) for (auto &p : part) if (p.second == b.second->getParticle(i)) { double k = p.first; raw(&k, 1); }
        return s;
    }
    bool there(const json &o)
    {
        std::string w = o["q"];
        if (w == "coord" || w == "pfield" || w == "ptrace" || w == "pstate") return part.count(o["id"]);
        return true;
    }
};

// same answer: components may differ by rounding only, relative to their triple
static bool same(const Ans &a, const Ans &b, double tol)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
    {
        if (std::isnan(a[i]) && std::isnan(b[i])) continue;
        if (a[i] == b[i]) continue;
        double m = std::max(fabs(a[i]), fabs(b[i]));
        for (size_t k = (i >= 2 ? i - 2 : 0); k < std::min(a.size(), i + 3); k++) if (std::isfinite(a[k])) m = std::max(m, std::min(fabs(a[k]), 1e6 * m));
        if (!(fabs(a[i] - b[i]) <= tol * m)) return false;
    }
    return true;
}
static std::string diff(const Ans &a, const Ans &b)
{
    char s[200];
    if (a.size() != b.size()) { snprintf(s, 200, "%zu numbers instead of %zu", b.size(), a.size()); return s; }
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) { snprintf(s, 200, "number %zu is %.15g, expected %.15g", i, b[i], a[i]); return s; }
    return "";
}

int main(int argc, char **argv)
{
    teufel::rank = 1;
    std::cout.rdbuf(nullptr);
    screenfile = std::string(argv[2]) + ".screen.h5";
    make_screen(screenfile);
    int rc = drive(argc, argv, [](const json &b) -> json {
        json bad = json::array();
        long nq = 0, npar = 0, ncone = 0, nzero = 0;
        World w;
        const json &h = b["h"];
        int threads = b["threads"], repeat = b["repeat"];
        std::vector<int> asked;      // queries of this history
        auto err = [&](int k, const std::string &s) { if (bad.size() < 6) bad.push_back("entry " + std::to_string(k + 1) + " " + (h[k]["op"] == "query" ? h[k]["q"] : h[k]["op"]).get<std::string>() + ": " + s); };
        size_t k = 0;
        while (k < h.size())
        {
            if (h[k]["op"] != "query")
            {
                try { w.modify(h[k]); }
                catch (...) { err(k, "refused"); }
                k++;
                continue;
            }
            std::string before = w.state();
            size_t e = k;
            for (; e < h.size() && h[e]["op"] == "query"; e++)
            {
                Ans got = w.query(h[e]);
                nq++;
                // a world with nothing but the cone
                std::set<std::pair<std::string, int>> objs;
                for (auto &o : h[e]["objs"]) objs.insert({o[0].get<std::string>(), o[1].get<int>()});
                World f;
                f.only = &objs;
                std::set<int> ops(h[e]["cone"].begin(), h[e]["cone"].end());
                ncone += ops.size();
                try { for (int i : ops) f.modify(h[i - 1]); }
                catch (...) { err(e, "the cone is refused"); }
                Ans want = f.query(h[e]);
                bool z = true;
                for (double d : want) if (d != 0) z = false;
                nzero += z;
                if (!same(want, got, 1e-9)) err(e, "the answer depends on more than its cone: " + diff(want, got));
                asked.push_back(e);
            }
            // the same and all earlier queries again: one after another in the opposite order, then in many threads
            std::vector<int> live;
            for (int i : asked) if (w.there(h[i])) live.push_back(i);
            std::vector<Ans> seq(live.size());
            for (size_t i = live.size(); i-- > 0;) seq[i] = w.query(h[live[i]]);
            std::vector<int> wrong(live.size(), 0);
            std::vector<Ans> sample(live.size());
            int total = live.size() * repeat;
#pragma omp parallel for schedule(dynamic, 1) num_threads(threads)
            for (int j = 0; j < total; j++)
            {
                int i = (j * 7 + j / (int)live.size()) % (int)live.size();
                Ans a = w.query(h[live[i]]);
                if (!same(seq[i], a, 1e-9))
                {
#pragma omp critical
                    { wrong[i]++; sample[i] = a; }
                }
            }
            npar += total;
            for (size_t i = 0; i < live.size(); i++) if (wrong[i]) err(live[i], "another answer when asked in parallel: " + diff(seq[i], sample[i]));
            // asked again afterwards
            for (size_t i = 0; i < live.size(); i++)
            {
                Ans a = w.query(h[live[i]]);
                if (!same(seq[i], a, 1e-9)) err(live[i], "another answer when asked again: " + diff(seq[i], a));
            }
            if (w.state() != before) err(k, "queries changed the world");
            k = e;
        }
        return json{{"obs", bad}, {"queries", nq}, {"parallel", npar}, {"cone", ncone}, {"zero", nzero}};
    });
    remove(screenfile.c_str());
    return rc;
}
