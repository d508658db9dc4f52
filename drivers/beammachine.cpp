// Driver for C03, C07, C13, C14, C16: executes histories of particle, bunch and beam calls and compares the
// complete state with the model state after every call. The output lists the differences (expected: none).
#include "common.h"
#include "beam.h"
#include "bunch.h"
#include "particle.h"
#include <cstring>

static double XU, TU, AU, CS;
static const double IRM = InvRestMass;

static double gam(Vector p) { return sqrt(1.0 + p.abs2nd()); }
static Vector pos(const json &x, double *scale = nullptr)
{
    Vector r = vec(x["b"], XU);
    double sc = 1e-12 * (r.norm() + XU);
    for (auto &v : x["v"])
    {
        Vector p(v[1].get<double>(), v[2].get<double>(), v[3].get<double>());
        Vector d = p * (1.0 / gam(p)) * (SpeedOfLight * v[0].get<double>() * TU);
        r += d; sc += 1e-9 * (d.norm() + 1e-3 * SpeedOfLight * TU);
    }
    if (scale) *scale = sc;
    return r;
}
static Vector acc(const json &a)
{
    Vector r = vec(a["lit"], AU);
    double d = a["d"];
    if (d > 0) r += (vec(a["e"]) + vec(a["w"]) * (gam(vec(a["ge"])) / gam(vec(a["gh"])))) * (2.0 / (d * TU));
    return r;
}
static double qmt2(const json &f) { return f["q"].get<double>() / f["m"].get<double>() * IRM * f["d"].get<double>() * TU * 0.5; }
static void fieldOf(const json &f, Vector &E, Vector &B)
{
    double k = qmt2(f);
    if (f["kind"] == "drift")
    {
        B = vec(f["tt"], 1.0 / k);
        Vector p = vec(f["p"]);
        E = cross(p * (1.0 / gam(p)), B) * (-SpeedOfLight);
    }
    else
    {
        E = vec(f["e"], SpeedOfLight / k);
        B = vec(f["tt"], gam(vec(f["pe"])) / k);
    }
}

struct Entry { double t; Vector x, E, B; };
class KickField : public GeneralField
{
public:
    std::vector<Entry> e;
    bool is_external() override { return true; }
    ElMagField Field(double t, Vector X) override
    {
        for (auto &k : e)
            if (fabs(t - k.t) < 1e-4 * TU && (X - k.x).norm() < 1e-5 * SpeedOfLight * TU) return ElMagField(k.E, k.B);
        // sampled at a place or time where no particle should be
        return ElMagField(Vector(7.7, -5.1, 3.3) * SpeedOfLight, Vector(1.1, 2.2, -3.3));
    }
};

static json *bad;
static std::string where;
static void report(const std::string &what, double exp, double got)
{
    if (bad->size() < 5) { char b[200]; snprintf(b, 200, " expected %.12g got %.12g", exp, got); bad->push_back(where + what + b); }
}
static void eqi(const char *w, long exp, long got) { if (exp != got) report(w, exp, got); }
static void eqd(const std::string &w, double exp, double got, double tol) { if (!(fabs(exp - got) <= tol)) report(w, exp, got); }
static void eqv(const std::string &w, Vector exp, Vector got, double tol)
{
    eqd(w + ".x", exp.x, got.x, tol); eqd(w + ".y", exp.y, got.y, tol); eqd(w + ".z", exp.z, got.z, tol);
}
static double atol(Vector a) { return 1e-9 * a.norm() + 1e-7 / TU; }
static void cmpPt(const std::string &w, const json &m, double t, Vector x, Vector p, Vector a)
{
    double sc;
    Vector ex = pos(m["x"], &sc), ep = vec(m["p"]), ea = acc(m["a"]);
    eqd(w + " time", m["t"].get<double>() * TU, t, 1e-9 * TU);
    eqv(w + " position", ex, x, sc);
    eqv(w + " momentum", ep, p, 1e-9 * (1 + ep.norm()));
    eqv(w + " acceleration", ea, a, atol(ea));
}
static const double GUARD = -9.87654321e99;
static bool guarded(const std::vector<double> &b, size_t n)
{
    for (size_t i = 0; i < b.size(); i++) if ((i < n) == (b[i] == GUARD)) return false;
    return true;
}
static void cmpPart(const std::string &w, const json &m, ChargedParticle *P)
{
    if (!P) { report(w + " missing", 1, 0); return; }
    int n = m["traj"].size();
    eqi((w + " points").c_str(), n, P->getNP());
    eqi((w + " pre-allocated").c_str(), m["pre"], P->getNpre());
    double q = m["q"].get<double>() * CS;
    eqd(w + " charge", q * ElementaryCharge, P->getCharge(), 1e-12 * fabs(q * ElementaryCharge));
    cmpPt(w + " current", m["cur"], P->getTime(), P->getPosition(), P->getMomentum(), P->getAccel());
    if (P->getNP() != n) return;
    for (int i = 0; i < n; i++)
        cmpPt(w + " point " + std::to_string(i), m["traj"][i], P->TrajTime(i), P->TrajPoint(i), P->TrajMomentum(i), P->TrajAccel(i));
    for (int i : {-1, n})
    {
        if (!refused([&] { P->TrajTime(i); })) report(w + " TrajTime out of range accepted", i, 0);
        if (!refused([&] { P->TrajPoint(i); })) report(w + " TrajPoint out of range accepted", i, 0);
        if (!refused([&] { P->TrajMomentum(i); })) report(w + " TrajMomentum out of range accepted", i, 0);
        if (!refused([&] { P->TrajAccel(i); })) report(w + " TrajAccel out of range accepted", i, 0);
    }
    // the serialised forms carry charge, mass and the points
    std::vector<double> b(PARTICLE_SERIALIZE_BUFSIZE + 4, GUARD);
    P->serialize(b.data());
    if (!guarded(b, PARTICLE_SERIALIZE_BUFSIZE)) report(w + " serialize length", PARTICLE_SERIALIZE_BUFSIZE, -1);
    eqd(w + " serialized charge", q, b[0], 1e-12 * fabs(q));
    eqd(w + " serialized mass", m["m"].get<double>() * CS, b[1], 1e-12 * fabs(b[1]));
    if (n == 0) { for (int i = 2; i < 12; i++) eqd(w + " serialized empty", 0, b[i], 0); }
    else cmpPt(w + " serialized", m["traj"][n - 1], b[2], Vector(b[3], b[4], b[5]), Vector(b[6], b[7], b[8]), Vector(b[9], b[10], b[11]));
    int sz = P->TrajBufSize();
    eqi((w + " TrajBufSize").c_str(), 9 + 10 * n, sz);
    std::vector<double> c(9 + 10 * n + 5, GUARD);
    if (sz <= 9 + 10 * n)
    {
        P->serializeTraj(c.data());
        if (!guarded(c, sz)) report(w + " serializeTraj length", sz, -1);
        eqd(w + " serialized (T) charge", q, c[0], 1e-12 * fabs(q));
        eqd(w + " serialized (T) mass", m["m"].get<double>() * CS, c[1], 1e-12 * fabs(c[1]));
        for (int i = 0; i < n; i++)
        {
            double *d = &c[9 + 10 * i];
            cmpPt(w + " serialized (T) " + std::to_string(i), m["traj"][i], d[0], Vector(d[1], d[2], d[3]), Vector(d[4], d[5], d[6]), Vector(d[7], d[8], d[9]));
        }
    }
}
static bool same(Vector a, Vector b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
// bit-exact equality of stored coordinates
static void exact(const std::string &w, ChargedParticle *a, ChargedParticle *b, bool traj)
{
    if (!a || !b) { report(w + " missing particle", 1, 0); return; }
    bool ok = a->getCharge() == b->getCharge();
    if (traj)
    {
        ok = ok && a->getTime() == b->getTime() && same(a->getPosition(), b->getPosition()) && same(a->getMomentum(), b->getMomentum()) && same(a->getAccel(), b->getAccel());
        ok = ok && a->getNP() == b->getNP();
        for (int i = 0; ok && i < a->getNP(); i++)
            ok = a->TrajTime(i) == b->TrajTime(i) && same(a->TrajPoint(i), b->TrajPoint(i)) && same(a->TrajMomentum(i), b->TrajMomentum(i)) && same(a->TrajAccel(i), b->TrajAccel(i));
    }
    else if (a->getNP() > 0)
    {
        int n = a->getNP() - 1;
        ok = ok && b->getNP() == 1 && a->TrajTime(n) == b->TrajTime(0) && same(a->TrajPoint(n), b->TrajPoint(0)) && same(a->TrajMomentum(n), b->TrajMomentum(0)) && same(a->TrajAccel(n), b->TrajAccel(0));
    }
    if (!ok) report(w + " not identical", 1, 0);
}

int main(int argc, char **argv)
{
    std::cout.rdbuf(nullptr);
    return drive(argc, argv, [](const json &b) -> json {
        XU = b["XU"]; TU = b["TU"]; AU = 1e-2 / TU; CS = b["CS"];
        int NB = b["nb"];
        json obs = json::array();
        int images = 0;
        bad = &obs;
        std::vector<Bunch *> reg(NB + 1, nullptr);
        Beam *beam = new Beam();
        std::vector<double> saved;
        auto setTrk = [&](std::string k) { beam->setTrackingMethod(k == "vay" ? TRACKING_VAY : k == "euler" ? TRACKING_EULER : TRACKING_NONE); };
        setTrk(b["i"]["trk"]); beam->setTimeStep(b["i"]["dt"].get<double>() * TU);
        // the model's bunches, updated from what each call changes
        json mb = json::array();
        for (int k = 0; k < NB; k++) mb.push_back({{"live", false}, {"parts", json::array()}});
        int n = 0;
        for (auto &o : b["h"])
        {
            std::string op = o["op"];
            where = "call " + std::to_string(n++) + " " + op + ":";
            auto PART = [&](const json &r) { return reg[r[0].get<int>()]->getParticle(r[1].get<int>() - 1); };
            auto BUN = [&](const char *k) -> Bunch *& { return reg[o[k].get<int>()]; };
            auto Q = [&] { return o["q"].get<double>() * CS; };
            auto M = [&] { return o["m"].get<double>() * CS; };
            bool exc = false;
            for (int k = 0; k < NB; k++)
            {
                int len = o["st"]["sh"][k];
                mb[k]["live"] = len >= 0;
                while ((int)mb[k]["parts"].size() > std::max(len, 0)) mb[k]["parts"].erase(mb[k]["parts"].size() - 1);
                while ((int)mb[k]["parts"].size() < len) mb[k]["parts"].push_back(json());
            }
            for (auto &g : o["st"]["chg"]) mb[g[0].get<int>() - 1]["parts"][g[1].get<int>() - 1] = g[2];
            try
            {
                if (op == "nb") BUN("b") = new Bunch(o["n"].get<int>(), Q(), M());
                else if (op == "nd")
                {
                    int N = o["n"], dim = o["dim"];
                    Distribution d(dim, N);
                    for (int i = 0; i < N; i++)
                    {
                        for (int k = 0; k < 3; k++) { d.setCoordinate(i, k, o["rows"][i][0][k].get<double>() * XU); d.setCoordinate(i, k + 3, o["rows"][i][1][k].get<double>()); }
                        if (dim > 6) d.setCoordinate(i, 6, o["rows"][i][2].get<double>() * TU);
                    }
                    BUN("b") = new Bunch(&d, o["tr"].get<double>() * TU, vec(o["xr"], XU), vec(o["pr"]), Q(), M());
                }
                else if (op == "cb")
                {
                    BUN("b") = new Bunch(BUN("s"));
                    for (int i = 0; i < BUN("s")->getNOP(); i++) exact(where, BUN("s")->getParticle(i), BUN("b")->getParticle(i), true);
                }
                else if (op == "del") { delete BUN("b"); BUN("b") = nullptr; }
                else if (op == "add")
                {
                    ChargedParticle *s = PART(o["s"]), *p = nullptr;
                    std::string how = o["how"];
                    if (how == "copy") { p = new ChargedParticle(s); exact(where, s, p, true); }
                    else if (how == "ser") { double t[PARTICLE_SERIALIZE_BUFSIZE]; s->serialize(t); p = new ChargedParticle(t); exact(where, s, p, false); }
                    else
                    {
                        std::vector<double> t(s->TrajBufSize());
                        s->serializeTraj(t.data());
                        p = new ChargedParticle(t.data(), s->getNP(), o["pre"].get<int>());
                        bool ok = p->getNP() == s->getNP();
                        for (int i = 0; ok && i < s->getNP(); i++)
                            ok = s->TrajTime(i) == p->TrajTime(i) && same(s->TrajPoint(i), p->TrajPoint(i)) && same(s->TrajMomentum(i), p->TrajMomentum(i)) && same(s->TrajAccel(i), p->TrajAccel(i));
                        if (!ok) report("restored trajectory not identical", 1, 0);
                    }
                    BUN("b")->Add(p);
                }
                else if (op == "addnew") BUN("b")->Add(o["pre"].get<int>() > 0 ? new ChargedParticle(Q(), M(), o["pre"].get<int>()) : new ChargedParticle(Q(), M()));
                else if (op == "rep")
                {
                    ChargedParticle *p = new ChargedParticle(Q(), M());
                    int i = o["i"].get<int>() - 1;
                    bool in = i >= 0 && i < BUN("b")->getNOP();
                    BUN("b")->replaceParticle(i, p);
                    if (!in) delete p;
                    else if (BUN("b")->getParticle(i) != p) report("replaced particle is another one", 1, 0);
                }
                else if (op == "abeam") beam->Add(BUN("b"));
                else if (op == "cbeam") { beam->clear(); for (int k = 1; k <= NB; k++) if (!mb[k - 1]["live"].get<bool>()) reg[k] = nullptr; }
                else if (op == "init") PART(o["r"])->initTrajectory(o["t"].get<double>() * TU, vec(o["x"], XU), vec(o["p"]), vec(o["a"], AU));
                else if (op == "setcur") PART(o["r"])->setCurrentPoint(o["t"].get<double>() * TU, vec(o["x"], XU), vec(o["p"]), vec(o["a"], AU));
                else if (op == "store") PART(o["r"])->storeTrajectoryPoint(o["t"].get<double>() * TU, vec(o["x"], XU), vec(o["p"]), vec(o["a"], AU));
                else if (op == "clrp") PART(o["r"])->clearTrajectory();
                else if (op == "clrb") BUN("b")->clearTrajectories();
                else if (op == "clrall") beam->clearTrajectories();
                else if (op == "preb") BUN("b")->preAllocate(o["n"].get<int>());
                else if (op == "preall") beam->preAllocate(o["n"].get<int>());
                else if (op == "trk") setTrk(o["k"]);
                else if (op == "dt") beam->setTimeStep(o["d"].get<double>() * TU);
                else if (op == "nots") beam->setNOTS(o["n"].get<int>());
                else if (op == "setup" || op == "step")
                {
                    KickField F;
                    for (auto &k : o["k"])
                    {
                        Entry e; e.t = k["pt"]["t"].get<double>() * TU; e.x = pos(k["pt"]["x"]);
                        fieldOf(k["f"], e.E, e.B);
                        F.e.push_back(e);
                    }
                    int s = o["s"];
                    if (op == "setup") { if (s == 0) beam->setupTracking(&F); else reg[s]->InitVay(o.contains("d") ? o["d"].get<double>() * TU : TU, &F); }
                    else { if (s == 0) beam->doStep(&F); else reg[s]->StepVay(&F); }
                }
                else if (op == "save")
                {
                    int sz = beam->getStepBufferSize();
                    saved.assign(10 * beam->getNOP() + 5, GUARD);
                    eqi("step buffer size", 10 * beam->getNOP(), sz);
                    beam->bufferStep(saved.data());
                    if (!guarded(saved, sz)) report("bufferStep length", sz, -1);
                    saved.resize(sz);
                    double *d = saved.data();
                    for (int k = 0; k < beam->getNOB(); k++)
                        for (int i = 0; i < beam->getBunch(k)->getNOP(); i++, d += 10)
                        {
                            ChargedParticle *P = beam->getBunch(k)->getParticle(i);
                            if (d[0] != P->getTime() || !same(Vector(d[1], d[2], d[3]), P->getPosition()) || !same(Vector(d[4], d[5], d[6]), P->getMomentum()) || !same(Vector(d[7], d[8], d[9]), P->getAccel()))
                                report("buffered coordinates not identical, particle", i, k);
                        }
                }
                else if (op == "load")
                {
                    std::vector<double> t = saved;
                    beam->setStepFromBuffer(t.data());
                    double *d = saved.data();
                    for (int k = 0; k < beam->getNOB(); k++)
                        for (int i = 0; i < beam->getBunch(k)->getNOP(); i++, d += 10)
                        {
                            ChargedParticle *P = beam->getBunch(k)->getParticle(i);
                            int m = P->getNP() - 1;
                            if (d[0] != P->getTime() || !same(Vector(d[1], d[2], d[3]), P->getPosition()) || !same(Vector(d[4], d[5], d[6]), P->getMomentum()) || !same(Vector(d[7], d[8], d[9]), P->getAccel())
                                || d[0] != P->TrajTime(m) || !same(Vector(d[1], d[2], d[3]), P->TrajPoint(m)) || !same(Vector(d[4], d[5], d[6]), P->TrajMomentum(m)) || !same(Vector(d[7], d[8], d[9]), P->TrajAccel(m)))
                                report("restored coordinates not identical, particle", i, k);
                        }
                }
                else if (op == "probe")
                {
                    unsigned int N = o["n"];
                    unsigned int sz = beam->getProbeBufferSize(N);
                    eqi("probe buffer size", 16 * N, sz);
                    std::vector<double> t(16 * N + 20, GUARD);
                    beam->bufferProbe(t.data(), N);
                    if (!guarded(t, 16 * N)) report("bufferProbe length", 16 * N, -1);
                    for (unsigned int i = 0; i < N; i++)
                    {
                        const json &m = mb[o["ret"][i][0].get<int>() - 1]["parts"][o["ret"][i][1].get<int>() - 1];
                        double *d = &t[16 * i];
                        cmpPt("probe " + std::to_string(i), m["cur"], d[0], Vector(d[1], d[2], d[3]), Vector(d[4], d[5], d[6]), Vector(d[7], d[8], d[9]));
                        if (m["fld"]["kind"] != "none")
                        {
                            Vector E, B; fieldOf(m["fld"], E, B);
                            eqv("probe E", E, Vector(d[10], d[11], d[12]), 1e-9 * (E.norm() + SpeedOfLight * B.norm()));
                            eqv("probe B", B, Vector(d[13], d[14], d[15]), 1e-9 * (B.norm()));
                        }
                    }
                }
                else if (op == "shift") PART(o["r"])->Shift(vec(o["d"], XU), o["f"].get<double>());
                else if (op == "mirror") PART(o["r"])->Mirror(vec(o["o"], XU), vec(o["n"]), o["f"].get<double>());
                else if (op == "coord")
                {
                    Vector x(1, 2, 3), p(4, 5, 6), ex(0, 0, 0), ep(0, 0, 0);
                    PART(o["r"])->CoordinatesAtTime(o["t"].get<double>() * TU, &x, &p);
                    double s1 = 0, s2 = 0;
                    if (o["ret"].size() == 4)
                    {
                        const json &tr = mb[o["r"][0].get<int>() - 1]["parts"][o["r"][1].get<int>() - 1]["traj"];
                        const json &a = tr[o["ret"][0].get<int>() - 1], &c = tr[o["ret"][1].get<int>() - 1];
                        double f = o["ret"][2].get<double>() / o["ret"][3].get<double>();
                        ex = pos(a["x"], &s1) * (1 - f) + pos(c["x"], &s2) * f;
                        ep = vec(a["p"]) * (1 - f) + vec(c["p"]) * f;
                    }
                    eqv("position at time", ex, x, s1 + s2 + 1e-12 * ex.norm());
                    eqv("momentum at time", ep, p, 1e-9 * (1 + ep.norm()));
                }
                else if (op == "image")
                {
                    ChargedParticle *P = PART(o["r"]);
                    ChargedParticle img(P);
                    Vector org = vec(o["o"], XU), nrm = vec(o["n"]), at = vec(o["pt"], XU), x, p;
                    img.Mirror(org, nrm, -1.0);
                    nrm.normalize();
                    double t = o["t"].get<double>() * TU;
                    P->CoordinatesAtTime(t, &x, &p);
                    t += (at - x).norm() / SpeedOfLight;
                    ElMagField a = P->RetardedField(t, at), b = img.RetardedField(t, at);
                    double e = a.E().norm(), m = a.B().norm();
                    if (e > 0 && e < 1e300)
                    {
                        Vector s = a.E() + b.E();
                        eqd("image: tangential E relative", 0, (s - nrm * dot(s, nrm)).norm() / e, 1e-3);
                        eqd("image: normal B relative", 0, dot(a.B() + b.B(), nrm) * SpeedOfLight / e, 1e-3);
                        images++;
                    }
                    // the same for the recorded field integrals
                    FieldTrace ta(t - 20 * TU, 4 * TU, 10), tb(t - 20 * TU, 4 * TU, 10);
                    P->integrateFieldTrace(at, &ta);
                    img.integrateFieldTrace(at, &tb);
                    double big = 0, off = 0, offb = 0, bigb = 0;
                    for (int i = 0; i < 10; i++)
                    {
                        ElMagField u = ta.get_field(std::size_t(i)), v = tb.get_field(std::size_t(i));
                        Vector s = u.E() + v.E();
                        big = std::max(big, u.E().norm()); bigb = std::max(bigb, u.B().norm());
                        off = std::max(off, (s - nrm * dot(s, nrm)).norm()); offb = std::max(offb, fabs(dot(u.B() + v.B(), nrm)));
                    }
                    if (big > 0 && big < 1e300) { eqd("image: recorded tangential E", 0, off / big, 1e-3); eqd("image: recorded normal B", 0, offb * SpeedOfLight / big, 1e-3); images++; }
                }
                else report("unknown op", 0, 0);
            }
            catch (std::exception const &) { exc = true; }
            catch (...) { exc = true; }
            if (exc != o["exc"].get<bool>()) { obs.push_back(where + (exc ? "refused unexpectedly" : "accepted, should be refused")); break; }
            if (o["over"].get<bool>()) break;
            const json &st = o["st"];
            for (int k = 1; k <= NB; k++)
            {
                const json &m = mb[k - 1];
                if (!m["live"].get<bool>()) continue;
                std::string w = " bunch " + std::to_string(k);
                int np = m["parts"].size();
                eqi((w + " NOP").c_str(), np, reg[k]->getNOP());
                if (reg[k]->getParticle(-1) || reg[k]->getParticle(np)) report(w + " particle out of range", 0, 1);
                double tot = 0, sc = 0;
                for (int i = 0; i < np; i++)
                {
                    cmpPart(w + " particle " + std::to_string(i), m["parts"][i], reg[k]->getParticle(i));
                    double q = m["parts"][i]["q"].get<double>() * CS * ElementaryCharge;
                    tot += q; sc += fabs(q);
                }
                eqd(w + " total charge", tot, reg[k]->getTotalCharge(), 1e-9 * sc);
            }
            int nb = st["beam"].size(), nop = 0;
            double tot = 0, sc = 0;
            eqi(" beam NOB", nb, beam->getNOB());
            if (beam->getBunch(-1) || beam->getBunch(nb)) report(" bunch out of range", 0, 1);
            for (int i = 0; i < nb; i++)
            {
                int k = st["beam"][i];
                if (beam->getBunch(i) != reg[k]) report(" beam bunch order", k, i);
                for (auto &p : mb[k - 1]["parts"]) { nop++; double q = p["q"].get<double>() * CS * ElementaryCharge; tot += q; sc += fabs(q); }
            }
            eqi(" beam NOP", nop, beam->getNOP());
            eqi(" beam buffer size", 10 * nop, beam->getStepBufferSize());
            eqd(" beam charge", tot, beam->getTotalCharge(), 1e-9 * sc);
            eqi(" beam NOTS", st["nots"], beam->getNOTS());
            eqd(" beam dt", st["dt"].get<double>() * TU, beam->getTimeStep(), 1e-12 * TU);
            std::string tk = st["trk"];
            eqi(" tracker", tk == "vay" ? TRACKING_VAY : tk == "euler" ? TRACKING_EULER : TRACKING_NONE, beam->getTrackingMethod());
            if (obs.size()) break;
        }
        if (obs.empty())
        {
            // everything the history left behind is owned exactly once
            std::vector<bool> owned(NB + 1, false);
            const json &st = b["h"].back()["st"];
            for (auto &k : st["beam"]) owned[k.get<int>()] = true;
            for (int k = 1; k <= NB; k++) if (reg[k] && !owned[k]) delete reg[k];
            delete beam;
        }
        return json{{"obs", obs}, {"images", images}};
    });
}
