// Driver for C08: histories of observers.
#include "common.h"
#include "h5read.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"
#include "observer.h"
#include "screen.h"
#include "snapshot.h"
#include "point_observer.h"
#include "mesh.h"
#include <omp.h>
#include <unistd.h>
#include <memory>
#include <iostream>

static double L, TU, FU;
static bool spin;
static volatile double sink;
static void delay() { if (spin) { double s = 0; for (int i = 0; i < 300; i++) s += i * 1e-3; sink = s; } }
// field of source s: different linear functions of time and place in every component
static ElMagField F(int s, double t, Vector X)
{
    double T = t / TU, x = X.x / L, y = X.y / L, z = X.z / L;
    double k = s == 1 ? 1.0 : 3.0;
    return ElMagField(Vector(x + 7 * y + 31 * z + k * T + 2, k * x - y + 5 * T, z - 2 * x + k),
                      Vector(11 * x - 3 * z + T, 13 * y + k * z - T, 17 * z + k * T - y)) * FU;
}
class Stub : public GeneralField
{
public:
    int s;
    Stub(int ss) : s(ss) {}
    bool is_external() override { return true; }
    ElMagField Field(double t, Vector X) override { delay(); return F(s, t, X); }
};
// contributes weight * F over the whole time covered by any trace
class Special : public ChargedParticle
{
public:
    int s; double w, a, b;
    Special(int ss, double ww, double aa, double bb) : s(ss), w(ww), a(aa), b(bb) { NP = 2; }
    virtual double RetardedTime(int i, Vector) { return i == 0 ? a : b; }
    virtual ElMagField RetardedField(int i, Vector X) { delay(); return F(s, i == 0 ? a : b, X) * w; }
};
static ChargedParticle *real_particle(double q, Vector x, Vector p)
{
    ChargedParticle *c = new ChargedParticle(q, 1.0);
    c->initTrajectory(0.0, x, p, Vector(0, 0, 0));
    return c;
}

struct Any
{
    json b, cells;
    virtual ~Any() {}
    virtual void integrate(int s) = 0;
    virtual ElMagField value(int s, double t, Vector X) { return F(s, t, X); }
    virtual ElMagField get(int ix, int iy, int it) = 0;
    virtual void set(int ix, int iy, int it, ElMagField f) = 0;
    virtual BaseObserver *base() = 0;
    virtual void zero() {}
    std::string file;
};
template <class T> T *source(int s, bool real);
template <> Lattice *source<Lattice>(int s, bool) { Lattice *l = new Lattice(); l->addElement(new Stub(s)); return l; }
template <> Bunch *source<Bunch>(int s, bool real)
{
    Bunch *b = new Bunch();
    if (real) { b->Add(real_particle(-s, Vector(1e3 * L, 5e3 * L, -3e4 * L), Vector(0.1, 0, 2))); b->Add(real_particle(2, Vector(-900 * L, 50 * L, 2e4 * L), Vector(0, 0.4, -s))); }
    else { b->Add(new Special(s, 3.0, -3e4 * TU, 2e4 * TU)); b->Add(new Special(s, -2.0, -1e4 * TU, 4e4 * TU)); }
    return b;
}
template <> Beam *source<Beam>(int s, bool real)
{
    Beam *b = new Beam();
    b->Add(source<Bunch>(s, real));
    Bunch *c = new Bunch();
    if (real) c->Add(real_particle(-3, Vector(0, -4e3 * L, -1e4 * L), Vector(0, 0, -0.5)));
    else { c->Add(new Special(s, 1.0, -2e4 * TU, 2e4 * TU)); c->Add(new Special(s, -1.0, -3e4 * TU, 2e4 * TU)); }
    b->Add(c);
    return b;
}
template <class T> ElMagField ret(T *src, int, double t, Vector X) { return src->RetardedField(t, X); }
template <> ElMagField ret<Lattice>(Lattice *, int s, double t, Vector X) { return F(s, t, X); }

template <class T> struct Obs : public Any
{
    std::unique_ptr<ScreenObserver<T>> sc; std::unique_ptr<SnapshotObserver<T>> sn;
    std::unique_ptr<PointObserver<T>> pt; std::unique_ptr<MeshedScreen<T>> me;
    T *src[3];
    std::string kind;
    Observer<T> *obs() { return sc ? (Observer<T> *)sc.get() : sn ? (Observer<T> *)sn.get() : pt ? (Observer<T> *)pt.get() : (Observer<T> *)me.get(); }
    BaseObserver *base() override { return obs(); }
    Obs(const json &bb, const json &cc, std::string fn)
    {
        b = bb; cells = cc; file = fn; kind = b["kind"];
        Vector o = vec(b["o"], L), dx = vec(b["dx"], 2 * L), dy = vec(b["dy"], 2 * L);
        double t0 = b["t0"].get<double>() * TU, dt = b["dt"].get<double>() * TU;
        int nx = b["nx"], ny = b["ny"], nt = b["nt"];
        if (kind == "screen") sc.reset(new ScreenObserver<T>(fn, o, dx, dy, nx, ny, t0, dt, b["dtx"].get<double>() * TU, b["dty"].get<double>() * TU, nt));
        else if (kind == "snapshot") sn.reset(new SnapshotObserver<T>(fn, o, dx, dy, nx, ny, t0));
        else if (kind == "point") pt.reset(new PointObserver<T>(fn, o, t0, dt, nt));
        else
        {
            hid_t f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
            std::vector<double> corner, pos, t; std::vector<int> tri;
            for (auto &c : cells)
            {
                Vector x = vec(c["x"], L);
                double d[3][3] = {{1, 0, 0}, {0, 1, 0}, {-1, -1, 0}};
                for (int k = 0; k < 3; k++) { tri.push_back(corner.size() / 3); corner.push_back(x.x + d[k][0] * L); corner.push_back(x.y + d[k][1] * L); corner.push_back(x.z); }
                pos.push_back(x.x); pos.push_back(x.y); pos.push_back(x.z);
                t.push_back(c["t"].get<double>() * TU);
            }
            hsize_t n = nx;
            h5put(f, "MeshCornerPoints", {3 * n, 3}, corner); h5putattr(f, "MeshCornerPoints", "Ncp", 3 * nx);
            h5put(f, "ObservationPosition", {n, 3}, pos); h5putattr(f, "ObservationPosition", "Np", nx);
            h5put(f, "MeshTriangles", {n, 3}, tri); h5putattr(f, "MeshTriangles", "Ntri", nx);
            h5put(f, "ObservationTime", {n}, t); h5putattr(f, "ObservationTime", "Nt", nt); h5putattr(f, "ObservationTime", "dt", dt);
            H5Fclose(f);
            me.reset(new MeshedScreen<T>(fn));
            me->init();
        }
        for (int s = 1; s <= 2; s++) src[s] = source<T>(s, kind == "snapshot");
    }
    ~Obs() { for (int s = 1; s <= 2; s++) delete src[s]; }
    void integrate(int s) override { obs()->setSource(src[s]); obs()->integrate(); }
    ElMagField value(int s, double t, Vector X) override { return kind == "snapshot" ? ret<T>(src[s], s, t, X) : F(s, t, X); }
    ElMagField get(int ix, int iy, int it) override
    {
        if (sc) return sc->getField(ix, iy, it);
        if (sn) return sn->getField(ix, iy);
        if (pt) return pt->getField(it);
        return me->get_trace(ix).get_field((std::size_t)it);
    }
    void set(int ix, int iy, int it, ElMagField f) override
    {
        if (sc) sc->setField(ix, iy, it, f);
        else if (sn) sn->setField(ix, iy, f);
        else if (pt) pt->setField(it, f);
        else { FieldTrace t = me->get_trace(ix); t.set_field((std::size_t)it, f); me->set_trace(ix, t); }
    }
    void zero() override { if (me) me->zero(); }
};
static Any *create(const json &b, const json &cells, std::string fn)
{
    if (b["type"] == "beam") return new Obs<Beam>(b, cells, fn);
    if (b["type"] == "bunch") return new Obs<Bunch>(b, cells, fn);
    return new Obs<Lattice>(b, cells, fn);
}
static ElMagField Const(double v) { return ElMagField(Vector(v, 2 * v, -v), Vector(3 * v, v, 5 * v)) * FU; }

int main(int argc, char **argv)
{
    teufel::rank = 1;
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    std::ostream quiet(nullptr);
    std::cout.rdbuf(quiet.rdbuf());
    char tmpl[] = "obsXXXXXX";
    std::string dir = mkdtemp(tmpl);
    int rc = drive(argc, argv, [&](const json &b) -> json {
        L = b["L"]; TU = b["TU"]; FU = b["FU"]; spin = b["spin"];
        json bad = json::array(); int k = 0; long n = 0, files = 0;
        std::vector<std::unique_ptr<Any>> o(b["R"].get<int>() + 1);
        std::vector<json> now(b["R"].get<int>() + 1);
        for (auto &c : b["h"])
        {
            std::string op = c["op"]; int r = c["r"];
            auto err = [&](const std::string &s) { if (bad.size() < 6) bad.push_back("call " + std::to_string(k) + " " + op + ": " + s); };
            bool exc = false;
            std::string why;
            auto same = [&](double a, double w, double scale) { return std::fabs(a - w) <= 1e-9 * scale; };
            // expected value of one sample
            auto want = [&](Any *a, const json &st, int cell, int it, double &mag) {
                const json &ce = a->cells[cell];
                double t = (ce["t"].get<double>() + it * a->b["dt"].get<double>()) * TU;
                Vector x = vec(ce["x"], L);
                const json *cc = &st["c"]; double v = 0;
                int nt = a->b["nt"];
                for (auto &s : st["sp"]) if (s["i"].get<int>() == cell * nt + it) { cc = &s["c"]; v = s["v"]; }
                ElMagField f = Const(v); mag = std::fabs(v) * 5 * FU;
                for (int s = 1; s <= 2; s++)
                {
                    double w = (*cc)[s - 1];
                    if (w != 0) { ElMagField g = a->value(s, t, x) * w; f += g; mag += g.E().norm() + g.B().norm() * (a->b["kind"] == "snapshot" ? SpeedOfLight : 1.0); }
                    if (a->b["type"] != "lattice" && a->b["kind"] != "snapshot") mag += std::fabs(w) * FU * 1e3;
                }
                return f;
            };
            auto check = [&](int q) {
                Any *a = o[q].get();
                int nt = a->b["nt"];
                for (size_t cell = 0; cell < a->cells.size(); cell++) for (int it = 0; it < nt; it++)
                {
                    double mag; ElMagField w = want(a, now[q], cell, it, mag), g = a->get(a->cells[cell]["ix"], a->cells[cell]["iy"], it);
                    n++;
                    double bs = a->b["kind"] == "snapshot" ? SpeedOfLight : 1.0;
                    if (!((g.E() - w.E()).norm() <= 1e-9 * mag) || !((g.B() - w.B()).norm() * bs <= 1e-9 * mag))
                    {
                        char s[300]; snprintf(s, 300, "observer %d (%s/%s) cell %zu sample %d: E (%.8g %.8g %.8g) expected (%.8g %.8g %.8g)", q, a->b["kind"].get<std::string>().c_str(), a->b["type"].get<std::string>().c_str(), cell, it,
                                              g.E().x / FU, g.E().y / FU, g.E().z / FU, w.E().x / FU, w.E().y / FU, w.E().z / FU);
                        err(s); return;
                    }
                }
            };
            try
            {
                if (op == "new") o[r].reset(create(c["b"], c["cells"], dir + "/o" + std::to_string(r)));
                else if (op == "integrate") { omp_set_num_threads(c["n"]); o[r]->integrate(c["s"]); }
                else if (op == "set")
                {
                    int ix = c["ix"], iy = c["iy"], it = c["it"];
                    bool e1 = refused([&] { o[r]->set(ix, iy, it, Const(c["v"])); });
                    bool e2 = refused([&] { o[r]->get(ix, iy, it); });
                    if (e1 != e2) err("reading and writing disagree about the range");
                    if (e1) throw 1;
                }
                else if (op == "addbuf")
                {
                    std::unique_ptr<double[]> p(o[r]->base()->getBuffer()), q(o[c["q"].get<int>()]->base()->getBuffer());
                    size_t s = o[r]->base()->getBufferSize();
                    std::vector<double> sum(s);
                    for (size_t i = 0; i < s; i++) sum[i] = p[i] + q[i];
                    o[r]->base()->fromBuffer(sum.data(), s);
                }
                else if (op == "roundtrip")
                {
                    Any *a = o[r].get();
                    size_t s = a->base()->getBufferSize();
                    if (s != a->cells.size() * a->b["nt"].get<size_t>() * 6) err("buffer size");
                    std::vector<ElMagField> old;
                    for (auto &ce : a->cells) for (int it = 0; it < a->b["nt"].get<int>(); it++) old.push_back(a->get(ce["ix"], ce["iy"], it));
                    std::unique_ptr<double[]> p(a->base()->getBuffer());
                    // clear before restoring
                    std::vector<double> z(s, 0.0);
                    a->base()->fromBuffer(z.data(), s);
                    for (auto &ce : a->cells) for (int it = 0; it < a->b["nt"].get<int>(); it++) { ElMagField g = a->get(ce["ix"], ce["iy"], it); if (g.E().norm() != 0 || g.B().norm() != 0) { err("zero buffer"); break; } }
                    a->base()->fromBuffer(p.get(), s);
                    size_t i = 0;
                    for (auto &ce : a->cells) for (int it = 0; it < a->b["nt"].get<int>(); it++, i++)
                    {
                        ElMagField g = a->get(ce["ix"], ce["iy"], it);
                        if (g.E().x != old[i].E().x || g.E().y != old[i].E().y || g.E().z != old[i].E().z || g.B().x != old[i].B().x || g.B().y != old[i].B().y || g.B().z != old[i].B().z) { err("round trip is lossy"); break; }
                    }
                }
                else if (op == "badbuf")
                {
                    long s = (long)o[r]->base()->getBufferSize();
                    std::vector<double> z(s + 8, 1.0);
                    o[r]->base()->fromBuffer(z.data(), s + c["d"].get<int>());
                }
                else if (op == "zero") o[r]->zero();
                else if (op == "file")
                {
                    Any *a = o[r].get(); files++;
                    unlink(a->file.c_str());
                    a->base()->generateOutput();
                    std::string kind = a->b["kind"];
                    int nx = a->b["nx"], ny = a->b["ny"], nt = a->b["nt"];
                    auto get = [&](int cell, int it, int comp) { ElMagField g = a->get(a->cells[cell]["ix"], a->cells[cell]["iy"], it); Vector v = comp < 3 ? g.E() : g.B(); return comp % 3 == 0 ? v.x : comp % 3 == 1 ? v.y : v.z; };
                    if (kind == "point")
                    {
                        std::ifstream f(a->file); std::string line; std::vector<double> rows;
                        bool data = false; std::vector<double> par;
                        while (std::getline(f, line))
                        {
                            if (line.compare(0, 5, "&data") == 0) { data = true; continue; }
                            if (!data || line.empty() || line[0] == '!' || line[0] == '&') continue;
                            std::istringstream is(line); double v; std::vector<double> row;
                            while (is >> v) row.push_back(v);
                            if (row.size() == 7) rows.insert(rows.end(), row.begin(), row.end()); else if (row.size() == 1) par.push_back(row[0]);
                        }
                        if ((int)rows.size() != 7 * nt) err("number of rows in file");
                        else for (int it = 0; it < nt; it++)
                        {
                            if (!same(rows[7 * it], (a->b["t0"].get<double>() + it * a->b["dt"].get<double>()) * TU, TU)) err("time in file");
                            for (int m = 0; m < 6; m++) if (!(std::fabs(rows[7 * it + 1 + m] - get(0, it, m)) <= 1e-12 * std::fabs(get(0, it, m)))) { err("field in file"); break; }
                        }
                        // parameters: number of steps, start and spacing
                        double wantp[3] = {(double)nt, a->b["t0"].get<double>() * TU, a->b["dt"].get<double>() * TU};
                        for (int m = 0; m < 3; m++) { bool f2 = false; for (double v : par) f2 = f2 || same(v, wantp[m], std::max(std::fabs(wantp[m]), 1e-30)); if (!f2) err("parameter " + std::to_string(m) + " in file"); }
                    }
                    else
                    {
                        hid_t f = H5Fopen(a->file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
                        if (f < 0) { err("file missing"); throw 2; }
                        std::vector<hsize_t> d; double v;
                        std::vector<double> p = h5data(f, "ObservationPosition", d);
                        std::vector<hsize_t> wd = kind == "mesh" ? std::vector<hsize_t>{(hsize_t)nx, 3} : std::vector<hsize_t>{(hsize_t)nx, (hsize_t)ny, 3};
                        if (d != wd) err("shape of positions in file");
                        else for (size_t i = 0; i < a->cells.size(); i++) { Vector x = vec(a->cells[i]["x"], L); if (!same(p[3 * i], x.x, L * 1e3) || !same(p[3 * i + 1], x.y, L * 1e3) || !same(p[3 * i + 2], x.z, L * 1e3)) { err("cell position in file"); break; } }
                        std::vector<double> e = h5data(f, "ElMagField", d);
                        wd = kind == "mesh" ? std::vector<hsize_t>{(hsize_t)nx, (hsize_t)nt, 6} : kind == "screen" ? std::vector<hsize_t>{(hsize_t)nx, (hsize_t)ny, (hsize_t)nt, 6} : std::vector<hsize_t>{(hsize_t)nx, (hsize_t)ny, 6};
                        if (d != wd) err("shape of fields in file");
                        else for (size_t i = 0; i < e.size(); i++) if (e[i] != get(i / (6 * nt), (i / 6) % nt, i % 6)) { err("field in file"); break; }
                        auto attr = [&](const char *ds, const char *nm, double w, double sc) { if (!h5attr(f, ds, nm, v)) err(std::string("no attribute ") + ds + "/" + nm); else if (!same(v, w, sc)) err(std::string("attribute ") + ds + "/" + nm); };
                        double t0 = a->b["t0"].get<double>() * TU, dt = a->b["dt"].get<double>() * TU;
                        if (kind == "screen")
                        {
                            attr("Screen", "Nx", nx, 1); attr("Screen", "Ny", ny, 1); attr("Screen", "NOTS", nt, 1); attr("Screen", "t0", t0, TU); attr("Screen", "dt", dt, TU);
                            attr("Screen", "dtx", a->b["dtx"].get<double>() * TU, TU); attr("Screen", "dty", a->b["dty"].get<double>() * TU, TU);
                            attr("ElMagField", "t0", t0, TU); attr("ElMagField", "dt", dt, TU); attr("ElMagField", "NOTS", nt, 1);
                            attr("ObservationPosition", "Nx", nx, 1); attr("ObservationPosition", "Ny", ny, 1);
                            std::vector<double> s = h5data(f, "Screen", d);
                            if (d != std::vector<hsize_t>{4, 3}) err("shape of screen data");
                            else
                            {
                                Vector w[3] = {vec(a->b["o"], L), vec(a->b["dx"], 2 * L), vec(a->b["dy"], 2 * L)}; int row[3] = {0, 2, 3};
                                for (int m = 0; m < 3; m++) if ((Vector(s[3 * row[m]], s[3 * row[m] + 1], s[3 * row[m] + 2]) - w[m]).norm() > 1e-9 * L * 1e3) err("screen vectors in file");
                                Vector nn(s[3], s[4], s[5]);
                                // (x, y, -n) right handed
                                if (cross(w[1], w[2]).norm() > 0 && !(dot(nn, cross(w[1], w[2])) < -0.999999 * cross(w[1], w[2]).norm() && std::fabs(nn.norm() - 1) < 1e-9)) err("screen normal in file");
                            }
                        }
                        else if (kind == "snapshot") { attr("ElMagField", "t0", t0, TU); attr("ObservationPosition", "Nx", nx, 1); attr("ObservationPosition", "Ny", ny, 1); }
                        else
                        {
                            attr("ObservationTime", "Nt", nt, 1); attr("ObservationTime", "dt", dt, TU); attr("ObservationPosition", "Np", nx, 1);
                            std::vector<double> t = h5data(f, "ObservationTime", d);
                            for (size_t i = 0; i < a->cells.size() && i < t.size(); i++) if (!same(t[i], a->cells[i]["t"].get<double>() * TU, TU)) { err("start time in file"); break; }
                        }
                        H5Fclose(f);
                    }
                    unlink(a->file.c_str());
                }
                else err("unknown");
            }
            catch (std::exception &e) { exc = true; why = e.what(); }
            catch (...) { exc = true; }
            if (exc != c["exc"].get<bool>()) err(exc ? "unexpected exception " + why : "not refused");
            now[r] = c["now"];
            try { check(r); } catch (...) { err("exception while reading"); }
            k++;
            if (k == (int)b["h"].size()) for (size_t q = 1; q < o.size(); q++) if (o[q]) { try { check(q); } catch (...) { err("exception while reading"); } }
        }
        return json{{"obs", bad}, {"n", n}, {"files", files}};
    });
    std::string cmd = "rm -rf ./" + dir;
    if (system(cmd.c_str())) {}
    return rc;
}
