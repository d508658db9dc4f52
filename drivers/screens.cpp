// Driver for C09: recorded screens used as sources, and mesh files.
#include "common.h"
#include "h5read.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"
#include "screen.h"
#include "source_screen.h"
#include "mesh.h"
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

static double L, T, FU;
static std::string dir;
static double rat(const json &r) { return r[0].get<double>() / r[1].get<double>(); }
static void shorten(const std::string &p)
{
    struct stat s;
    if (stat(p.c_str(), &s) == 0 && truncate(p.c_str(), s.st_size / 2)) {}
}
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * scale; }

//------------------------------------------------------------------ recorded screens
static void write_screen(const std::string &fn, const json &f, Vector o, double t0, const json &data, const std::string &bad, bool dtx, bool dty)
{
    hsize_t nx = f["nx"].get<int>(), ny = f["ny"].get<int>(), nt = f["nt"].get<int>(), nc = 6;
    Vector dx = vec(f["g"]["dx"], L), dy = vec(f["g"]["dy"], L), n = vec(f["g"]["nv"], 1.0 / f["g"]["nl"].get<double>());
    hid_t h = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    std::vector<double> s = {o.x, o.y, o.z, n.x, n.y, n.z, dx.x, dx.y, dx.z, dy.x, dy.y, dy.z};
    if (bad != "noscreen")
    {
        hsize_t r = 4, c = 3;
        if (bad == "screen3") { r = 3; s.resize(9); }
        if (bad == "screen5") { r = 5; s.resize(15, 1.0); }
        if (bad == "screen4x4") { c = 4; s.resize(16, 1.0); }
        h5put(h, "Screen", {r, c}, s);
        if (bad != "noNx") h5putattr(h, "Screen", "Nx", (int)nx);
        if (bad != "noNy") h5putattr(h, "Screen", "Ny", (int)ny);
        if (bad != "noNOTS") h5putattr(h, "Screen", "NOTS", (int)nt);
        h5putattr(h, "Screen", "t0", t0);
        if (bad != "nodt") h5putattr(h, "Screen", "dt", f["dt"].get<double>() * T);
        if (dtx) h5putattr(h, "Screen", "dtx", f["dtx"].get<double>() * T);
        if (dty) h5putattr(h, "Screen", "dty", f["dty"].get<double>() * T);
    }
    std::vector<double> v;
    for (auto &d : data) for (auto &c : d) v.push_back(c.get<double>() * FU);
    std::vector<hsize_t> dims = {nx, ny, nt, nc};
    if (bad == "nx+") dims[0]++; if (bad == "nx-") dims[0]--;
    if (bad == "ny+") dims[1]++; if (bad == "ny-") dims[1]--;
    if (bad == "nt+") dims[2]++; if (bad == "nt-") dims[2]--;
    if (bad == "comp3") dims[3] = 3; if (bad == "comp7") dims[3] = 7;
    if (bad == "rank3") dims = {nx * ny, nt, 6}; if (bad == "rank5") dims = {nx, ny, nt, 6, 1};
    if (bad == "swapped") dims = {nt, nx, ny, 6};
    size_t tot = 1;
    for (auto d : dims) tot *= d;
    v.resize(tot, 1.0);
    if (bad != "nofield") h5put(h, "ElMagField", dims, v);
    H5Fclose(h);
    if (bad == "truncated") shorten(fn);
}

static json screen_behaviour(const json &b)
{
    json bad = json::array(); int k = 0; long n = 0, lit = 0;
    std::string fn = dir + "/screen.h5", bf = dir + "/bad.h5";
    json f, data; Vector o; double t0 = 0; bool hx = true, hy = true;
    std::unique_ptr<SourceScreen> src;
    for (auto &c : b["h"])
    {
        std::string op = c["op"];
        auto err = [&](const std::string &s) { if (bad.size() < 6) bad.push_back("call " + std::to_string(k) + " " + op + ": " + s); };
        auto vecs = [&](Vector got, Vector want, double scale, const std::string &what) {
            n++;
            if ((got - want).norm() <= 1e-9 * scale) return;
            char s[300]; snprintf(s, 300, "%s is (%.9g %.9g %.9g) expected (%.9g %.9g %.9g)", what.c_str(), got.x, got.y, got.z, want.x, want.y, want.z);
            err(s);
        };
        try
        {
            if (op == "record")
            {
                f = c["f"]; data = c["data"]; o = vec(c["o"], L); t0 = c["t0"].get<double>() * T;
                unlink(fn.c_str());
                if (c["by"] == "observer")
                {
                    ScreenObserver<Bunch> s(fn, o, vec(f["g"]["dx"], L), vec(f["g"]["dy"], L), f["nx"], f["ny"], t0, f["dt"].get<double>() * T, f["dtx"].get<double>() * T, f["dty"].get<double>() * T, f["nt"]);
                    size_t i = 0;
                    for (int ix = 0; ix < f["nx"].get<int>(); ix++) for (int iy = 0; iy < f["ny"].get<int>(); iy++) for (int it = 0; it < f["nt"].get<int>(); it++, i++)
                        s.setField(ix, iy, it, ElMagField(vec(data[i], FU), Vector(data[i][3], data[i][4], data[i][5]) * FU));
                    s.generateOutput();
                }
                else write_screen(fn, f, o, t0, data, "", true, true);
            }
            else if (op == "optional")
            {
                hx = c["dtx"]; hy = c["dty"];
                unlink(fn.c_str());
                write_screen(fn, f, o, t0, data, "", hx, hy);
            }
            else if (op == "bad")
            {
                std::string w = c["what"];
                unlink(bf.c_str());
                bf = dir + "/bad" + std::to_string(n) + "_" + std::to_string(k) + ".h5";
                if (w == "garbage") { std::ofstream g(bf); g << "this is not a screen\n"; }
                else if (w != "nofile")
                {
                    json g = f, d = data;
                    if (w == "single") { g["nt"] = 1; d = json::array(); for (size_t i = 0; i < data.size(); i += f["nt"].get<int>()) d.push_back(data[i]); }
                    write_screen(bf, g, o, t0, d, w, hx, hy);
                }
                std::unique_ptr<SourceScreen> x;
                if (!refused([&] { x.reset(new SourceScreen(bf, Vector(0, 0, 0), 0.0)); })) err("file with defect '" + w + "' accepted");
                n++;
                unlink(bf.c_str());
            }
            else if (op == "load") src.reset(new SourceScreen(fn, vec(c["o"], L), c["t0"].get<double>() * T));
            else if (op == "query")
            {
                ElMagField e = src->Field(c["t"].get<double>() * T, vec(c["x"], L));
                double w[6] = {0, 0, 0, 0, 0, 0}, mag = 0, u = FU * f["g"]["a"].get<double>() / (4.0 * Pi);
                for (auto &cell : c["f"]) for (int i = 0; i < 6; i++) { w[i] += rat(cell[i]) * u; mag += std::fabs(rat(cell[i]) * u); }
                if (!c["f"].empty()) lit++;
                vecs(e.E(), Vector(w[0], w[1], w[2]), mag, "E"); vecs(e.B(), Vector(w[3], w[4], w[5]), mag, "B");
            }
            else if (op == "energy")
            {
                double u = FU * FU * T / MuNull;
                double m = u * 64 * 2 * f["nt"].get<double>() * f["dt"].get<double>();
                vecs(src->Poynting(c["ix"].get<int>(), c["iy"].get<int>()), Vector(rat(c["s"][0]), rat(c["s"][1]), rat(c["s"][2])) * u, m, "energy flow density");
                double a = m * L * L * f["g"]["a"].get<double>() * f["nx"].get<double>() * f["ny"].get<double>();
                double e = src->totalEnergy(), w = rat(c["total"]) * u * L * L;
                n++;
                if (!near(e, w, a)) err("total energy " + std::to_string(e / u / L / L) + " expected " + std::to_string(rat(c["total"])));
            }
            else err("unknown");
        }
        catch (std::exception &e) { err(std::string("exception ") + e.what()); }
        catch (...) { err("exception"); }
        k++;
    }
    return json{{"obs", bad}, {"n", n}, {"lit", lit}};
}

//------------------------------------------------------------------ meshes
static int val(int v, int it, int c) { return v == 0 ? 0 : (((v * (c + 1) + it * (7 + c) + v * v) % 13) + 13) % 13 - 6; }

static void write_mesh(const std::string &fn, const json &f, const json &pos, const std::string &bad)
{
    int np = f["tri"].size(), ncp = f["pts"].size(), nt = f["nt"];
    std::vector<double> c, p; std::vector<int> t;
    for (auto &x : f["pts"]) for (auto &v : x) c.push_back(v.get<double>() * L);
    for (auto &x : pos) for (auto &v : x) p.push_back(v.get<double>() * L / 3.0);
    for (auto &x : f["tri"]) for (auto &v : x) t.push_back(v);
    hid_t h = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    int dcp = bad == "ncp_big" ? 1 : bad == "ncp_small" ? -1 : 0, dnp = bad == "np_big" ? 1 : bad == "np_small" ? -1 : 0;
    int prow = np + (bad == "pos_long") - (bad == "pos_short"), trow = np + (bad == "tri_long") - (bad == "tri_short");
    if (bad != "no_corners") { h5put(h, "MeshCornerPoints", {(hsize_t)ncp, 3}, c); if (bad != "ncp_attr") h5putattr(h, "MeshCornerPoints", "Ncp", ncp + dcp); }
    p.resize(prow * 3, L);
    if (bad != "no_pos") { h5put(h, "ObservationPosition", {(hsize_t)prow, 3}, p); if (bad != "np_attr") h5putattr(h, "ObservationPosition", "Np", np + dnp); }
    if (bad == "index_high") t[t.size() / 2] = ncp;
    if (bad == "index_neg") t[t.size() / 2] = -1;
    t.resize(trow * 3, 0);
    if (bad != "no_tri") { h5put(h, "MeshTriangles", {(hsize_t)trow, 3}, t); h5putattr(h, "MeshTriangles", "Ntri", np); }
    if (f["hast"].get<bool>() && bad != "notime")
    {
        std::vector<double> s;
        for (auto &x : f["t0"]) s.push_back(x.get<double>() * T);
        s.resize(np + (bad == "time_long") - (bad == "time_short"), 0.0);
        h5put(h, "ObservationTime", {s.size()}, s);
        if (bad != "nt_attr") h5putattr(h, "ObservationTime", "Nt", nt);
        if (bad != "dt_attr") h5putattr(h, "ObservationTime", "dt", f["dt"].get<double>() * T);
    }
    if (f["hasf"].get<bool>())
    {
        std::vector<double> e;
        for (auto &v : f["v"]) for (int it = 0; it < nt; it++) for (int k = 1; k <= 6; k++) e.push_back(val(v, it, k) * FU);
        std::vector<hsize_t> d = {(hsize_t)np, (hsize_t)nt, 6};
        if (bad == "field_np") d[0]++; if (bad == "field_nt") d[1]++; if (bad == "field_nt-") d[1]--; if (bad == "field_comp") d[2] = 5; if (bad == "field_rank") d = {(hsize_t)(np * nt), 6};
        size_t n = 1; for (auto x : d) n *= x;
        e.resize(n, 0.0);
        h5put(h, "ElMagField", d, e);
    }
    H5Fclose(h);
    if (bad == "truncated") shorten(fn);
}

static json mesh_behaviour(const json &b)
{
    json bad = json::array(); int k = 0; long n = 0;
    std::unique_ptr<MeshedScreen<Beam>> m;
    json pos, geo;
    std::string fn[3];
    // a refused or replaced object may keep its file open in the HDF5 library: names are therefore used once
    auto fresh = [&](int d) { unlink(fn[d].c_str()); fn[d] = dir + "/mesh" + std::to_string(d) + "_" + std::to_string(k) + ".h5"; };
    for (auto &c : b["h"])
    {
        std::string op = c["op"]; const json &a = c["a"], &w = c["mem"];
        auto err = [&](const std::string &s) { if (bad.size() < 6) bad.push_back("call " + std::to_string(k) + " " + op + ": " + s); };
        try
        {
            if (op == "create") { if (m && w["file"] == a["d"]) unlink(fn[a["d"].get<int>()].c_str()); else fresh(a["d"]); write_mesh(fn[a["d"].get<int>()], a["f"], a["pos"], ""); }
            else if (op == "load") { m.reset(new MeshedScreen<Beam>(fn[a["d"].get<int>()])); pos = a["pos"]; geo = nullptr; }
            else if (op == "bad")
            {
                // the content is that of the file as created last: the harness keeps it beside the file
                std::string bf = dir + "/bad" + std::to_string(k) + ".h5", wt = a["what"];
                if (wt == "garbage") { std::ofstream g(bf); g << "this is not a mesh\n"; }
                else if (wt != "nofile") write_mesh(bf, a["f"], a["pos"], wt);
                std::unique_ptr<MeshedScreen<Beam>> x;
                if (!refused([&] { x.reset(new MeshedScreen<Beam>(bf)); })) err("file with defect '" + wt + "' accepted");
                n++;
                unlink(bf.c_str());
            }
            else if (op == "init") { m->init(); geo = a; }
            else if (op == "set")
            {
                FieldTrace t = m->get_trace(a["i"].get<int>() - 1);
                t.set_t0(a["t0"].get<double>() * T);
                for (int it = 0; it < w["nt"].get<int>(); it++)
                {
                    double x[6]; for (int q = 0; q < 6; q++) x[q] = val(a["v"], it, q + 1) * FU;
                    t.set_field((std::size_t)it, ElMagField(Vector(x[0], x[1], x[2]), Vector(x[3], x[4], x[5])));
                }
                m->set_trace(a["i"].get<int>() - 1, t);
            }
            else if (op == "setbad")
            {
                FieldTrace t(0.0, w["dt"].get<double>() * T, a["n"].get<int>());
                if (!refused([&] { m->set_trace(a["i"].get<int>() - 1, t); })) err("trace of another length accepted");
            }
            else if (op == "zero") m->zero();
            else if (op == "write")
            {
                int d = a["d"];
                if (a["own"].get<bool>()) m->writeFile();
                else { if (w["file"].get<int>() != d) fresh(d); m->writeFile(fn[d]); }
                hid_t f = H5Fopen(fn[d].c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
                if (f < 0) throw std::runtime_error("no file written");
                std::vector<hsize_t> dm;
                hsize_t np = w["tri"].size(), ncp = w["pts"].size(), nt = w["nt"].get<int>();
                auto data = [&](const char *nm, std::vector<hsize_t> want) { std::vector<double> v = h5data(f, nm, dm); if (dm != want) { err(std::string("shape of ") + nm); v.clear(); } return v; };
                auto attr = [&](const char *ds, const char *nm, double wv) { double v; n++; if (!h5attr(f, ds, nm, v) || !near(v, wv, std::fabs(wv))) err(std::string("attribute ") + ds + "/" + nm); };
                auto put = [&](const std::vector<double> &v, std::function<double(size_t)> want, double sc, const char *nm) { for (size_t i = 0; i < v.size(); i++) { n++; if (!near(v[i], want(i), sc)) { err(std::string(nm) + " in file"); return; } } };
                put(data("MeshCornerPoints", {ncp, 3}), [&](size_t i) { return w["pts"][i / 3][i % 3].get<double>() * L; }, L, "corner points");
                put(data("ObservationPosition", {np, 3}), [&](size_t i) { return pos[i / 3][i % 3].get<double>() * L / 3.0; }, L, "positions");
                put(data("MeshTriangles", {np, 3}), [&](size_t i) { return w["tri"][i / 3][i % 3].get<double>(); }, 1, "triangles");
                put(data("ObservationTime", {np}), [&](size_t i) { return w["t0"][i].get<double>() * T; }, T, "start times");
                put(data("ElMagField", {np, nt, 6}), [&](size_t i) { return val(w["v"][i / (6 * nt)], (i / 6) % nt, i % 6 + 1) * FU; }, FU, "fields");
                attr("MeshCornerPoints", "Ncp", ncp); attr("ObservationPosition", "Np", np); attr("MeshTriangles", "Ntri", np);
                attr("ObservationTime", "Nt", nt); attr("ObservationTime", "dt", w["dt"].get<double>() * T);
                H5Fclose(f);
            }
            else err("unknown");
            // the mesh in memory
            if (m && w["kind"] == "mesh")
            {
                int np = w["tri"].size(), nt = w["nt"];
                if (m->get_Np() != np || m->get_Nt() != nt) { err("size of the mesh"); throw 1; }
                if (!near((double)m->get_dt(), w["dt"].get<double>() * T, T)) err("time step");
                for (int i = 0; i < np; i++)
                {
                    n++;
                    Vector x = Vector(pos[i][0], pos[i][1], pos[i][2]) * (L / 3.0);
                    if ((m->get_point(i) - x).norm() > 1e-9 * L) err("position of cell " + std::to_string(i));
                    if (!near(m->get_t0(i), w["t0"][i].get<double>() * T, T)) err("start time of cell " + std::to_string(i));
                    FieldTrace t = m->get_trace(i);
                    if ((int)t.get_N() != nt || !near(t.get_t0(), w["t0"][i].get<double>() * T, T) || !near(t.get_dt(), w["dt"].get<double>() * T, T)) err("trace of cell " + std::to_string(i));
                    else for (int it = 0; it < nt; it++)
                    {
                        ElMagField e = t.get_field((std::size_t)it);
                        double g[6] = {e.E().x, e.E().y, e.E().z, e.B().x, e.B().y, e.B().z};
                        for (int q = 0; q < 6; q++) if (!near(g[q], val(w["v"][i], it, q + 1) * FU, FU)) { err("field of cell " + std::to_string(i) + " sample " + std::to_string(it)); break; }
                    }
                    if (geo.is_null()) continue;
                    // derived quantities
                    Vector nv = vec(geo["n"][i]), an(0, 0, 0), nn = m->get_normal(i), xi = m->get_xi(i), eta = m->get_eta(i);
                    for (auto &g : geo["n"]) { Vector u = vec(g); u.normalize(); an += u; }
                    an.normalize();
                    if (!near(m->get_area(i), 0.5 * nv.norm() * L * L, L * L)) err("area of cell " + std::to_string(i));
                    if (!((nn - nv / nv.norm()).norm() <= 1e-9)) err("normal of cell " + std::to_string(i));
                    if (!(std::fabs(xi.norm() - 1) <= 1e-9 && std::fabs(eta.norm() - 1) <= 1e-9 && (cross(xi, eta) - nn).norm() <= 1e-9)) err("local frame of cell " + std::to_string(i));
                    if (std::fabs(an.y) < 0.6 && !(std::fabs(xi.y) <= 1e-9)) err("xi of cell " + std::to_string(i) + " leaves the x-z plane");
                    if (std::fabs(an.y) > 0.8 && !(std::fabs(eta.x) <= 1e-9)) err("eta of cell " + std::to_string(i) + " leaves the y-z plane");
                    std::vector<int> nb(np + 4, -1), got(np, 0);
                    int cnt = m->get_Neighbourhood(i, nb.data());
                    for (int q = 0; q < cnt && q < np; q++) if (nb[q] >= 0 && nb[q] < np) got[nb[q]]++;
                    for (int q = 0; q < np; q++) if (got[q] != geo["nbh"][i][q].get<int>()) { err("neighbourhood of cell " + std::to_string(i)); break; }
                }
                if (!geo.is_null())
                {
                    double u = FU * FU * T * L * L / MuNull, e = m->totalEnergy(), s = 0;
                    for (auto &g : geo["n"]) s += vec(g).norm() * 36 * 2 * nt * (1 + w["dt"].get<double>());
                    n++;
                    if (!near(e, 0.5 * c["flow"].get<double>() * u, s * u)) err("total energy " + std::to_string(e / u) + " expected " + std::to_string(0.5 * c["flow"].get<double>()));
                    std::ostringstream os;
                    m->writeReport(&os);
                }
            }
        }
        catch (std::exception &e) { err(std::string("exception ") + e.what()); }
        catch (...) { err("exception"); }
        k++;
    }
    for (int d = 1; d <= 2; d++) unlink(fn[d].c_str());
    return json{{"obs", bad}, {"n", n}, {"lit", 0}};
}

int main(int argc, char **argv)
{
    teufel::rank = 1;
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    std::ostream quiet(nullptr);
    std::cout.rdbuf(quiet.rdbuf());
    if (argc < 3) return 3;
    char *in = realpath(argv[1], NULL);
    std::ofstream(argv[2]).close();
    char *out = realpath(argv[2], NULL);
    char tmpl[] = "scrXXXXXX";
    char *d = realpath(mkdtemp(tmpl), NULL);
    dir = d;
    // source screens leave debugging files in the working directory
    if (chdir(d)) return 3;
    char *av[3] = {argv[0], in, out};
    int rc = drive(3, av, [&](const json &b) -> json {
        L = b["L"]; T = L / SpeedOfLight; FU = b["FU"];
        if (b["kind"] == "mesh") T = b["T"];
        return b["kind"] == "mesh" ? mesh_behaviour(b) : screen_behaviour(b);
    });
    if (chdir("/")) {}
    std::string cmd = "rm -rf " + dir;
    if (system(cmd.c_str())) {}
    return rc;
}
