// Evaluation of the symbolic field terms of spec/Elements.tla and construction of the elements.
#pragma once
#include "common.h"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"

static double rat(const json &j) { return j[0].get<double>() / j[1].get<double>(); }
static double fun(const json &f)
{
    std::string n = f[0];
    double a = rat(f[1]), tp = 2.0 * Pi;
    if (n == "sin") return sin(tp * a);
    if (n == "cos") return cos(tp * a);
    if (n == "sinh") return sinh(tp * a);
    if (n == "cosh") return cosh(tp * a);
    if (n == "sinhr") return sinh(tp * sqrt(a) * rat(f[2]));
    if (n == "coshr") return cosh(tp * sqrt(a) * rat(f[2]));
    if (n == "onep") return 1.0 + a * sin(tp * rat(f[2]));
    if (n == "isqrt") return 1.0 / sqrt(a);
    if (n == "atanpi") return atan(a) / Pi;
    if (n == "expmpi") return exp(-Pi * a);
    if (n == "expm2") return exp(-a * a);
    throw std::runtime_error("unknown function " + n);
}
// sum of the terms; mag accumulates the magnitudes (E, cB) for tolerances
static ElMagField terms(const json &ts, double EU, double BU, double mag[2])
{
    double v[6] = {0, 0, 0, 0, 0, 0};
    for (auto &t : ts)
    {
        std::string u = t["u"];
        double x = rat(t["q"]) * (u == "E" ? EU : u == "B" ? BU : EU / SpeedOfLight);
        for (auto &f : t["f"]) x *= fun(f);
        int c = t["c"].get<int>() - 1;
        v[c] += x;
        mag[c / 3] += fabs(x);
    }
    return ElMagField(Vector(v[0], v[1], v[2]), Vector(v[3], v[4], v[5]));
}
static GeneralField *element(const json &e, double L, double EU, double BU)
{
    std::string k = e["kind"];
    Vector o = vec(e["o"], L);
    double TU = L / SpeedOfLight;
    if (k == "planar") { auto *u = new PlanarUndulator(o); u->Setup(e["B"].get<double>() * BU, e["l"].get<double>() * L, e["n"]); return u; }
    if (k == "tgu")
    {
        auto *u = new TransverseGradientUndulator(o);
        double l = e["l"].get<double>() * L;
        u->Setup(e["B"].get<double>() * BU, e["k"].get<double>() / 4.0 * 2.0 * Pi / l, e["m"].get<double>() / 10.0, l, e["n"]);
        return u;
    }
    if (k == "hard") return new HardEdgeDipole(vec(e["b"], BU), vec(e["p1"], L), vec(e["n1"]), vec(e["p2"], L), vec(e["n2"]));
    if (k == "soft") return new SoftEdgeDipole(vec(e["b"], BU), vec(e["p1"], L), vec(e["n1"]), e["t1"].get<double>() * L, vec(e["p2"], L), vec(e["n2"]), e["t2"].get<double>() * L);
    if (k == "homog") return new HomogeneousField(vec(e["e"], EU), vec(e["b"], BU));
    if (k == "wave") { auto *w = new GaussianWave(0.0, o); w->Setup(e["l"].get<double>() * L, std::complex<double>(e["re"].get<double>() * EU, e["im"].get<double>() * EU), e["z"].get<double>() * L); return w; }
    if (k == "packet")
    {
        auto *w = new GaussianWavePacket(e["t"].get<double>() * TU, o);
        w->Setup(e["l"].get<double>() * L, std::complex<double>(e["re"].get<double>() * EU, e["im"].get<double>() * EU), e["z"].get<double>() * L, e["tau"].get<double>() * TU);
        return w;
    }
    throw std::runtime_error("unknown element " + k);
}
