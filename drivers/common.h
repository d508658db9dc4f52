// Shared pieces of the conformance drivers: they read behaviours (one JSON object per line), execute them
// through the public API of the TEUFEL sources and write the observations (one JSON object per line).
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include "global.h"
#include "vector.h"
#include "fields.h"

using json = nlohmann::json;

// quantise: the value in the given unit must be an integer (relative tolerance), otherwise report it as text
inline json q(double x, double unit, double tol = 1e-6)
{
    double v = x / unit;
    if (!(std::fabs(v) < 9.0e15)) { char b[64]; snprintf(b, 64, "huge:%.6g", v); return std::string(b); }
    double r = std::round(v);
    if (std::fabs(v - r) > tol * (1.0 + 1e-3 * std::fabs(v))) { char b[64]; snprintf(b, 64, "nonint:%.12g", v); return std::string(b); }
    return (long long)r;
}

inline json qv(Vector v, double unit, double tol = 1e-6) { return json::array({q(v.x, unit, tol), q(v.y, unit, tol), q(v.z, unit, tol)}); }
inline Vector vec(const json &j, double unit = 1.0) { return Vector(j[0].get<double>() * unit, j[1].get<double>() * unit, j[2].get<double>() * unit); }

// run f; report whether it threw (any exception counts as refusal)
template <class F> bool refused(F f)
{
    try { f(); } catch (...) { return true; }
    return false;
}

inline int drive(int argc, char **argv, std::function<json(const json &)> f)
{
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        json b = json::parse(line);
        json r = f(b);
        out << r.dump() << "\n" << std::flush;
    }
    out.close();
    return 0;
}
