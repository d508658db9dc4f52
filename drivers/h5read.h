// minimal reading/writing of HDF5 files
#pragma once
#include "hdf5.h"
#include <string>
#include <vector>
static bool h5exists(hid_t f, const char *n) { return H5Lexists(f, n, H5P_DEFAULT) > 0; }
static std::vector<double> h5data(hid_t f, const char *name, std::vector<hsize_t> &dims)
{
    hid_t d = H5Dopen2(f, name, H5P_DEFAULT);
    if (d < 0) throw std::runtime_error(std::string("no dataset ") + name);
    hid_t s = H5Dget_space(d);
    int n = H5Sget_simple_extent_ndims(s);
    dims.assign(n, 0);
    H5Sget_simple_extent_dims(s, dims.data(), NULL);
    size_t tot = 1;
    for (auto x : dims) tot *= x;
    std::vector<double> v(tot);
    if (tot && H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) throw std::runtime_error("read error");
    H5Sclose(s); H5Dclose(d);
    return v;
}
static bool h5attr(hid_t f, const char *ds, const char *name, double &v)
{
    hid_t d = H5Dopen2(f, ds, H5P_DEFAULT);
    if (d < 0) return false;
    bool ok = false;
    if (H5Aexists(d, name) > 0)
    {
        hid_t a = H5Aopen(d, name, H5P_DEFAULT);
        ok = H5Aread(a, H5T_NATIVE_DOUBLE, &v) >= 0;
        H5Aclose(a);
    }
    H5Dclose(d);
    return ok;
}
template <class T> void h5put(hid_t f, const char *name, std::vector<hsize_t> dims, const std::vector<T> &v)
{
    hid_t ty = sizeof(T) == 8 ? H5T_NATIVE_DOUBLE : H5T_NATIVE_INT;
    hid_t s = H5Screate_simple(dims.size(), dims.data(), NULL);
    hid_t d = H5Dcreate2(f, name, ty, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    if (!v.empty()) H5Dwrite(d, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    H5Dclose(d); H5Sclose(s);
}
template <class T> void h5putattr(hid_t f, const char *ds, const char *name, T v)
{
    hid_t ty = sizeof(T) == 8 ? H5T_NATIVE_DOUBLE : H5T_NATIVE_INT;
    hid_t d = H5Dopen2(f, ds, H5P_DEFAULT), s = H5Screate(H5S_SCALAR);
    hid_t a = H5Acreate2(d, name, ty, s, H5P_DEFAULT, H5P_DEFAULT);
    H5Awrite(a, ty, &v);
    H5Aclose(a); H5Sclose(s); H5Dclose(d);
}
