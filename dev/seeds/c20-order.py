S=dict(property='C20',needs='a three-dimensional array with unequal sides',breaks='Three-dimensional arrays are written with their sides in reverse order',
edits=[('Source/IO/Output/HDF5Output.cpp','hsize_t dimensions[3] = {xLength, yLength, zLength};','hsize_t dimensions[3] = {zLength, yLength, xLength};')],
demo=r'''
#include <bits/stdc++.h>
#include "HDF5Output.hh"
int main()
{
    double d[6] = {0, 1, 2, 3, 4, 5};
    { HDF5Output out("o.h5", false); out.AddArray3D(d, 1, 2, 3, "a"); }
    H5::H5File f("o.h5", H5F_ACC_RDONLY);
    hsize_t n[3];
    f.openDataSet("a").getSpace().getSimpleExtentDims(n);
    return n[0] == 1 && n[1] == 2 && n[2] == 3 ? 0 : 1;
}
''', ld='-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5')
