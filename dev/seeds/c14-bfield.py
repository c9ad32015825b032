S=dict(property='C14',needs='a field given by its magnetic part',breaks='The reference magnetic field is the reference electric field',
edits=[('Source/Tools/UnitsSystem.cpp','ref_bField   = SI_eSchw / SI_c;','ref_bField   = ref_eField;')],
demo=r'''
#include <bits/stdc++.h>
#include "UnitsSystem.hh"
int main()
{
    UnitsSystem u("SI");
    double r = u.RefEField() / u.RefBField() / 299792458.0;
    std::printf("%g\n", r);
    return std::fabs(r - 1.0) < 1e-3 ? 0 : 1;
}
''')
