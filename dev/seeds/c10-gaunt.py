S=dict(property='C10',needs='quantum parameter of order one',breaks='Gaunt factor uses the wrong logarithm argument in the corrected radiation reaction',
edits=[('Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp','std::log(1.0 + 1.7 * eta)','std::log(1.0 + 1.7) * eta')],
demo=r'''
#include <bits/stdc++.h>
#include <cmath>
#define private public
#define protected public
#include "ModifiedLandauPusher.hh"
#include "StaticEMField.hh"
int main()
{
    StaticEMField f(ThreeVector(0, 0, 0), ThreeVector(0, 0, 0));
    ModifiedLandauPusher p(&f, 1.0);
    double eta = 2.0, g = p.gaunt(eta);
    double r = std::pow(1.0 + 4.8 * 3.0 * std::log(1.0 + 3.4) + 2.44 * 4.0, -2. / 3.);
    std::printf("%g %g\n", g, r);
    return std::fabs(g / r - 1) > 1e-9;
}
''')
