S=dict(property='C08',needs='a slow particle in a magnetic field',breaks='The magnetic force in the quantum parameter is not reduced by the speed of the particle',
edits=[('Source/Physics/Processes/PhotonEmission.cpp','(ePerp + part->GetBeta() * partDir.Cross(bField)).Mag2()','(ePerp + partDir.Cross(bField)).Mag2()')],
demo=r'''
#include <bits/stdc++.h>
#define private public
#define protected public
#include "StochasticEmission.hh"
#include "StaticEMField.hh"
#include "ParticleList.hh"
int main()
{
    StaticEMField f(ThreeVector(0, 0, 0), ThreeVector(1e-3, 0, 0));
    StochasticEmission p(&f, 1.0, 1.0, 0.0);
    Lepton e(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 0.75));
    double eta = p.CalculateEta(&e);
    std::printf("%g\n", eta);
    return std::fabs(eta - 0.75e-3) < 1e-12 ? 0 : 1;
}
''')
