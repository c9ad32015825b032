S=dict(property='C02',needs='a photon with less than two electron masses of energy in a strong field',breaks='Photons below the threshold of pair creation in vacuum are skipped by pair production',
edits=[('Source/Physics/Processes/NonLinearBreitWheeler.cpp','    double chi = CalculateChi(part);','    if (part->GetEnergy() <= 2.0) return;\n    double chi = CalculateChi(part);')],
demo=r'''
#include <bits/stdc++.h>
#include "NonLinearBreitWheeler.hh"
#include "StaticEMField.hh"
#include "ParticleList.hh"
#include "Photon.hh"
int main()
{
    StaticEMField f(ThreeVector(1.0, 0, 0), ThreeVector(0, 0, 0));
    NonLinearBreitWheeler p(&f, 1.0e-6);
    ParticleList l("event");
    Photon g(1.9, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    double a = g.GetOpticalDepth();
    p.Interact(&g, &l);
    std::printf("%.17g %.17g\n", a, g.GetOpticalDepth());
    return a != g.GetOpticalDepth() ? 0 : 1;
}
''')
