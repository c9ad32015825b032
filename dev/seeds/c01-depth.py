S=dict(property='C01',needs='a photon that has already converted, offered to pair production again',breaks='A dead photon keeps losing optical depth',
edits=[('Source/Physics/Processes/NonLinearBreitWheeler.cpp','    if (part->GetType() != "Photon" || part->IsAlive() == false) return;','    if (part->GetType() != "Photon") return;'),
('Source/Physics/Processes/NonLinearBreitWheeler.cpp','    if (part->GetOpticalDepth() < 0.0)\n','    if (part->IsAlive() && part->GetOpticalDepth() < 0.0)\n')],
demo=r'''
#include <bits/stdc++.h>
#include "NonLinearBreitWheeler.hh"
#include "StaticEMField.hh"
#include "ParticleList.hh"
#include "Photon.hh"
int main()
{
    StaticEMField f(ThreeVector(1e-3, 0, 0), ThreeVector(0, 0, 0));
    NonLinearBreitWheeler p(&f, 10.0);
    ParticleList l("event");
    Photon g(1000.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    g.Kill();
    double a = g.GetOpticalDepth();
    p.Interact(&g, &l);
    std::printf("%.17g %.17g\n", a, g.GetOpticalDepth());
    return a == g.GetOpticalDepth() ? 0 : 1;
}
''')
