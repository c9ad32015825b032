S=dict(property='C05',needs='a minimum photon energy above the emitted energy',breaks='Quantum emission whose photon is not recorded no longer recoils the emitter',
edits=[('Source/Physics/Processes/StochasticEmission.cpp','        part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);\n        // Add','        // Add'),
('Source/Physics/Processes/StochasticEmission.cpp','        {\n            Photon* photon','        {\n            part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);\n            Photon* photon')],
demo=r'''
#include <bits/stdc++.h>
#include "StochasticEmission.hh"
#include "StaticEMField.hh"
#include "ParticleList.hh"
int main()
{
    StaticEMField f(ThreeVector(0, 0, 0), ThreeVector(1e-3, 0, 0));
    StochasticEmission p(&f, 1e9, 1.0, 1e30);
    ParticleList l("event");
    Lepton e(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000));
    p.Interact(&e, &l);
    double pz = e.GetMomentum()[2];
    std::printf("pz %g\n", pz);
    return pz < 1000 ? 0 : 1;
}
''')
