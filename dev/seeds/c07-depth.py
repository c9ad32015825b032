S=dict(property='C07',needs='an emission below the minimum photon energy',breaks='After an emission that is not recorded the emitter keeps its spent optical depth',
edits=[('Source/Physics/Processes/StochasticEmission.cpp','            partList->AddParticle(photon);\n        }\n        part->InitOpticalDepth();\n','            partList->AddParticle(photon);\n            part->InitOpticalDepth();\n        }\n')],
demo=r'''
#include <bits/stdc++.h>
#include "StochasticEmission.hh"
#include "StaticEMField.hh"
#include "ParticleList.hh"
int main()
{
    StaticEMField f(ThreeVector(1e-3, 0, 0), ThreeVector(0, 0, 0));
    StochasticEmission p(&f, 1e9, 1.0, 1e30);
    ParticleList l("event");
    Lepton e(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000));
    p.Interact(&e, &l);
    std::printf("%g\n", e.GetOpticalDepth());
    return e.GetOpticalDepth() >= 0 ? 0 : 1;
}
''')
