S=dict(property='C03',needs='an emission that takes more than half of the energy of the emitter',breaks='An emitter that loses most of its energy is removed from the event',
edits=[('Source/Physics/Processes/StochasticEmission.cpp','        part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);\n','        part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);\n        if (gammaE > part->GetGamma()) part->Kill();\n')],
demo=r'''
#include <bits/stdc++.h>
#include "StochasticEmission.hh"
#include "StaticEMField.hh"
#include "ParticleList.hh"
int main()
{
    StaticEMField f(ThreeVector(1e-3, 0, 0), ThreeVector(0, 0, 0));
    StochasticEmission p(&f, 1.0e9, 1.0, 1e9);
    ParticleList l("event");
    for (int i = 0; i < 20000; i++)
    {
        Lepton e(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000));
        p.Interact(&e, &l);
        if (!e.IsAlive()) { std::puts("emitter died"); return 1; }
    }
    return 0;
}
''')
