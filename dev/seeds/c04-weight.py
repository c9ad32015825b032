S=dict(property='C04',needs='a photon whose weight is not one (sample fraction below one upstream)',breaks='The electron of a pair does not inherit the weight of its photon',
edits=[('Source/Physics/Processes/NonLinearBreitWheeler.cpp','            part->GetWeight(), part->GetTime(), m_track);\n        partList->AddParticle(positron);','            1.0, part->GetTime(), m_track);\n        partList->AddParticle(positron);')],
demo=r'''
#include <bits/stdc++.h>
#include "NonLinearBreitWheeler.hh"
#include "StaticEMField.hh"
#include "Photon.hh"
#include "ParticleList.hh"
int main()
{
    StaticEMField f(ThreeVector(0, 0, 0), ThreeVector(1e-3, 0, 0));
    NonLinearBreitWheeler p(&f, 1e12, false);
    ParticleList l("event");
    Photon g(2000, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1), 5.0);
    p.Interact(&g, &l);
    for (unsigned int i = 0; i < l.GetNPart(); i++) { std::printf("%g\n", l.GetParticle(i)->GetWeight()); if (l.GetParticle(i)->GetWeight() != 5.0) return 1; }
    return l.GetNPart() != 2;
}
''')
