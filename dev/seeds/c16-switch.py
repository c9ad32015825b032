S=dict(property='C16',needs='the classical model without tracking',breaks='The classical switch and the tracking setting of continuous emission change places',
edits=[('Source/Physics/Processes/ContinuousEmission.cpp','PhotonEmission(field, dt, sampleFrac, eMin, track), m_classical(classical)','PhotonEmission(field, dt, sampleFrac, eMin, classical), m_classical(track)')],
demo=r'''
#include <bits/stdc++.h>
#define private public
#define protected public
#include "ContinuousEmission.hh"
#include "StaticEMField.hh"
#include "ParticleList.hh"
int main()
{
    StaticEMField f(ThreeVector(1e-3, 0, 0), ThreeVector(0, 0, 0));
    ContinuousEmission p(&f, 1.0, true, 1.0, 0.0, false);
    ParticleList l("event");
    Lepton e(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000));
    p.Interact(&e, &l);
    return l.GetParticle(0)->GetTracking() ? 1 : 0;
}
''')
