S=dict(property='C09',needs='a field that varies in time as well as in space',breaks='The third stage of the pusher evaluates the field half a time step early',
edits=[('Source/Physics/ParticlePushers/ParticlePusher.cpp','m_field->GetField(part->GetTime() + m_dt / 2.0,','m_field->GetField(part->GetTime(),',2)],
demo=r'''
#include <bits/stdc++.h>
#include "Lepton.hh"
#include "LorentzPusher.hh"
struct F : public EMField {
    void GetField(double time, const ThreeVector& x, ThreeVector& e, ThreeVector& b) const { e = ThreeVector(time, 0, 0); b = ThreeVector(0, 0, 0); }
};
int main()
{
    F f;
    LorentzPusher p(&f, 0.5);
    Lepton e(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 10));
    p.PushParticle(&e);
    double px = e.GetMomentum()[0];
    std::printf("px %.12g\n", px);
    return px > -0.125 + 1e-12 || px < -0.125 - 1e-12;
}
''')
