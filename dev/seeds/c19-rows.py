S=dict(property='C19',needs='an event with two photons',breaks='The z position of every photon of an event in the photon table is that of the first one',
edits=[('Source/IO/Output/OutputManager.cpp','photonBuff[photonIndex+7] = m_photonEvent[i][j*8+7];','photonBuff[photonIndex+7] = m_photonEvent[i][7];',1)],
demo=r'''
#include <bits/stdc++.h>
#include "OutputManager.hh"
#include "Photon.hh"
int main()
{
    {
        OutputManager out("o.h5");
        ParticleList l("0");
        l.AddParticle(new Photon(1.0, ThreeVector(0, 0, 3), ThreeVector(0, 0, 1)));
        l.AddParticle(new Photon(1.0, ThreeVector(0, 0, 5), ThreeVector(0, 0, 1)));
        out.InitSource(1);
        out.StoreSource(&l, 0, true);
        out.StoreSource(&l, 0, false);
        out.OutputEvents(true, false);
    }
    H5::H5File f("o.h5", H5F_ACC_RDONLY);
    double d[16];
    f.openDataSet("Particles/ParticleSource/Photons").read(d, H5::PredType::NATIVE_DOUBLE);
    std::printf("%g %g\n", d[7], d[15]);
    return d[7] == 3 && d[15] == 5 ? 0 : 1;
}
''', ld='-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5')
