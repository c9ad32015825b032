S=dict(property='C24',needs='a second run of the same manager that creates photons',breaks='The photon array also has the photons of earlier runs',
edits=[('Source/Python/RunManager.cpp','m_photon_P_X = std::vector<std::vector<double>>(threads);','m_photon_P_X.resize(threads);')],
py=r'''
import sys
import QEDCascPy as q
m = q.RunManager()
m.setTime(1e-15, 4.5e-15)
m.setField("gaussian", 1e13, 1e-6, 1e-9, 5e-6, 0, q.ThreeVector(0,0,-1e-9), q.ThreeVector(0,0,0))
m.setPhysics("semiclassical")
m.setGenerator("electron", "mono", 1e-12, 0, 0, 0, 0, q.ThreeVector(0,0,0), q.ThreeVector(0,0,-1))
m.beamOn(10, 1); a = len(m.getPhotons())
m.beamOn(10, 1); b = len(m.getPhotons())
print(a, b)
sys.exit(0 if a == b == 50 else 1)
''')
