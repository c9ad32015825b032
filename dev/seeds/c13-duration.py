S=dict(property='C13',needs='a Python source with a duration',breaks='The duration of a source set from Python is divided by the reference length',
edits=[('Source/Python/RunManager.cpp','m_particleDuration = duration / m_units->RefTime();','m_particleDuration = duration / m_units->RefLength();')],
py=r'''
import sys, numpy as np
from QEDCascPy import *
import QEDCascPy as q
m = q.RunManager()
m.setTime(1e-15, 0.5e-15)
m.setField("gaussian", 1e3, 1e-6, 30e-15, 5e-6, 0, q.ThreeVector(0,0,-1), q.ThreeVector(0,0,0))
m.setPhysics("quantum")
m.setGenerator("electron", "mono", 1e-12, 0, 0, 1e-12, 0, q.ThreeVector(0,0,0), q.ThreeVector(0,0,1))
m.beamOn(2000, 1)
s = np.std(m.getInput()[:, 5])
print(s)
sys.exit(0 if 2.5e-4 < s < 3.5e-4 else 1)
''')
