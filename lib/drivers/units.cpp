#include "UnitsSystem.hh"
extern "C" {
double k_pi() { return UnitsSystem::pi; }
double k_e() { return UnitsSystem::e; }
double k_alpha() { return UnitsSystem::alpha; }
double k_c() { return UnitsSystem::SI_c; }
double k_me() { return UnitsSystem::SI_me; }
double k_qe() { return UnitsSystem::SI_qe; }
double k_hBar() { return UnitsSystem::SI_hBar; }
double k_lComp() { return UnitsSystem::SI_lComp; }
double k_eps0() { return UnitsSystem::SI_eps0; }
double k_eSchw() { return UnitsSystem::SI_eSchw; }
double r_Frequency(const UnitsSystem& u) { return u.RefFrequency(); }
double r_Time(const UnitsSystem& u) { return u.RefTime(); }
double r_Length(const UnitsSystem& u) { return u.RefLength(); }
double r_EField(const UnitsSystem& u) { return u.RefEField(); }
double r_BField(const UnitsSystem& u) { return u.RefBField(); }
double r_Momentum(const UnitsSystem& u) { return u.RefMomentum(); }
double r_Energy(const UnitsSystem& u) { return u.RefEnergy(); }
double r_G4Time(const UnitsSystem& u) { return u.G4Time(); }
double r_G4Length(const UnitsSystem& u) { return u.G4Length(); }
double r_G4Energy(const UnitsSystem& u) { return u.G4Energy(); }
}
