From 72b6586d4c4470ec5aebe9624d2e363a290c98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 01/39] fix: HDF5Output::AddGroup creates the group when it
 does not exist

The status of H5Gget_objinfo was stored in a bool, so the negative
"not found" result read as true and no group was ever created. The stale
group pointer also has to be cleared, and the sub group initialised.
---
 Source/IO/Output/HDF5Output.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index ef52608..583372c 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -3,12 +3,12 @@
 #include "HDF5Output.hh"
 
 HDF5Output::HDF5Output():
-m_file(NULL), m_group(NULL)
+m_file(NULL), m_group(NULL), m_subGroup(NULL)
 {
 }
 
 HDF5Output::HDF5Output(std::string fileName, bool append):
-m_fileName(fileName), m_group(NULL)
+m_fileName(fileName), m_group(NULL), m_subGroup(NULL)
 {
     if (append == true)
     {
@@ -21,6 +21,7 @@ m_fileName(fileName), m_group(NULL)
 
 HDF5Output::~HDF5Output()
 {
+    delete m_subGroup;
     delete m_group;
     delete m_file;
 }
@@ -30,12 +31,13 @@ void HDF5Output::AddGroup(std::string groupName)
     if (m_group != NULL)
     {
         delete m_group;
+        m_group = NULL;
     }
-    bool status;
+    int status;
     H5E_BEGIN_TRY {
         status = H5Gget_objinfo(m_file->getId(), groupName.c_str(), 0, NULL);
     } H5E_END_TRY
-    if (status == 0)
+    if (status < 0)
     {
         m_group = new H5::Group(m_file->createGroup(groupName.c_str()));
     }
-- 
2.43.0


From 6843db381a046bc7becec2704b54fa2f1ac629f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 02/39] fix: Histogram selects the quantity named by its type

`m_type == "X" || "x"` is always true, so every histogram was filled with
the energy whatever its type.
---
 Source/IO/Output/Histogram.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 572f49f..2b01204 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -44,7 +44,7 @@ void Histogram::AppParticle(Particle* part)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			m_entries++;
 			double energy = part->GetEnergy();
@@ -53,7 +53,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			m_entries++;
 			double xPos = part->GetPosition()[0];
@@ -62,7 +62,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			m_entries++;
 			double yPos = part->GetPosition()[1];
@@ -71,7 +71,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
@@ -80,7 +80,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PX" || "px")
+		} else if (m_type == "PX" || m_type == "px")
 		{
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
@@ -89,7 +89,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PY" || "py")
+		} else if (m_type == "PY" || m_type == "py")
 		{
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
@@ -98,7 +98,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PZ" || "pz")
+		} else if (m_type == "PZ" || m_type == "pz")
 		{
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
@@ -123,7 +123,7 @@ void Histogram::Fill(ParticleList* partList)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -136,7 +136,7 @@ void Histogram::Fill(ParticleList* partList)
 				}
 			}
 			
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -148,7 +148,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -160,7 +160,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
-- 
2.43.0


From 1424a01e63b2cff0e7feff677f090f206541322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 03/39] fix: Histogram::Initialise sets the number of entries
 to zero

---
 Source/IO/Output/Histogram.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 2b01204..1beba75 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -24,6 +24,7 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_name = name;
 	m_particle = particle;
 	m_type = type;
+	m_entries = 0;
 	m_time = time;
 	m_nBins = nBins;
 	m_binCentres = new double [nBins];
-- 
2.43.0


From b00caf6d9e4eba543fa8785dd08ff8ebf4624f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 04/39] fix: RunManager does not keep pointers to objects it
 deleted

beamOn deleted the previous run and could then return early, leaving
dangling pointers that the next beamOn or the destructor deleted again.
The processes of earlier runs were never deleted at all.
---
 Source/Python/RunManager.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8be6b80..9518bd2 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -29,6 +29,10 @@ RunManager::~RunManager()
     delete m_field;
     delete m_generator;
     delete m_pusher;
+    for (unsigned int i = 0; i < m_processList.size(); i++)
+    {
+        delete m_processList[i];
+    }
     m_processList.clear();
 }
 
@@ -130,8 +134,15 @@ void RunManager::beamOn(int events, int threads)
 #endif
 
     delete m_pusher;
+    m_pusher = nullptr;
     delete m_generator;
+    m_generator = nullptr;
     delete m_field;
+    m_field = nullptr;
+    for (unsigned int i = 0; i < m_processList.size(); i++)
+    {
+        delete m_processList[i];
+    }
     m_processList.clear();
 
     // Check for time / field properties
-- 
2.43.0


From 4d965ef74e52d880e259e1cc99d7f4fec1a77480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 05/39] fix: RunManager::setPhysics accepts "classical"

It accepted the misspelled "clasical", which then ran the quantum model.
---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 9518bd2..b95ced0 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -69,7 +69,7 @@ void RunManager::setField(const std::string& fieldType, double maxField,
 
 void RunManager::setPhysics(const std::string& physics)
 {
-    if (physics == "Classical" || physics == "clasical" ||
+    if (physics == "Classical" || physics == "classical" ||
         physics == "Semiclassical" || physics == "semiclassical" ||
         physics == "Quantum" || physics == "quantum")
     {
-- 
2.43.0


From 40097938244c46e10486f27f0374418587dc3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 06/39] fix: StochasticEmission keeps a photon with probability
 sample fraction

The condition was inverted: the default fraction of 1 stored no photons.
---
 Source/Physics/Processes/StochasticEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index f778378..82de4c9 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -41,7 +41,7 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
         ThreeVector gammaP = gammaE * part->GetDirection();
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
-        if (gammaE > m_eMin && m_sampleFrac < MCTools::RandDouble(0, 1))
+        if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
                 part->GetDirection(), part->GetWeight() / m_sampleFrac,
-- 
2.43.0


From eca1bf21a8a5f066c253ccafd3e0461c8997db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 07/39] fix: B is perpendicular to E for every polarisation
 angle

Plane and Gaussian fields set B parallel to E at 45 degrees.
---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 Source/Physics/Fields/EMField/PlaneEMField.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 76c638b..88b0789 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -47,7 +47,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 	eField[2] = 0;
 	eField = m_rotationInv * eField;
 
-	bField[0] = E0 * std::sin(m_polAngle);
+	bField[0] = -E0 * std::sin(m_polAngle);
 	bField[1] = E0 * std::cos(m_polAngle);
 	bField[2] = 0;
 	bField = m_rotationInv * bField;
diff --git a/Source/Physics/Fields/EMField/PlaneEMField.cpp b/Source/Physics/Fields/EMField/PlaneEMField.cpp
index fd088b9..ffb21a9 100644
--- a/Source/Physics/Fields/EMField/PlaneEMField.cpp
+++ b/Source/Physics/Fields/EMField/PlaneEMField.cpp
@@ -29,7 +29,7 @@ void PlaneEMField::GetField(double time, const ThreeVector &position,
     eField[2] = 0;
     eField = m_rotationInv * eField;
 
-    bField[0] = E0 * std::sin(m_polAngle);
+    bField[0] = -E0 * std::sin(m_polAngle);
     bField[1] = E0 * std::cos(m_polAngle);
     bField[2] = 0;
     bField = m_rotationInv * bField;
-- 
2.43.0


From 73c8d988feaf4e46c667a23e7fbabf8de3797277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 08/39] fix: FocusingField rotates both transverse components
 by the polarisation angle

The second component was computed from the already rotated first one.
---
 Source/Physics/Fields/EMField/FocusingField.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index c10d862..d94fbf5 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -76,14 +76,16 @@ void FocusingField::GetField(double time, const ThreeVector &position,
         * S[5] / 4.0 + rho2 * rho2 *rho2 * rho2 * S[6] / 32.0));
     bField[2] = E_0 * ye * (m_eps * C[1] + m_eps * m_eps * m_eps * (C[2] / 2.0
         + rho2 * C[3] / 2.0 - rho2 * rho2 * C[4] / 4.0));
-    eField[0] = eField[0] * std::cos(m_polAngle)
+    double eField0 = eField[0];
+    eField[0] = eField0 * std::cos(m_polAngle)
         - eField[1] * std::sin(m_polAngle) ;
-    eField[1] = eField[0] * std::sin(m_polAngle)
+    eField[1] = eField0 * std::sin(m_polAngle)
         + eField[1] * std::cos(m_polAngle);
     eField = m_rotationInv * eField;
-    bField[0] = bField[0] * std::cos(m_polAngle)
+    double bField0 = bField[0];
+    bField[0] = bField0 * std::cos(m_polAngle)
         - bField[1] * std::sin(m_polAngle) ;
-    bField[1] = bField[0] * std::sin(m_polAngle)
+    bField[1] = bField0 * std::sin(m_polAngle)
         + bField[1] * std::cos(m_polAngle);
     bField = m_rotationInv * bField;
 }
\ No newline at end of file
-- 
2.43.0


From fb7c7c650775cb52050e52c0dda2ceccd1c3fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 09/39] fix: FocusingField carrier travels with the pulse

The plane wave phase of the Salamin field is k (t - z); it had no time
dependence and the wrong sign of z, so div E was not zero.
---
 Source/Physics/Fields/EMField/FocusingField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index d94fbf5..a2dfd36 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -35,7 +35,7 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     double curvature = position_p[2] + m_rayleigh * m_rayleigh
         / (position_p[2] + 1e-99);
     double phi_G = std::atan(ze);
-    double phi = m_waveNum * (position_p[2] - r2 / (2.0 * curvature));
+    double phi = m_waveNum * (time - position_p[2] - r2 / (2.0 * curvature));
     double w = m_waist * std::sqrt(1 + ze * ze);
     double E_0 = m_maxE * std::exp(- r2 / (w * w) - (time - m_t0 - position_p[2])
             * (time - m_t0 - position_p[2]) / (m_tau * m_tau));
-- 
2.43.0


From 0ce2b286b97f797e72e10a03ca070ff508ec1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 10/39] fix: GaussianEMField carrier travels with the pulse

The phase had no time dependence, so the carrier stood still under a
moving envelope.
---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 88b0789..fb02167 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -38,7 +38,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 										   / (rayleigh * rayleigh));
 	double E0 = m_maxE * (m_waist / beamWaist) 
 				* std::exp(-1.0 * r2 / (beamWaist * beamWaist))
-				* std::cos(position_p[2] * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
+				* std::cos((position_p[2] - time) * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
 				* std::exp(-1.0 * (time - t0 - position_p[2]) 
 							* (time - t0 - position_p[2]) / (m_tau * m_tau));
 	
-- 
2.43.0


From 6d2447e8c5860809338ecf4f3fdf0827a47243b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 11/39] fix: laser pulses are focused at the requested focus
 position

---
 Source/Physics/Fields/EMField/FocusingField.cpp   | 2 +-
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index a2dfd36..13fa8b6 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -26,7 +26,7 @@ FocusingField::~FocusingField()
 void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
-    ThreeVector position_p = m_rotaion * position;
+    ThreeVector position_p = m_rotaion * (position - m_focusPos);
     double xe = position_p[0] / m_waist;
     double ye = position_p[1] / m_waist;
     double ze = position_p[2] / m_rayleigh;
diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index fb02167..2f25164 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -27,7 +27,7 @@ GaussianEMField::~GaussianEMField()
 void GaussianEMField::GetField(double time, const ThreeVector &position,
 						  ThreeVector &eField, ThreeVector &bField) const
 {
-	ThreeVector position_p = m_rotaion * position;
+	ThreeVector position_p = m_rotaion * (position - m_focusPos);
 	double t0 		 = (m_startPos - m_focusPos).Mag();
 	double r2 		 = position_p[0] * position_p[0] + position_p[1] * position_p[1];
 	double rayleigh  = m_waveNum * m_waist * m_waist / 2.0;
-- 
2.43.0


From 1b1f6c756fc1c81834364569453feec758a64e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 12/39] fix: NonLinearBreitWheeler ignores photons that see no
 field

log10(0) made the optical depth NaN and the photon could never decay.
---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 5301af9..dd978e8 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -22,6 +22,8 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
 
     double chi = CalculateChi(part);
+    // Nothing happens without a field (and log10(0) would poison the optical depth)
+    if (chi < 1.0e-12) return;
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
-- 
2.43.0


From b83e1a44362163a00ccbbe2ad8b62719fdfdadc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 13/39] fix: monoenergetic sources have a single energy

"mono" is the default distribution of the input deck, but was sampled
uniformly between the mean and the width.
---
 Source/Particles/SourceGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index fda3748..e295895 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -28,7 +28,8 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     } else
     {
-        m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
+        // Monoenergetic
+        m_energy = std::vector<double>(nPart, energy1);
     }
     
     m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
-- 
2.43.0


From 850d92db907d7da84af367c77df8482de936ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 14/39] fix: sources emit along the requested direction

The rotation took the direction onto z, but is applied to particles
generated along z: a source along +x emitted along -x.
---
 Source/Particles/SourceGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index e295895..b341b0d 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -32,7 +32,7 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = std::vector<double>(nPart, energy1);
     }
     
-    m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
+    m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
 }
 
 SourceGenerator::~SourceGenerator()
-- 
2.43.0


From 7438fe7358abdcf421055b2d0c560f7d4a9a4273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 15/39] fix: Interpolate1D uses the last interval at the last
 sample point

A query equal to the last sample left the loop with the first interval.
---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 444fac7..4957c00 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -41,7 +41,7 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-		int lIndex(0), hIndex(1);
+		int lIndex(sampleSize - 2), hIndex(sampleSize - 1);
 		for (unsigned int i = 0; i < sampleSize; i++)
 		{
 			if (queryPoint < samplePoints[i])
-- 
2.43.0


From aa3b0067d04de8227981c4489c64428e316ac0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 16/39] fix: stop when QED_TABLES_PATH is not set

The message was printed and a std::string constructed from NULL.
---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 1 +
 Source/Physics/Processes/PhotonEmission.cpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index dd978e8..79e2f08 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -80,6 +80,7 @@ void NonLinearBreitWheeler::LoadTables()
         std::cout << "Error: Enviromental variable \"QED_TABLES_PATH\" "; 
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory." << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 6d6ee55..f3c9dfe 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -56,6 +56,7 @@ void PhotonEmission::LoadTables()
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory."
                   << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
-- 
2.43.0


From ddc60a6bd9aa8ff2b9714eb27d43a324f05686bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 17/39] fix: the chi axis of the photon energy table uses the
 chi length

---
 Source/Physics/Processes/PhotonEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index f3c9dfe..3cd8b74 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -124,7 +124,7 @@ void PhotonEmission::LoadTables()
         double logMinChi = std::log10(m_phEn_chiMinAxis[i]);
         m_phEn_etaAxis[i] = logMinEta + i * deltaEta;
         double deltaChi = (m_phEn_etaAxis[i] - std::log10(2.0)
-            - logMinChi)  / (m_phEn_etaLength - 1.0);
+            - logMinChi)  / (m_phEn_chiLength - 1.0);
         for (unsigned int j = 0; j < m_phEn_chiLength; j++)
         {
             m_phEn_chiAxis[i][j] = logMinChi + j * deltaChi;
-- 
2.43.0


From d93a641ebc36ebefdd2ebb900dd749ab04645e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 18/39] fix: OutputEvents does not scale gamma with the unit of
 time

---
 Source/IO/Output/OutputManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 4534b31..51dcee8 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -481,7 +481,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             }
             for (unsigned int j = 0; j < m_gammaTrack[i].size(); j++)
             {
-                gammaBuff[j] = m_gammaTrack[i][j] * time;
+                gammaBuff[j] = m_gammaTrack[i][j];
             }
             m_outputFile->AddArray2D(posBuff, m_positionTrack[i].size(), 3, eventName + "/Position");
             m_outputFile->AddArray2D(momBuff, m_momentumTrack[i].size(), 3, eventName + "/Momentum");
-- 
2.43.0


From 5923568ad6bac04e2f94a0e8b6aadbe00f4b87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 19/39] fix: ListProperties frees its buffer

---
 Source/IO/Output/OutputManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 51dcee8..fdad695 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -205,6 +205,7 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
         dataBuff[i*5+4] = partList->GetParticle(i)->GetPosition()[2];
     }
     m_outputFile->AddArray2D(dataBuff, partList->GetNPart(), 5, groupName + "/" + setName);
+    delete [] dataBuff;
 }
 
 void OutputManager::InitSource(unsigned int nEvents)
-- 
2.43.0


From 0ccc031045f9adc19e9a49fef9db968799b5b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 20/39] fix: array sizes are sent as the int that MPI_INT
 announces

---
 Source/IO/Output/OutputManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index fdad695..1914a52 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -866,9 +866,9 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
                 }
             }
         // Send over array sizes
-        long unsigned int electronSize = totalElectrons * 8;
-        long unsigned int positronSize = totalPositrons * 8;
-        long unsigned int photonSize = totalPhotons * 8;
+        int electronSize = totalElectrons * 8;
+        int positronSize = totalPositrons * 8;
+        int photonSize = totalPhotons * 8;
         MPI_Send(&electronSize, 1, MPI_INT, 0, electronTag,
             MPI_COMM_WORLD);
         MPI_Send(&positronSize, 1, MPI_INT, 0, positronTag,
-- 
2.43.0


From acd8b7ed7a009e5f25d6142e01ab3d3c0ca164cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 21/39] fix: a command line argument shorter than four
 characters is reported

It threw std::out_of_range.
---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f05f9bc..f7d8d5c 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -54,7 +54,7 @@ int main(int argc, char* argv[])
         {
             std::cout << "This is how to use the code\n";
             return 1;
-        } else if (argument.substr(argument.size() - 4) == ".ini")
+        } else if (argument.size() >= 4 && argument.substr(argument.size() - 4) == ".ini")
         {
 
         } else
-- 
2.43.0


From 761cebacd4d9d221bcea7014d35a8ddf8866f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 22/39] fix: pairs are tracked when tracking is on

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f7d8d5c..b495524 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -144,7 +144,7 @@ int main(int argc, char* argv[])
     if (inPhysics.PairProduction == true)
     {
         NonLinearBreitWheeler* breitWheeler = new NonLinearBreitWheeler(field, 
-            inGeneral.timeStep, false);
+            inGeneral.timeStep, inGeneral.tracking);
         processList.push_back(breitWheeler);
     }
 
-- 
2.43.0


From a5c8bafa2343f2e6604cc16fa5a3adfc8c02577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 23/39] fix: ThreeVector::Direction returns a unit vector

The result of Norm() was discarded.
---
 Source/Tools/ThreeVector.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 0647c27..fd5a6d1 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -88,8 +88,7 @@ public:
 		dir[0] = point[0] - m_data[0];
 		dir[1] = point[1] - m_data[1];
 		dir[2] = point[2] - m_data[2];
-		dir.Norm();
-		return dir;
+		return dir.Norm();
 	}
 
 	// Returns the matrix required to rotate the vecotor onto the second
-- 
2.43.0


From c56d98bbcad54b27211dade14089fd982f9c2417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 24/39] fix: RunManager::beamOn refuses fewer than one thread

The per thread results were then indexed out of bounds.
---
 Source/Python/RunManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index b95ced0..c9e5753 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -133,6 +133,12 @@ void RunManager::beamOn(int events, int threads)
     }
 #endif
 
+    if (threads < 1)
+    {
+        std::cerr << "Error: At least one thread is required." << std::endl;
+        return;
+    }
+
     delete m_pusher;
     m_pusher = nullptr;
     delete m_generator;
-- 
2.43.0


From 9e2482aba612f0c35be782dc4efc2dba59f94ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 25/39] fix: GetThreeVector uses its default and separates
 values at commas

The default was ignored, and the documented form [a,b,c] lost its commas
so that the three values were read as one.
---
 Source/IO/Input/INIReader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index c2969d6..7a7f547 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -90,7 +90,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     {
         bool operator()(const char c) 
         {
-            if (c == '.' || c == '-' || c == ' ' || c == 'e' || std::isdigit(c))
+            if (c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E' || std::isdigit(c))
             {
                 return false;
             } else
@@ -100,11 +100,11 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
         }
     };
 
+    if (!HasValue(section, name)) return default_value;
     string valstr = Get(section, name, "");
     NotNumber nn;
-    std::string::iterator end = std::remove_if(valstr.begin(), valstr.end(), nn);
-    std::string allNumbers(valstr.begin(), end);
-    std::stringstream stream(allNumbers);
+    std::replace_if(valstr.begin(), valstr.end(), nn, ' ');
+    std::stringstream stream(valstr);
 
     ThreeVector vector;
     int i = 0;
-- 
2.43.0


From 3f911d4c8fc76fabc99408b1953eb7ef6bb48cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 26/39] fix: tracks record the time at which the position is
 reached

The clock was advanced after the track was stored, so every stored
position carried the time of the previous step.
---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 8acd850..54c1f3f 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -16,8 +16,8 @@ void ParticlePusher::PushParticle(Particle *part)
     {
         ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
                                  * part->GetMomentum();
-        part->UpdateTrack(positionNew, part->GetMomentum());
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
     {
         ThreeVector posK1, posK2, posK3, posK4;
@@ -58,8 +58,8 @@ void ParticlePusher::PushParticle(Particle *part)
                                   * (posK1 + 2.0 * posK2 + 2.0 * posK3 + posK4);
         ThreeVector momentumNew = part->GetMomentum() + (m_dt / 6.0) 
                                   * (momK1 + 2.0 * momK2 + 2.0 * momK3 + momK4);
-        part->UpdateTrack(positionNew, momentumNew);
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, momentumNew);
     }
 }
 
-- 
2.43.0


From 4b145212510c1fdc585111718a6fd1ca0f673b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 27/39] fix: each thread has its own random number generator

The event loops run in OpenMP threads and shared one engine.
---
 Source/Tools/MCTools.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/MCTools.hh b/Source/Tools/MCTools.hh
index 5453eeb..b11d586 100644
--- a/Source/Tools/MCTools.hh
+++ b/Source/Tools/MCTools.hh
@@ -33,7 +33,7 @@ namespace MCTools
         const Eigen::VectorXd& covar, const Eigen::VectorXd& skew);
 #endif
 
-    static std::random_device rd;
-    static std::mt19937 generator(rd());
+    // One generator for each thread
+    static thread_local std::mt19937 generator{std::random_device{}()};
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From 314a3aa03ce0e17f2a862488fb3a3cc7d66313b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 28/39] fix: threads take particles from a source one at a time

GenerateList reads and advances the counter of the shared source, so two
threads could take the same particle or run past the end.
---
 Source/Exec/QEDCASC.cpp      | 6 +++++-
 Source/Python/RunManager.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index b495524..1acb91e 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -199,7 +199,11 @@ int main(int argc, char* argv[])
         for (unsigned int j = 0; j < generators[i]->GetSourceNumber(); j++) // loop events
         {
             // Generate source
-            ParticleList* event = generators[i]->GenerateList();
+            ParticleList* event;
+#ifdef USEOPENMP
+            #pragma omp critical(source)
+#endif
+            event = generators[i]->GenerateList();
 
             // Store full event info
             if (inParticles[i].Output == true) out->StoreSource(event, j, true);
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index c9e5753..0dd64b0 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -223,7 +223,11 @@ void RunManager::beamOn(int events, int threads)
 #else
         int tid = 0;
 #endif
-        ParticleList* event = m_generator->GenerateList();
+        ParticleList* event;
+#ifdef USEOPENMP
+        #pragma omp critical(source)
+#endif
+        event = m_generator->GenerateList();
         // Store inital particle properties
         for (unsigned int j = 0; j < event->GetNPart(); j++) // Loop particles
         {
-- 
2.43.0


From 179bd34ec13b7e39a0105d2cbc0851b0d9c09d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 29/39] fix: threads add to the shared histograms one at a time

---
 Source/Exec/QEDCASC.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 1acb91e..4c6a19d 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -223,6 +223,9 @@ int main(int argc, char* argv[])
                             if (histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
+#ifdef USEOPENMP
+                                #pragma omp critical(histogram)
+#endif
                                 histograms[histCount]->AppParticle(event->GetParticle(k));
                             }
                         }
@@ -248,6 +251,9 @@ int main(int argc, char* argv[])
                     if (histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
+#ifdef USEOPENMP
+                        #pragma omp critical(histogram)
+#endif
                         histograms[k]->AppParticle(event->GetParticle(l));
                     }
                 }
-- 
2.43.0


From c80af263f2ddc328488a3113585ce5ab1b3052fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 30/39] fix: threads store their tracks one at a time

---
 Source/Exec/QEDCASC.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 4c6a19d..ad793ad 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -261,7 +261,13 @@ int main(int argc, char* argv[])
 
             // Store source data and tracking
             if (inParticles[i].Output == true) out->StoreSource(event, j, false);
-            if (inGeneral.tracking == true) out->StoreTrack(event, j);
+            if (inGeneral.tracking == true)
+            {
+#ifdef USEOPENMP
+                #pragma omp critical(track)
+#endif
+                out->StoreTrack(event, j);
+            }
 
             // Free up the sapce
             generators[i]->FreeSources(event);
-- 
2.43.0


From 3ab29e6a5f4c61dcf5d6a938e9e769d236c482d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 31/39] fix: RandDiscrete can return the first entry

The search started at the second cumulative value, so the first entry was
never drawn.
---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index e195e70..7f98c71 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -37,7 +37,7 @@ unsigned int MCTools::RandDiscrete(const std::vector<double>& distro)
     }
     double rand = RandDouble(0.0, *(cdf.end() - 1));
     unsigned int sample(0);
-    for (unsigned int i = 1; i < distro.size(); i++)
+    for (unsigned int i = 0; i < distro.size(); i++)
     {
         if (rand < cdf[i])
         {
-- 
2.43.0


From f17dd27116ddbd909327eed24397dde6af92ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 32/39] fix: Interpolate1D extrapolates along the last segment

---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 4957c00..89f7eca 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -36,7 +36,7 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 	{
 		// value is not within the range so we need to use extrapolation
 		int end = sampleSize - 1;
-		queryData = sampleData[end] + (sampleData[end] - sampleData[end-1]) 
+		queryData = sampleData[end-1] + (sampleData[end] - sampleData[end-1]) 
 									  * ((queryPoint - samplePoints[end-1])
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
-- 
2.43.0


From 7159cbfa13b1c0066c2250e377e3ca65787c74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 33/39] fix: ClosestPoints accepts queries in the last interval

---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 89f7eca..41ce07a 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -100,7 +100,7 @@ void Numerics::ClosestPoints(double* samplePoints, unsigned int sampleSize,
 			break;
 		}
 	}
-	if (lowIndex < sampleSize - 2)
+	if (lowIndex < sampleSize - 1)
 	{
 		frac = (queryPoint - samplePoints[lowIndex]) / (samplePoints[lowIndex+1]
 			- samplePoints[lowIndex]);
-- 
2.43.0


From a36b19773067381ae6ab9cb9d55de8ec2bd0a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 34/39] fix: a lepton created with an energy has that energy

---
 Source/Particles/Lepton.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Particles/Lepton.cpp b/Source/Particles/Lepton.cpp
index f283046..3d357cc 100644
--- a/Source/Particles/Lepton.cpp
+++ b/Source/Particles/Lepton.cpp
@@ -16,8 +16,9 @@ Particle(mass, charge, position, momentum, weight, time, tracking)
 Lepton::Lepton(double mass, double charge, double energy,
     const ThreeVector &position, const ThreeVector &direction, double weight,
     double time, bool tracking):
-Particle(mass, charge, position, energy * direction.Norm(), weight, time,
-    tracking)
+Particle(mass, charge, position,
+    std::sqrt(std::fmax(energy * energy - mass * mass, 0.0))
+    * direction.Norm(), weight, time, tracking)
 {
     if (charge == -1)
     {
-- 
2.43.0


From d879194ff79f7094e92c023b93371ded9e0caa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 35/39] fix: create the ParticleTrack group even if a particle
 list was written before

---
 Source/IO/Output/OutputManager.cpp | 4 ++--
 Source/IO/Output/OutputManager.hh  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 1914a52..f05260b 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -432,10 +432,10 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
     // Output tracking info
     if (outTrack == true)
     {
-        if (m_partListBool == false)
+        if (m_partTrackBool == false)
         {
             m_outputFile->AddGroup("Particles/ParticleTrack");
-            m_partListBool = true;
+            m_partTrackBool = true;
         }
 
         // Get the units system
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index d4b8e75..ff1c718 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -69,6 +69,7 @@ private:
     // Boolians to avoid adding the same group twice
     bool m_singlePartBool = false;
     bool m_partListBool = false;
+    bool m_partTrackBool = false;
     bool m_particleSourceBool = false;
 
     // Structures holding data for source outputs
-- 
2.43.0


From 670159b8e5057b361866b87f8efa1b41f1e84d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 36/39] fix: rotate antiparallel vectors onto each other for
 every direction

---
 Source/Tools/ThreeVector.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index fd5a6d1..ea26a0b 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -98,9 +98,17 @@ public:
 		// Fist we need to check if the vectors are ainti parallel as this method fails
 		if ((this->Norm() + axis.Norm()).Mag2() <= 1e-10)
 		{
-			rotation[0][0] = -1.0;
-			rotation[1][1] =  1.0;
-			rotation[2][2] = -1.0;
+			// Rotate by pi around an axis normal to the vector
+			ThreeVector norm = this->Norm();
+			ThreeVector ref = (std::abs(norm.m_data[0]) < 0.9) ? ThreeVector(1.0, 0.0, 0.0) : ThreeVector(0.0, 1.0, 0.0);
+			ThreeVector normal = norm.Cross(ref).Norm();
+			for (unsigned int i = 0; i < 3; i++)
+			{
+				for (unsigned int j = 0; j < 3; j++)
+				{
+					rotation[i][j] = 2.0 * normal.m_data[i] * normal.m_data[j] - (i == j ? 1.0 : 0.0);
+				}
+			}
 		} else
 		{
 			ThreeVector norm1 = this->Norm();
-- 
2.43.0


From 96ba5b1aae5004393c5437f41163c957ec82fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 37/39] fix: fill all the histograms whose time is reached in a
 step

---
 Source/Exec/QEDCASC.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index ad793ad..5e64efa 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -212,8 +212,8 @@ int main(int argc, char* argv[])
             double time(0);
             while(time < inGeneral.timeEnd) // loop time
             {
-                // Check if time for histogram
-                if (histCount < histograms.size())
+                // Fill all the histograms whose time has come
+                while (histCount < histograms.size())
                 {
                  //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
                     if(time >= histograms[histCount]->GetTime())
@@ -230,7 +230,7 @@ int main(int argc, char* argv[])
                             }
                         }
                         histCount++;
-                    }
+                    } else break;
                 }
                 // Push particles and interact
                 for (unsigned int k = 0; k < event->GetNPart(); k++) // Loop particles
-- 
2.43.0


From 5fc4534d2c84662b2e23e30cae7adb13f6e1f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:38 +0000
Subject: [PATCH 38/39] fix: rotate the whole focusing field by the
 polarisation angle

The longitudinal and higher order terms were taken at coordinates that were
not rotated with the polarisation, so that div E vanished for angle 0 only.
---
 Source/Physics/Fields/EMField/FocusingField.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 13fa8b6..9ed0f19 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -27,8 +27,11 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
     ThreeVector position_p = m_rotaion * (position - m_focusPos);
-    double xe = position_p[0] / m_waist;
-    double ye = position_p[1] / m_waist;
+    // Transverse coordinates along and across the polarisation axis
+    double xe = (position_p[0] * std::cos(m_polAngle)
+        + position_p[1] * std::sin(m_polAngle)) / m_waist;
+    double ye = (position_p[1] * std::cos(m_polAngle)
+        - position_p[0] * std::sin(m_polAngle)) / m_waist;
     double ze = position_p[2] / m_rayleigh;
     double r2  = position_p[0] * position_p[0] + position_p[1] * position_p[1];
     double rho2 = r2 / (m_waist *  m_waist);
-- 
2.43.0


From d438aae68dcf4a0bf7735755bc7103654b914e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 39/39] fix: give the Gaussian field its Gouy phase

Without it the field does not solve the paraxial wave equation: the remainder
is as large as the transverse Laplacian itself.
---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 2f25164..72a3bc0 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -38,7 +38,8 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 										   / (rayleigh * rayleigh));
 	double E0 = m_maxE * (m_waist / beamWaist) 
 				* std::exp(-1.0 * r2 / (beamWaist * beamWaist))
-				* std::cos((position_p[2] - time) * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
+				* std::cos((position_p[2] - time) * m_waveNum + r2 * m_waveNum / (2.0 * curvature)
+						   - std::atan(position_p[2] / rayleigh))
 				* std::exp(-1.0 * (time - t0 - position_p[2]) 
 							* (time - t0 - position_p[2]) / (m_tau * m_tau));
 	
-- 
2.43.0

