From 681c3f2aeed55ee0e64f91485ea09ffc5a38a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 01/95] fix: honour a zero multiplier on a bracketed or dotted
 formula group

'(OH)0Fe' and 'FeO.0H2O' were read as if the multiplier were 1, while the
zero subscript of a plain element ('H0O') was honoured.
---
 auxi/tools/chemistry/stoichiometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/stoichiometry.py b/auxi/tools/chemistry/stoichiometry.py
index 48b068e..72ab53c 100644
--- a/auxi/tools/chemistry/stoichiometry.py
+++ b/auxi/tools/chemistry/stoichiometry.py
@@ -137,13 +137,13 @@ class CompoundVisitor(parsimonious.NodeVisitor):
 
     def visit_dottedgroup(self, _, dottedgroup):
         (_, number, group) = dottedgroup
-        if not number:
+        if number == []:
             number = 1
         return Group([group], number, dotted=True)
 
     def visit_subscriptedgroup(self, _, subscriptedgroup):
         (_, group, _, number) = subscriptedgroup
-        if not number:
+        if number == []:
             number = 1
         return Group([group], number)
 
-- 
2.43.0


From 946f4091427a5cf86f73d127a8d36964fd0d4a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 02/95] fix: read a phase's magnetic data from its dictionary

Constructing a Phase with magnetic data raised a TypeError because a list
literal was indexed instead of the dictionary.
---
 auxi/tools/chemistry/thermochemistry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 12e1cbb..a87ab50 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -166,15 +166,15 @@ class Phase(NamedObject):
         """[J/mol/K] The standard entropy of the phase at Tref."""
 
         if 'magnetic' in dictionary:
-            self.Tc_mag = ['magnetic']['Tc']
+            self.Tc_mag = dictionary['magnetic']['Tc']
             """The critical temperature, which is the Curie temperature for
             ferromagnetic materials or the Neel temperature for
             antiferromagnetic materials."""
 
-            self.beta0_mag = ['magnetic']['beta0']
+            self.beta0_mag = dictionary['magnetic']['beta0']
             """The average magnetic moment per atom."""
 
-            self.p_mag = ['magnetic']['p']
+            self.p_mag = dictionary['magnetic']['p']
             """This value can be thought of as the fraction of the magnetic
             enthalpy absorbed above the critical. It depends on structure."""
 
-- 
2.43.0


From 974083cb05f75064b2538f6ee37d96f7952527fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 03/95] fix: do not count magnetic heat capacity twice above a
 phase's range

Above the last Cp record H, S and G extrapolated with a heat capacity that
already included the magnetic term and then added the magnetic contribution
again, so they disagreed with Cp.
---
 auxi/tools/chemistry/thermochemistry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index a87ab50..9815a38 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -288,7 +288,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*(T - Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*(T - Tmax)
 
         return result + self.H_mag(T)
 
@@ -334,7 +334,7 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        result += self.Cp(Tmax)*math.log(T / Tmax)
+        result += self._Cp_records[str(Tmax)].Cp(Tmax)*math.log(T / Tmax)
 
         return result + self.S_mag(T)
 
@@ -381,8 +381,8 @@ class Phase(NamedObject):
 
         # Extrapolate beyond the upper limit by using a constant heat capacity.
         Tmax = max([float(TT) for TT in self._Cp_records.keys()])
-        h = h + self.Cp(Tmax)*(T - Tmax)
-        s = s + self.Cp(Tmax)*math.log(T / Tmax)
+        h = h + self._Cp_records[str(Tmax)].Cp(Tmax)*(T - Tmax)
+        s = s + self._Cp_records[str(Tmax)].Cp(Tmax)*math.log(T / Tmax)
 
         return h - T * s + self.G_mag(T)
 
-- 
2.43.0


From 9e61ac03ab7d99dc353ca4b8b3730c00f140992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 04/95] fix: add chem packages of the same material compound by
 compound

---
 auxi/modelling/process/materials/chem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index a4a9d1f..ddee88a 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -277,7 +277,8 @@ class MaterialPackage(Object):
             if self.material == other.material:
                 result = MaterialPackage(
                     self.material,
-                    self.compound_masses + other.compound_masses)
+                    [m + o for m, o in zip(self.compound_masses,
+                                           other.compound_masses)])
                 return result
             else:  # Packages of different materials.
                 result = self.clone()
-- 
2.43.0


From a55cfeb6e0dd12ec1173b795782c261d65237089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 05/95] fix: add a chem package of the same material in place
 compound by compound

---
 auxi/modelling/process/materials/chem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index ddee88a..9f370b9 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -554,7 +554,9 @@ class MaterialPackage(Object):
 
             # Packages of the same material.
             if self.material == other.material:
-                self.compound_masses += other.compound_masses
+                self.compound_masses = [
+                    m + o for m, o in zip(self.compound_masses,
+                                          other.compound_masses)]
 
             # Packages of different materials.
             else:
-- 
2.43.0


From 619ffed50cae42f1645640fd70c854edc4b61ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 06/95] fix: clearing a chem package raised TypeError

---
 auxi/modelling/process/materials/chem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 9f370b9..f02b9e0 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -379,7 +379,7 @@ class MaterialPackage(Object):
         Set all the compound masses in the package to zero.
         """
 
-        self.compound_masses *= 0.0
+        self.compound_masses = [0.0] * len(self.compound_masses)
 
     def get_assay(self):
         """
-- 
2.43.0


From 9483b740c6ba3d9a72d58c8c67ecf52b62f30904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 07/95] fix: an empty chem package could not be added to one of
 another material

---
 auxi/modelling/process/materials/chem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index f02b9e0..51e5240 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -173,7 +173,7 @@ class Material(NamedObject):
         :returns: A floating point array.
         """
 
-        return [0] * self.compound_count
+        return [0.0] * self.compound_count
 
     def add_assay(self, name, assay):
         """
-- 
2.43.0


From fe6e63cc8ef2eaf67a9c3ba4e430aaee97732643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 08/95] fix: a refused addition to a chem package left it
 partly changed

---
 auxi/modelling/process/materials/chem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 51e5240..32d8ae2 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -568,6 +568,7 @@ class MaterialPackage(Object):
                                         "'. The compound '" + compound +
                                         "' was not found in '" +
                                         self.material.name + "'.")
+                for compound in other.material.compounds:
                     self.add_to((compound, other.get_compound_mass(compound)))
 
         # Add the specified mass of the specified compound.
-- 
2.43.0


From 5d7c602bc292d5056a7f7e974e42df1a187d8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 09/95] fix: keep the description given to a psd material

---
 auxi/modelling/process/materials/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 593fe22..db40b80 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -65,7 +65,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
-- 
2.43.0


From 515b1108240ee515a7327dd6f5e44ac045da9c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 10/95] fix: keep the description given to a slurry material

---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index eb0a452..f2b6c48 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -74,7 +74,7 @@ class Material(NamedObject):
 
     def __init__(self, name, file_path, description=None):
         # Initialise the material's properties.
-        self.name = name
+        super().__init__(name, description)
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
-- 
2.43.0


From 878dc98368d1fd474e6f707caef53bc3c5573bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 11/95] fix: a refused addition to a psd package left it partly
 changed

---
 auxi/modelling/process/materials/psd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index db40b80..d3392f2 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -290,7 +290,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
                     result = result + (
                         size_class,
@@ -513,8 +513,9 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name +
-                            "'. The size class '" + size_class +
+                            "'. The size class '" + str(size_class) +
                             "' was not found in '" + self.material.name + "'.")
+                for size_class in other.material.size_classes:
                     self.add_to(
                         (size_class, other.get_size_class_mass(size_class)))
 
-- 
2.43.0


From a453798d46cc9403422708f42a0336618e147829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 12/95] fix: extracting nothing from an empty psd package made
 its masses NaN

---
 auxi/modelling/process/materials/psd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index d3392f2..9eb96a8 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -458,7 +458,8 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material, self.size_class_masses * fraction_to_subtract)
             self.size_class_masses = self.size_class_masses * (
-- 
2.43.0


From 7e93cbc2d6b30eaef4405e76c1481327e6ae7da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 13/95] fix: extracting nothing from an empty slurry package
 made its masses NaN

---
 auxi/modelling/process/materials/slurry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index f2b6c48..3adeaaf 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -639,7 +639,8 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a mass larger than the package's mass.")
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material,
                 self.solid_density,
-- 
2.43.0


From 6d5bc9bc744fbf3a48c53637d0035ae47e084503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 14/95] fix: extracting nothing from an empty chem package
 raised ZeroDivisionError

---
 auxi/modelling/process/materials/chem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 32d8ae2..687f362 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -503,7 +503,8 @@ class MaterialPackage(Object):
                 raise Exception('Invalid extraction operation. Cannot extract'
                                 'a mass larger than the package\'s mass.')
 
-            fraction_to_subtract = other / self.get_mass()
+            mass = self.get_mass()
+            fraction_to_subtract = other / mass if mass != 0.0 else 0.0
             result = MaterialPackage(
                 self.material,
                 [m * fraction_to_subtract for m in self.compound_masses])
-- 
2.43.0


From 79144e89efd2f62eeed24fd63d8e35c8d22939e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 15/95] fix: a slurry took a mass of any named substance for
 water

---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 3adeaaf..4d6a594 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -498,7 +498,7 @@ class MaterialPackage(Object):
             return False
         elif not len(value) == 2:
             return False
-        elif not type(value[0]) is str and not value[0] == "H2O":
+        elif not type(value[0]) is str or not value[0] == "H2O":
             return False
         elif not type(value[1]) is float and \
                 not type(value[1]) is numpy.float64 and \
-- 
2.43.0


From d2cc3034775271436ac32382cc61a11c511945b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 16/95] fix: adding slurry packages without solids gave a NaN
 density

---
 auxi/modelling/process/materials/slurry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 4d6a594..84ab363 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -376,9 +376,12 @@ class MaterialPackage(Object):
         if type(other) is MaterialPackage:
             solid_mass = self.get_solid_mass()
             other_solid_mass = other.get_solid_mass()
-            solid_density = (solid_mass + other_solid_mass) / \
-                (solid_mass / self.solid_density +
-                    other_solid_mass / other.solid_density)
+            if solid_mass + other_solid_mass == 0.0:
+                solid_density = self.solid_density
+            else:
+                solid_density = (solid_mass + other_solid_mass) / \
+                    (solid_mass / self.solid_density +
+                        other_solid_mass / other.solid_density)
             H2O_mass = self.H2O_mass + other.H2O_mass
             # Packages of the same material.
             if self.material == other.material:
-- 
2.43.0


From 1bfe720b204367f2ab80ae928a90cfff5ae02809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 17/95] fix: a refused slurry assay changed the density and
 water of an existing one

---
 auxi/modelling/process/materials/slurry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 84ab363..d0f0715 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -238,11 +238,9 @@ class Material(NamedObject):
 
         if not type(solid_density) is float:
             raise Exception("Invalid solid density. It must be a float.")
-        self.solid_densities[name] = solid_density
 
         if not type(H2O_fraction) is float:
             raise Exception("Invalid H2O fraction. It must be a float.")
-        self.H2O_fractions[name] = H2O_fraction
 
         if not type(assay) is numpy.ndarray:
             raise Exception("Invalid assay. It must be a numpy array.")
@@ -253,6 +251,8 @@ class Material(NamedObject):
         elif name in self.assays.keys():
             raise Exception(
                 "Invalid assay: An assay with that name already exists.")
+        self.solid_densities[name] = solid_density
+        self.H2O_fractions[name] = H2O_fraction
         self.assays[name] = assay
 
     def get_assay_total(self, name):
-- 
2.43.0


From 90e16461063288953ea463cbe28581163c392055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 18/95] fix: name the missing size class when slurries cannot
 be added

---
 auxi/modelling/process/materials/slurry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index d0f0715..4c05f02 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -401,7 +401,7 @@ class MaterialPackage(Object):
                             "Packages of '" + other.material.name +
                             "' cannot be added to packages of '" +
                             self.material.name + "'. The size class '" +
-                            size_class + "' was not found in '" +
+                            str(size_class) + "' was not found in '" +
                             self.material.name + "'.")
                     result = result + (
                         size_class, other.get_size_class_mass(size_class))
-- 
2.43.0


From d83e0225f69e0ae52d411660fdbb735d6479741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 19/95] fix: the temperature of a package or stream of less
 than 1 kg was inaccurate

---
 auxi/modelling/process/materials/thermo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index baf7e42..19df5df 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -724,10 +724,11 @@ class MaterialPackage(Object):
         y.append(self._calculate_H(x[1]) - H)
 
         # Solve for temperature.
+        tolerance = 1.0e-5 * min(1.0, self.mass)
         for i in range(2, 50):
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_H(x[i]) - H)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < tolerance:
                 break
 
         return x[len(x) - 1]
@@ -1443,10 +1444,11 @@ class MaterialStream(Object):
         y.append(self._calculate_Hfr(x[1]) - Hfr)
 
         # Solve for temperature.
+        tolerance = 1.0e-5 * min(1.0, self.mfr)
         for i in range(2, 50):
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_Hfr(x[i]) - Hfr)
-            if abs(y[i-1]) < 1.0e-5:
+            if abs(y[i-1]) < tolerance:
                 break
 
         return x[len(x) - 1]
-- 
2.43.0


From 5e1a1374864ac0c9871b7cd322b318ed56f652a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 20/95] fix: the temperature of a very large package or stream
 became NaN

---
 auxi/modelling/process/materials/thermo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 19df5df..5daee13 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -726,6 +726,8 @@ class MaterialPackage(Object):
         # Solve for temperature.
         tolerance = 1.0e-5 * min(1.0, self.mass)
         for i in range(2, 50):
+            if y[i-1] == y[i-2]:  # No further improvement is possible.
+                break
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_H(x[i]) - H)
             if abs(y[i-1]) < tolerance:
@@ -1446,6 +1448,8 @@ class MaterialStream(Object):
         # Solve for temperature.
         tolerance = 1.0e-5 * min(1.0, self.mfr)
         for i in range(2, 50):
+            if y[i-1] == y[i-2]:  # No further improvement is possible.
+                break
             x.append(x[i-1] - y[i-1]*((x[i-1] - x[i-2])/(y[i-1] - y[i-2])))
             y.append(self._calculate_Hfr(x[i]) - Hfr)
             if abs(y[i-1]) < tolerance:
-- 
2.43.0


From a592fe0c8ccef7572fb8da5bad60b0efb0718764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 21/95] fix: the temperature of a sum of empty packages or
 streams became NaN

---
 auxi/modelling/process/materials/thermo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 5daee13..460cece 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -713,6 +713,10 @@ class MaterialPackage(Object):
         :returns: Temperature. [°C]
         """
 
+        # Nothing has no enthalpy, irrespective of temperature.
+        if self.mass == 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
@@ -1435,6 +1439,10 @@ class MaterialStream(Object):
         :returns: Temperature. [°C]
         """
 
+        # Nothing has no enthalpy, irrespective of temperature.
+        if self.mfr == 0.0:
+            return self._T
+
         # Create the initial guesses for temperature.
         x = list()
         x.append(self._T)
-- 
2.43.0


From ad00eff86ad973199ebe3d906bcbf847daf62754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 22/95] fix: extracting nothing from an empty package or stream
 made its masses NaN

---
 auxi/modelling/process/materials/thermo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 460cece..b6fa7bd 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1029,7 +1029,7 @@ class MaterialPackage(Object):
         if mass > self.mass:
             raise Exception("Invalid extraction operation. \
                 Cannot extract a mass larger than the package's mass.")
-        fraction_to_subtract = mass / self.mass
+        fraction_to_subtract = mass / self.mass if self.mass != 0.0 else 0.0
         result = MaterialPackage(
             self.material, self._compound_masses *
             fraction_to_subtract, self._P, self._T)
@@ -1784,7 +1784,7 @@ class MaterialStream(Object):
             raise Exception("Invalid extraction operation. Cannot extract a "
                             "mass flow rate larger than the streams's mass "
                             "flow rate.")
-        fraction_to_subtract = mfr / self.mfr
+        fraction_to_subtract = mfr / self.mfr if self.mfr != 0.0 else 0.0
         result = MaterialStream(
             self.material, self._compound_mfrs *
             fraction_to_subtract, self._P, self._T)
-- 
2.43.0


From 143dd8c079f5e85fd69e11ce250096d01471f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 23/95] fix: clearing a stream kept its enthalpy flow rate

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index b6fa7bd..d5ad47f 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1617,7 +1617,7 @@ class MaterialStream(Object):
         self._compound_mfrs = self._compound_mfrs * 0.0
         self._P = 1.0
         self._T = 25.0
-        self._H = 0.0
+        self._Hfr = 0.0
 
     def get_assay(self):
         """
-- 
2.43.0


From b0cb6749a68b08906d5f7018783ce2efb8e8cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 24/95] fix: extracting a material's compounds lost the
 pressure

---
 auxi/modelling/process/materials/thermo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index d5ad47f..1a7bde7 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1073,7 +1073,7 @@ class MaterialPackage(Object):
         return result
 
     def _extract_material(self, material):
-        result = material.create_package()
+        result = material.create_package(P=self._P)
         for compound in material.compounds:
             mass = self.get_compound_mass(compound)
             result += (compound, mass)
@@ -1849,7 +1849,7 @@ class MaterialStream(Object):
         return result
 
     def _extract_material(self, material):
-        result = material.create_stream()
+        result = material.create_stream(P=self._P)
         for compound in material.compounds:
             mfr = self.get_compound_mfr(compound)
             result += (compound, mfr)
-- 
2.43.0


From bd0c6705e6137c67b49e63a11275f60ce13a5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 25/95] fix: a cloned package or stream shared its custom
 properties

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 1a7bde7..aff03f0 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -857,6 +857,7 @@ class MaterialPackage(Object):
 
         result = copy.copy(self)
         result._compound_masses = copy.deepcopy(self._compound_masses)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
@@ -1606,6 +1607,7 @@ class MaterialStream(Object):
 
         result = copy.copy(self)
         result._compound_mfrs = copy.deepcopy(self._compound_mfrs)
+        result.custom_properties = copy.deepcopy(self.custom_properties)
         return result
 
     def clear(self):
-- 
2.43.0


From b3d2ae410d88a32218d6026212b5285f8e846b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 26/95] fix: a part split from a coal stream was no longer coal

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index aff03f0..76926cd 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1789,7 +1789,7 @@ class MaterialStream(Object):
         fraction_to_subtract = mfr / self.mfr if self.mfr != 0.0 else 0.0
         result = MaterialStream(
             self.material, self._compound_mfrs *
-            fraction_to_subtract, self._P, self._T)
+            fraction_to_subtract, self._P, self._T, self.isCoal, self.HHV)
 
         self._compound_mfrs = self._compound_mfrs * \
             (1.0 - fraction_to_subtract)
-- 
2.43.0


From 245a5125baf932a06ae2db098e3b9ab13185d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 27/95] fix: use CO2 when updating the heating value of a coal
 stream

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 76926cd..377dec5 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1821,7 +1821,7 @@ class MaterialStream(Object):
             HHV = self.HHV * (self.mfr - mfr)  # MJ
 
             dH = thermo.H(compound, 25, mfr)  # kWh
-            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'COs', 'C'))  # kWh
+            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'CO2', 'C'))  # kWh
             dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))  # kWh
             dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))  # kWh
             dH *= 3.6  # MJ
-- 
2.43.0


From abd4246e2e521ee025930b9901447d7e7aabe298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 28/95] fix: adding a compound at a temperature to a coal
 stream kept its heating value

---
 auxi/modelling/process/materials/thermo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 377dec5..90b8ee4 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1267,6 +1267,7 @@ class MaterialStream(Object):
             # Create the result stream.
             result = self * 1.0
             result._compound_mfrs[index] += mfr
+            result._update_HHV(compound, mfr)
             result.Hfr = self._Hfr + enthalpy
             result._P = self._P
             return result
-- 
2.43.0


From 112c5ed8e05924e03255fa4333eafd1bdecdb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 29/95] fix: adding ash to or removing it from a coal stream
 changed its total heating value

---
 auxi/modelling/process/materials/thermo.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 90b8ee4..4c441fa 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1821,13 +1821,16 @@ class MaterialStream(Object):
         if self.isCoal:
             HHV = self.HHV * (self.mfr - mfr)  # MJ
 
-            dH = thermo.H(compound, 25, mfr)  # kWh
-            dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'CO2', 'C'))  # kWh
-            dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))  # kWh
-            dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))  # kWh
-            dH *= 3.6  # MJ
-
-            HHV += dH  # MJ
+            # Only the elements that make up the daf coal contribute.
+            formula = compound.split('[')[0]
+            if 1.0 in stoich.element_mass_fractions(formula, 'CHONS'):
+                dH = thermo.H(compound, 25, mfr)  # kWh
+                dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'CO2', 'C'))
+                dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))
+                dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))
+                dH *= 3.6  # MJ
+
+                HHV += dH  # MJ
             HHV /= self.mfr  # MJ/kg coal
 
             self.HHV = HHV
-- 
2.43.0


From fb8cc88b61ed6d41e55cbcecd2ce3863c01976d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 30/95] fix: the enthalpy of a coal stream without a heating
 value was wrong

---
 auxi/modelling/process/materials/thermo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 4c441fa..995a95e 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1212,6 +1212,8 @@ class MaterialStream(Object):
                     if other.HHV:
                         HHV += other.HHV * other.mfr
                     HHV /= self.mfr + other.mfr
+                    if self.HHV is None and other.HHV is None:
+                        HHV = None
                     isCoal = True
                 else:
                     isCoal = False
@@ -1370,7 +1372,7 @@ class MaterialStream(Object):
         if self.HHV is None:
             # If no HHV is specified, calculate it from the proximate assay
             # using C-H-O-N-S.
-            HHV = (Hout - Hin) / m_total  # kWh/kg daf
+            HHV = Hin / m_total - Hout  # kWh/kg daf
         else:
             # If an HHV is specified, convert it from MJ/kg coal to kWh/kg daf.
             HHV = self.HHV / 3.6  # kWh/kg coal
@@ -1818,7 +1820,9 @@ class MaterialStream(Object):
         return result
 
     def _update_HHV(self, compound, mfr):
-        if self.isCoal:
+        if self.isCoal and self.HHV is None:
+            self.HHV = None  # Recalculate the formation enthalpy.
+        elif self.isCoal:
             HHV = self.HHV * (self.mfr - mfr)  # MJ
 
             # Only the elements that make up the daf coal contribute.
-- 
2.43.0


From 701db561e3119762db14e3a5f34803f4d066744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 31/95] fix: no package or stream could be made of an assay
 added to a thermo material

---
 auxi/modelling/process/materials/thermo.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 995a95e..9abf4e0 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -202,16 +202,14 @@ class Material(NamedObject):
             result += "-" * line_length + "\n"
             result += "Custom Properties:\n"
             result += "-" * line_length + "\n"
-            first_assay = list(sorted(self.assay_custom_properties.keys()))[0]
-            properties = list(sorted(
-                self.assay_custom_properties[first_assay].keys()))
+            properties = sorted(set(self.custom_properties))
             for prop in properties:
                 pad = ''
                 result += prop.ljust(20)
                 for assay_name in assay_names:
                     result += pad + "{:.8e}".format(
-                        self.assay_custom_properties[assay_name][prop]
-                        ).rjust(15)
+                        self.assay_custom_properties[assay_name].get(
+                            prop, float('nan'))).rjust(15)
                     pad = '  '
                 result += "\n"
         result += "=" * line_length + "\n"
@@ -306,6 +304,7 @@ class Material(NamedObject):
                             "exists.")
         self.raw_assays[name] = assay
         self.converted_assays[name] = assay
+        self.assay_custom_properties[name] = dict()
 
     def get_assay_total(self, name):
         """
-- 
2.43.0


From 43ea0f194e078c43bcbc72ff9217fa96f496b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 32/95] fix: an empty line after the custom properties of a
 material raised IndexError

---
 auxi/modelling/process/materials/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 9abf4e0..dc14445 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -137,6 +137,8 @@ class Material(NamedObject):
         if must_read_custom_properties:
             for i in range(i+1, len(lines)):
                 strings = lines[i].split(" ")
+                if len(strings) < len(assay_names) + 1:  # Not a full line.
+                    continue
                 for j in range(0, len(self.raw_assays)):
                     assay_name = assay_names[j]
                     property_name = strings[0]
-- 
2.43.0


From 9501238313e81694406798bca6de952af2c66da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 33/95] fix: the element mass flow rates of a stream raised
 TypeError

---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index dc14445..19b5982 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1707,7 +1707,7 @@ class MaterialStream(Object):
         result = numpy.zeros(len(elements))
         for compound in self.material.compounds:
             result += self.get_compound_mfr(compound) *\
-                stoich.element_mass_fractions(compound, elements)
+                numpy.array(stoich.element_mass_fractions(compound, elements))
         return result
 
     def get_element_mfr_dictionary(self):
-- 
2.43.0


From fb21fab7c4c6628fefa7f1aadad88027402ae33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 34/95] fix: looking up a missing sub account raised IndexError
 instead of returning None

---
 auxi/modelling/financial/des.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/des.py b/auxi/modelling/financial/des.py
index e8b530e..3b8ec01 100644
--- a/auxi/modelling/financial/des.py
+++ b/auxi/modelling/financial/des.py
@@ -56,7 +56,11 @@ class GeneralLedgerAccount(NamedObject):
         super(GeneralLedgerAccount, self).__init__(name, description)
 
     def __getitem__(self, key):
-        return [a for a in self.accounts if a.name == key][0]
+        items = [a for a in self.accounts if a.name == key]
+        if len(items) == 0:
+            return None
+        else:
+            return items[0]
 
     def __missing__(self, key):
         return None
-- 
2.43.0


From 1f6f7ceb59c709076abb599d6cf92cc273863e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 35/95] fix: the account report dropped the numbers of higher
 level accounts

---
 auxi/modelling/financial/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 73eb595..9da73ed 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -60,7 +60,7 @@ class GeneralLedgerStructure(Report):
                       account.name, account.description])
         for acc in sorted(account.accounts, key=lambda a: a.number):
             self._gl_accounts_to_table_(
-                table, acc, account.number + '/')
+                table, acc, prefix + account.number + '/')
 
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
-- 
2.43.0


From b1f2e48a981318c4bd1be6f92371479b2182a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 36/95] fix: the account report failed on an account without a
 number

---
 auxi/modelling/financial/reporting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 9da73ed..d5a4325 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -56,11 +56,11 @@ class GeneralLedgerStructure(Report):
 
     def _gl_accounts_to_table_(self, table, account, prefix=''):
         table.append([account.account_type.name,
-                      prefix + account.number,
+                      prefix + (account.number or ''),
                       account.name, account.description])
-        for acc in sorted(account.accounts, key=lambda a: a.number):
+        for acc in sorted(account.accounts, key=lambda a: a.number or ''):
             self._gl_accounts_to_table_(
-                table, acc, prefix + account.number + '/')
+                table, acc, prefix + (account.number or '') + '/')
 
     def _generate_table_(self):
         table = [["Type", "Number", "Name", "Description"]]
-- 
2.43.0


From d695b59ed9834f23d99d12943ea7c33b022c8716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 37/95] fix: the income statement gave the first credit to an
 expense or debit to an income the wrong sign

---
 auxi/modelling/financial/reporting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index d5a4325..435fb1f 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -276,14 +276,14 @@ class IncomeStatement(Report):
                         if t.cr_account in summedExpenses:
                             summedExpenses[t.cr_account] -= t.amount
                         else:
-                            summedExpenses[t.cr_account] = t.amount
+                            summedExpenses[t.cr_account] = -t.amount
                 if not t.is_closing_cr_account and \
                    not t.is_closing_dt_account and t.dt_account != "":
                     if dt_account_type == AccountType.revenue:
                         if t.dt_account in summedIncome:
                             summedIncome[t.dt_account] -= t.amount
                         else:
-                            summedIncome[t.dt_account] = t.amount
+                            summedIncome[t.dt_account] = -t.amount
                     elif dt_account_type == AccountType.expense:
                         if t.dt_account in summedExpenses:
                             summedExpenses[t.dt_account] += t.amount
-- 
2.43.0


From 30978bef72b2a093a4f0027eeac4d361d7192a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 38/95] fix: reports failed on a transaction without a source

---
 auxi/modelling/financial/reporting.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 435fb1f..2ce085d 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -103,14 +103,15 @@ class TransactionList(Report):
         amount_tot = 0
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: v.tx_date):
-            if not t.source.startswith(self.component_path):
+            source = "" if t.source is None else t.source
+            if not source.startswith(self.component_path):
                 continue
             if self.start_date <= t.tx_date <= self.end_date:
-                if t.source.endswith(t.name):
+                if source.endswith(t.name):
                     name = ''
                 else:
                     name = t.name
-                table.append([t.tx_date, t.source, name,
+                table.append([t.tx_date, source, name,
                               t.dt_account, t.cr_account,
                               "%.2f" % t.amount,
                               "" if t.description is None else t.description])
@@ -260,7 +261,8 @@ class IncomeStatement(Report):
         summedIncome = {}
         summedExpenses = {}
         for t in self.data_source.transactions:
-            if not t.source.startswith(self.component_path):
+            source = "" if t.source is None else t.source
+            if not source.startswith(self.component_path):
                 continue
             if self.start_date <= t.tx_date <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
-- 
2.43.0


From 3b13dbfa345baecd9378247a1e71d079bc54c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 39/95] fix: a component's report included components whose
 names start with its name

---
 auxi/modelling/financial/reporting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 2ce085d..7343d4c 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -42,6 +42,10 @@ class Report(ReportBase):
     def __init__(self, data_source, output_path=None):
         super(Report, self).__init__(data_source, output_path)
 
+    def _is_from_component_(self, source, component_path):
+        path = component_path.rstrip('/')
+        return path == "" or source == path or source.startswith(path + '/')
+
 
 class GeneralLedgerStructure(Report):
     """
@@ -104,7 +108,7 @@ class TransactionList(Report):
         tx_list = self.data_source.transactions
         for t in sorted(tx_list, key=lambda v: v.tx_date):
             source = "" if t.source is None else t.source
-            if not source.startswith(self.component_path):
+            if not self._is_from_component_(source, self.component_path):
                 continue
             if self.start_date <= t.tx_date <= self.end_date:
                 if source.endswith(t.name):
@@ -262,7 +266,7 @@ class IncomeStatement(Report):
         summedExpenses = {}
         for t in self.data_source.transactions:
             source = "" if t.source is None else t.source
-            if not source.startswith(self.component_path):
+            if not self._is_from_component_(source, self.component_path):
                 continue
             if self.start_date <= t.tx_date <= self.end_date:
                 cr_account_type = gls.get_account(t.cr_account).account_type
-- 
2.43.0


From b37bc49112a11f06bf1d74fdf78b4fe18fc632d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 40/95] fix: reports failed when dates with and without a time
 were mixed

---
 auxi/modelling/financial/reporting.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 7343d4c..50c8b80 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -3,7 +3,7 @@
 This module provides classes to manage currencies.
 """
 
-from datetime import datetime
+from datetime import datetime, time
 
 from enum import Enum
 
@@ -42,6 +42,20 @@ class Report(ReportBase):
     def __init__(self, data_source, output_path=None):
         super(Report, self).__init__(data_source, output_path)
 
+    def _date_key_(self, value):
+        if isinstance(value, datetime):
+            return value
+        else:
+            return datetime.combine(value, time.min)
+
+    def _is_in_order_(self, first, second):
+        # Compare the days if at least one is a date without a time.
+        if not isinstance(first, datetime) or \
+           not isinstance(second, datetime):
+            return self._date_key_(first).date() <= \
+                self._date_key_(second).date()
+        return first <= second
+
     def _is_from_component_(self, source, component_path):
         path = component_path.rstrip('/')
         return path == "" or source == path or source.startswith(path + '/')
@@ -106,11 +120,12 @@ class TransactionList(Report):
                   "Credit Account", "Amount", "Description"]]
         amount_tot = 0
         tx_list = self.data_source.transactions
-        for t in sorted(tx_list, key=lambda v: v.tx_date):
+        for t in sorted(tx_list, key=lambda v: self._date_key_(v.tx_date)):
             source = "" if t.source is None else t.source
             if not self._is_from_component_(source, self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if self._is_in_order_(self.start_date, t.tx_date) and \
+               self._is_in_order_(t.tx_date, self.end_date):
                 if source.endswith(t.name):
                     name = ''
                 else:
@@ -147,7 +162,7 @@ class BalanceSheet(Report):
         summedEquity = {}
 
         for t in self.data_source.transactions:
-            if t.tx_date <= self.end_date:
+            if self._is_in_order_(t.tx_date, self.end_date):
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if cr_account_type == AccountType.asset:
@@ -268,7 +283,8 @@ class IncomeStatement(Report):
             source = "" if t.source is None else t.source
             if not self._is_from_component_(source, self.component_path):
                 continue
-            if self.start_date <= t.tx_date <= self.end_date:
+            if self._is_in_order_(self.start_date, t.tx_date) and \
+               self._is_in_order_(t.tx_date, self.end_date):
                 cr_account_type = gls.get_account(t.cr_account).account_type
                 dt_account_type = gls.get_account(t.dt_account).account_type
                 if not t.is_closing_cr_account and \
-- 
2.43.0


From 064251fb728c2d00758b29f0eec44396ca8f6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 41/95] fix: the year end lost an account debited or credited
 together with another income statement account

---
 auxi/modelling/business/structure.py | 52 ++++++----------------------
 1 file changed, 10 insertions(+), 42 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 01704da..92cd5bb 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -413,49 +413,17 @@ class Entity(NamedObject):
                 cr_acc = gls.get_account(tx.cr_account)
                 dt_acc = gls.get_account(tx.dt_account)
 
-                if cr_acc in sales_accs:
-                    if cr_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[cr_acc] += tx.amount
+                for acc, amount in ((cr_acc, tx.amount), (dt_acc, -tx.amount)):
+                    if acc in sales_accs or acc in cost_of_sales_accs:
+                        accs = gross_profit_write_off_accs
+                    elif acc.account_type == AccountType.revenue:
+                        accs = inc_summary_write_off_accs
+                    elif acc.account_type == AccountType.expense:
+                        accs = inc_summary_write_off_accs
+                        amount = -amount
                     else:
-                        gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
-                elif cr_acc in cost_of_sales_accs:
-                    if cr_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[cr_acc] += tx.amount
-                    else:
-                        gross_profit_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc in cost_of_sales_accs:
-                    if dt_acc in gross_profit_write_off_accs:
-                        gross_profit_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        gross_profit_write_off_accs[dt_acc] = -tx.amount
-
-                elif cr_acc.account_type == AccountType.revenue:
-                    if cr_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[cr_acc] += tx.amount
-                    else:
-                        inc_summary_write_off_accs[cr_acc] = tx.amount
-                elif dt_acc.account_type == AccountType.revenue:
-                    if dt_acc.account_type == AccountType.revenue:
-                        inc_summary_write_off_accs[dt_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = -tx.amount
-
-                elif cr_acc.account_type == AccountType.expense:
-                    if cr_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[cr_acc] -= tx.amount
-                    else:
-                        inc_summary_write_off_accs[cr_acc] = -tx.amount
-                elif dt_acc.account_type == AccountType.expense:
-                    if dt_acc in inc_summary_write_off_accs:
-                        inc_summary_write_off_accs[dt_acc] += tx.amount
-                    else:
-                        inc_summary_write_off_accs[dt_acc] = tx.amount
+                        continue
+                    accs[acc] = accs.get(acc, 0) + amount
 
             inc_sum = self._perform_year_end_gross_profit_and_income_summary(
                 year_end_date,
-- 
2.43.0


From 00115f801f32ac45064f49894e7d3a822974f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 42/95] fix: an activity starting after the last period ran
 from the first, and a later run kept its old periods

---
 auxi/modelling/business/structure.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 92cd5bb..b53feb5 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -88,15 +88,17 @@ class Activity(NamedObject):
           requested to be run for.
         """
 
-        if self.start_period_ix == -1 and self.start_datetime != datetime.min:
+        self.start_period_ix = 0
+        if self.start_datetime != datetime.min:
             # Set the Start period index
+            if self.start_datetime > clock.get_datetime_at_period_ix(0):
+                self.start_period_ix = period_count
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
                     break
-        if self.start_period_ix == -1:
-            self.start_period_ix = 0
-        if self.period_count == -1 and self.end_datetime != datetime.max:
+        self.period_count = -1
+        if self.end_datetime != datetime.max:
             # Set the Start date
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
-- 
2.43.0


From 82d8eafc467e31f96876740f963031800c8b2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 43/95] fix: a loan without interest or duration raised
 ZeroDivisionError

---
 auxi/modelling/business/basic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 4b5cdb7..cb7e9bf 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -193,8 +193,13 @@ class BasicLoanActivity(Activity):
 
     def _update_monthly_payment_(self):
         int_rate = self._monthly_interest_rate
-        val = (self.amount * int_rate)
-        val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
+        if self.duration <= 0:
+            val = 0.0
+        elif int_rate == 0.0:
+            val = self.amount / self.duration
+        else:
+            val = (self.amount * int_rate)
+            val = val / (1 - (1 / pow((1 + int_rate), self.duration)))
         self._monthly_payment = val
 
     @property
-- 
2.43.0


From 467fc9c7310f284e7b86ab0d589705040f2bc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 44/95] fix: a loan with its start given as text raised
 TypeError

---
 auxi/modelling/business/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index cb7e9bf..4af0d2d 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -179,7 +179,7 @@ class BasicLoanActivity(Activity):
             name,
             description=description,
             start=start,
-            end=start + relativedelta(months=duration+1),
+            end=self._get_date_(start) + relativedelta(months=duration+1),
             interval=interval)
         self.bank_account = bank_account
         self.loan_account = loan_account
-- 
2.43.0


From 22464d839a123e281bae9b4275752ce4846c3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 45/95] fix: a new entity's path lacked the model's name until
 the model was renamed

---
 auxi/modelling/business/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 0dffa67..41450de 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -74,6 +74,7 @@ class TimeBasedModel(NamedObject):
         """
 
         new_entity = Entity(name, gl_structure, description=description)
+        new_entity.set_parent_path(self.name)
         self.entities.append(new_entity)
         return new_entity
 
-- 
2.43.0


From f9d875ce2df7597e1c3f7583008119973c332356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 46/95] fix: an activity ending one period before its start ran
 without an end

---
 auxi/modelling/business/structure.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index b53feb5..7a9f25f 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -97,17 +97,14 @@ class Activity(NamedObject):
                 if clock.get_datetime_at_period_ix(i) > self.start_datetime:
                     self.start_period_ix = i
                     break
-        self.period_count = -1
+        self.period_count = period_count
         if self.end_datetime != datetime.max:
             # Set the Start date
             for i in range(0, period_count):
                 if clock.get_datetime_at_period_ix(i) > self.end_datetime:
                     self.period_count = i - self.start_period_ix
                     break
-        if self.period_count != -1:
-            self.end_period_ix = self.start_period_ix + self.period_count
-        else:
-            self.end_period_ix = self.start_period_ix + period_count
+        self.end_period_ix = self.start_period_ix + self.period_count
 
     def get_referenced_accounts(self):
         """
-- 
2.43.0


From 2924b77e91ea7f51b914fa79b7e59cfa48d8d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 47/95] fix: a model with its start given as text could not run
 activities with a start or end

---
 auxi/modelling/business/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index 41450de..e31180c 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -7,7 +7,6 @@ from datetime import datetime
 
 from auxi.core.objects import NamedObject
 from auxi.core.time import Clock, TimePeriod
-from auxi.core.helpers import get_date
 from auxi.modelling.business.structure import Entity
 
 __version__ = '0.3.6'
@@ -41,9 +40,11 @@ class TimeBasedModel(NamedObject):
                  start_datetime=datetime.now(),
                  period_duration=TimePeriod.year,
                  period_count=1):
+        if type(start_datetime) is str:
+            start_datetime = datetime.strptime(start_datetime, '%Y-%m-%d')
         self.clock = Clock(
             "Clock",
-            start_datetime=get_date(start_datetime),
+            start_datetime=start_datetime,
             timestep_period_duration=period_duration)
         self.period_count = period_count
         self.entities = []
-- 
2.43.0


From 6a0f92a2f898e2de9b434b762e8168bf46a360dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 48/95] fix: a loan without a start never ran

---
 auxi/modelling/business/basic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index 4af0d2d..d7a5809 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -235,6 +235,11 @@ class BasicLoanActivity(Activity):
           requested to be run for.
         """
 
+        if self.start_datetime == datetime.min:
+            # The loan is made in the first period.
+            self.end_datetime = clock.start_datetime + \
+                relativedelta(months=self.duration)
+
         super(BasicLoanActivity, self).prepare_to_run(clock, period_count)
 
         self._months_executed = 0
-- 
2.43.0


From d80c896220f09cb438202a4ae1993d72f4d60f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 49/95] fix: printed reports rounded amounts to six significant
 digits

---
 auxi/core/reporting.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/auxi/core/reporting.py b/auxi/core/reporting.py
index 7378b15..a143c4f 100644
--- a/auxi/core/reporting.py
+++ b/auxi/core/reporting.py
@@ -47,6 +47,11 @@ class Report(Object):
     def _generate_table_(self):
         return []
 
+    def _tabulate_(self, table, tablefmt):
+        # Leave numbers as they were formatted by the report.
+        return tabulate(table, headers="firstrow", tablefmt=tablefmt,
+                        disable_numparse=True)
+
     def _render_matplotlib_(self, png=False):
         pass
 
@@ -63,7 +68,7 @@ class Report(Object):
 
         table = self._generate_table_()
         if format == ReportFormat.printout:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
         elif format == ReportFormat.latex:
             self._render_latex_(table)
         elif format == ReportFormat.txt:
@@ -71,7 +76,7 @@ class Report(Object):
         elif format == ReportFormat.csv:
             self._render_csv_(table)
         elif format == ReportFormat.string:
-            return str(tabulate(table, headers="firstrow", tablefmt="simple"))
+            return str(self._tabulate_(table, "simple"))
         elif format == ReportFormat.matplotlib:
             self._render_matplotlib_()
         elif format == ReportFormat.png:
@@ -83,18 +88,16 @@ class Report(Object):
     def _render_latex_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.tex', 'w') as f:
-                f.write(
-                    tabulate(table, headers="firstrow", tablefmt="latex"))
+                f.write(self._tabulate_(table, "latex"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="latex"))
+            print(self._tabulate_(table, "latex"))
 
     def _render_txt_(self, table):
         if self.output_path is not None:
             with open(self.output_path + '.txt', 'w') as f:
-                f.write(
-                    tabulate(table, headers="firstrow", tablefmt="simple"))
+                f.write(self._tabulate_(table, "simple"))
         else:
-            print(tabulate(table, headers="firstrow", tablefmt="simple"))
+            print(self._tabulate_(table, "simple"))
 
     def _render_csv_(self, table):
         if self.output_path is not None:
-- 
2.43.0


From 2d3054dc2f07f3485512f6b97a590e41ab8ce43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 50/95] fix: objects written to a file were read back with
 their references mixed up

jsonpickle numbers shared objects in the order in which they are written,
so sorting the keys of its output makes the numbers point at other objects.
---
 auxi/core/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index 655998c..37292eb 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -21,7 +21,7 @@ class Object(object):
 
     def __str__(self):
         o = json.loads(jsonpickle.encode(self))
-        result = json.dumps(o, sort_keys=True, indent=4,
+        result = json.dumps(o, indent=4,
                             separators=(',', ': '))
         return result
 
-- 
2.43.0


From 1510f6fb7eb441cce894247768ef5dd7b10160e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 51/95] fix: materials and packages were written to file as
 text that cannot be read

Classes with their own text form wrote that instead of the encoded object.
---
 auxi/core/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index 37292eb..d206764 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -19,12 +19,15 @@ class Object(object):
     Base class for all auxi classes.
     """
 
-    def __str__(self):
+    def _to_json_(self):
         o = json.loads(jsonpickle.encode(self))
         result = json.dumps(o, indent=4,
                             separators=(',', ': '))
         return result
 
+    def __str__(self):
+        return self._to_json_()
+
     def __hash__(self):
         return hash(str(self))
 
@@ -36,7 +39,7 @@ class Object(object):
 
     def write(self, path):
         with open(path, 'w') as file:
-            file.write(str(self))
+            file.write(self._to_json_())
 
     @staticmethod
     def read(path):
-- 
2.43.0


From 5c9a686a5a3e5c968734264a30cde4ade801c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 52/95] fix: the Rayleigh number could not be calculated

The function used two names that do not exist.
---
 auxi/tools/transportphenomena/dimensionlessquantities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/dimensionlessquantities.py b/auxi/tools/transportphenomena/dimensionlessquantities.py
index de85172..5b447c0 100644
--- a/auxi/tools/transportphenomena/dimensionlessquantities.py
+++ b/auxi/tools/transportphenomena/dimensionlessquantities.py
@@ -16,6 +16,9 @@ doing transport phenomena calculations.
 #              'Ts' and 'Tinf' instead of 'dT'
 
 
+from auxi.tools import physicalconstants as const
+
+
 __version__ = '0.3.6'
 __license__ = 'LGPL v3'
 __copyright__ = 'Copyright 2016, Ex Mente Technologies (Pty) Ltd'
@@ -99,7 +102,7 @@ def Ra(L: float, Ts: float, Tf: float, alpha: float, beta: float, nu: float
         * bluff body: diameter
     """
 
-    return g * beta * (Ts - Tinf) * L**3.0 / (nu * alpha)
+    return const.g * beta * (Ts - Tf) * L**3.0 / (nu * alpha)
 
 
 def Nu(L: float, h: float, k: float) -> float:
-- 
2.43.0


From 1ee66410c916adc2fefbd1d454d2291ff42cc2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 53/95] fix: no natural convection equation was selected on
 some region boundaries

The regions left out 88 degrees with a Rayleigh number below 1e6, and a
Rayleigh number of exactly 1e5 between 0 and 88 degrees.
---
 .../transportphenomena/heattransfer/naturalconvection.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index ead2065..907f965 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -236,7 +236,7 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         eq_dict[region] = ifs._Nu_x__8_26
         region = self.Region("r14", 0, True, 0, True, 11, False, None, False)
         eq_dict[region] = ifs._Nu_x__8_26
-        region = self.Region("r15", 0, False, 88, False, None, False, 5, False)
+        region = self.Region("r15", 0, False, 88, False, None, False, 5, True)
         eq_dict[region] = ifs._Nu_x__8_27
         region = self.Region("r16", 0, True, 88, False, 5, True, 11, True,
                              "In_Eq_Region")
@@ -244,7 +244,7 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         region = self.Region("r17", 0, False, 88, False, 11, False, None,
                              False)
         eq_dict[region] = ifs._Nu_x__8_27
-        region = self.Region("r18", 88, False, 90, True, None, False, 6, False)
+        region = self.Region("r18", 88, True, 90, True, None, False, 6, False)
         eq_dict[region] = ifs._Nu_x__8_38
         region = self.Region("r19", 88, True, 90, True, 6, True, 9, True,
                              "In_Eq_Region")
-- 
2.43.0


From b7a4e1b77e0f9a34f9022e4908b9a5464379d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 54/95] fix: the natural convection equation did not depend on
 the Rayleigh number

The limits of the regions are powers of ten (and are plotted as such), but were
compared with the Rayleigh number itself, so that the equations for low
Rayleigh numbers were never used.
---
 .../transportphenomena/heattransfer/naturalconvection.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 907f965..9e8ae20 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -3,7 +3,7 @@ This module provides tools to calculate natural convection heat transfer
 coefficients.
 """
 
-from math import radians, cos
+from math import radians, cos, log10, inf
 from matplotlib import pyplot as plt
 from matplotlib.patches import Rectangle
 
@@ -320,8 +320,10 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         Pr = dq.Pr(nu, alpha)
         Ra = Gr * Pr
 
+        # the regions are expressed in terms of the order of magnitude of Ra
+        log_Ra = log10(Ra) if Ra > 0.0 else -inf
         eq = [self.equation_dict[r]
-              for r in self.regions if r.contains_point(theta, Ra)][0]
+              for r in self.regions if r.contains_point(theta, log_Ra)][0]
 
         return eq(self, Ra, Pr)
 
-- 
2.43.0


From 9320955ccb2b9593e9fb576c572caa8e2a431401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 55/95] fix: natural convection at a cold surface was a complex
 number

The buoyancy force acts the other way, which made the Grashof number negative.
The correlations need its magnitude.
---
 auxi/tools/transportphenomena/heattransfer/naturalconvection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 9e8ae20..8d95efd 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -316,7 +316,7 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
         nu = self._fluid.nu(T=self.Tr)
         alpha = self._fluid.alpha(T=self.Tr)
 
-        Gr = dq.Gr(L, Ts, Tf, beta, nu, g)
+        Gr = abs(dq.Gr(L, Ts, Tf, beta, nu, g))
         Pr = dq.Pr(nu, alpha)
         Ra = Gr * Pr
 
-- 
2.43.0


From a0882bc5ff572199e0d88f8cb3b8e6be35f889e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 56/95] fix: the Riboud viscosity model changed the composition
 it was given

---
 auxi/tools/materialphysicalproperties/slags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 89c76a9..f55e3a8 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -169,6 +169,7 @@ class RiboudViscosityTx(Model):
                          compounds_caf2 + compounds_na2o)
 
         # convert compounds with two cations to single cation equivalents
+        x = dict(x)
         if 'P2O5' in x:
             x['PO2.5'] = 2.0 * x['P2O5']
         if 'Fe2O3' in x:
-- 
2.43.0


From 609021a425563c7aacd524be4d0362afbdab8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 57/95] fix: a material without property models could not be
 created

---
 auxi/modelling/process/materials/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auxi/modelling/process/materials/core.py b/auxi/modelling/process/materials/core.py
index 89970f6..6522733 100644
--- a/auxi/modelling/process/materials/core.py
+++ b/auxi/modelling/process/materials/core.py
@@ -35,6 +35,9 @@ class Material(NamedObject):
         self.mstate = state_of_matter
         """State of matter."""
 
+        if property_models is None:
+            property_models = {}
+
         if 'alpha' in property_models:
             self.alpha = property_models['alpha']
 
-- 
2.43.0


From 3a39c1b939fbe47f7fc42fec75b463d6d0765783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 58/95] fix: gas mixture, slag and coal property models did not
 validate the state

The models declare a state schema, which only the other models enforced, so
that results were returned for states the schema excludes.
---
 .../tools/materialphysicalproperties/coals.py |  2 +
 .../tools/materialphysicalproperties/gases.py |  3 ++
 .../tools/materialphysicalproperties/slags.py | 44 ++++++++++++++-----
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/coals.py b/auxi/tools/materialphysicalproperties/coals.py
index f482cca..47cc052 100644
--- a/auxi/tools/materialphysicalproperties/coals.py
+++ b/auxi/tools/materialphysicalproperties/coals.py
@@ -109,6 +109,7 @@ class DafCpTy(DafThermoTy):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
         T = state['T']
         y_C = state['y_C']
         y_H = state['y_H']
@@ -158,6 +159,7 @@ class DafHTy(DafThermoTy):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
         T = state['T']
         y_C = state['y_C']
         y_H = state['y_H']
diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4844129..aaa93b2 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -444,6 +444,7 @@ class WilkeMuTx(Model):
 
             return result
 
+        super().calculate(**state)
         T = state['T']
         x = state['x']
 
@@ -532,6 +533,7 @@ class HerningZippererMuTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
         T = state['T']
         x = state['x']
 
@@ -613,6 +615,7 @@ class IdealCpTx(Model):
         that are used to describe the state of the material.
         """
 
+        super().calculate(**state)
         T = state["T"]
         x = state["x"]
 
diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index f55e3a8..5928538 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -55,8 +55,19 @@ class UrbainViscosityTx(Model):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        x = state['x']
+        Model.calculate(self, **state)
+        return self._calculate_mu(state['T'], state['x'])
+
+    def _calculate_mu(self, T, x):
+        """
+        Calculate dynamic viscosity at the specified temperature and
+        composition:
+
+        :param T: [K] temperature
+        :param x: [mole fraction] composition dictionary
+
+        :returns: [Pa.s] dynamic viscosity
+        """
 
         # normalise mole fractions
         x_total = sum(x.values())
@@ -122,10 +133,9 @@ class UrbainViscosityTy(UrbainViscosityTx):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        y = state['y']
-        x = amount_fractions(y)
-        return super().calculate(T=T, x=x)
+        Model.calculate(self, **state)
+        x = amount_fractions(state['y'])
+        return self._calculate_mu(state['T'], x)
 
 
 class RiboudViscosityTx(Model):
@@ -156,8 +166,19 @@ class RiboudViscosityTx(Model):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        x = state['x']
+        Model.calculate(self, **state)
+        return self._calculate_mu(state['T'], state['x'])
+
+    def _calculate_mu(self, T, x):
+        """
+        Calculate dynamic viscosity at the specified temperature and
+        composition:
+
+        :param T: [K] temperature
+        :param x: [mole fraction] composition dictionary
+
+        :returns: [Pa.s] dynamic viscosity
+        """
 
         # create the slag constituent categories
         compounds_sio2 = ['SiO2', 'PO2.5', 'TiO2', 'ZrO2']
@@ -225,10 +246,9 @@ class RiboudViscosityTy(RiboudViscosityTx):
         that are used to describe the state of the material.
         """
 
-        T = state['T']
-        y = state['y']
-        x = amount_fractions(y)
-        return super().calculate(T=T, x=x)
+        Model.calculate(self, **state)
+        x = amount_fractions(state['y'])
+        return self._calculate_mu(state['T'], x)
 
 
 ds1 = DataSet(_path('data/dataset-slag-slagatlas1995.csv'))
-- 
2.43.0


From 724e39ee6ebf617663e244e6d8a9705992edfd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 59/95] fix: Colebrook's friction factor could not be
 calculated

The function to be solved cannot take the array it gets from the solver. With
that out of the way, the solver still tries negative friction factors for many
Reynolds numbers, so use one that stays between limits.
---
 .../fluidflow/pressuredrop.py                  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
index bb6b30c..81bb403 100644
--- a/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
+++ b/auxi/tools/transportphenomena/fluidflow/pressuredrop.py
@@ -14,8 +14,8 @@ __status__ = "Planning"
 
 import sys
 
-from math import log10, sqrt
-from scipy.optimize import root
+from math import log10
+from scipy.optimize import brentq
 
 
 def color_warn(text):
@@ -91,20 +91,20 @@ def f_tr_Colebrook(Re_D, ɛ, D):
     :return: Friction factor.
     """
 
-    def cb(f, Re_D, ɛ, D):
+    def cb(x):
         """
-        Calculate the Colebrook function in the form that the Darcy friction
-        factor roots can be calculated.
+        Calculate the Colebrook function as a function of x = 1/sqrt(f), f
+        being the Darcy friction factor. It increases with x, and has one root.
 
         Source: cengel2018, Eq. 8-74.
         """
         term1 = ɛ / D / 3.7
-        term2 = 2.51 / Re_D / sqrt(f)
+        term2 = 2.51 / Re_D * x
 
-        return -2 * log10(term1 + term2) - 1 / sqrt(f)
+        return x + 2 * log10(term1 + term2)
 
-    # find the roots of the Colebrook equation
-    return root(cb, 0.02, args=(Re_D, ɛ, D)).x[0]
+    # find the root of the Colebrook equation
+    return 1 / brentq(cb, 1.0E-3, 1.0E3, xtol=1.0E-13)**2
 
 
 def D_h(A, P):
-- 
2.43.0


From 1846aaafcdcebf4ec74e081d6d7e2ba335a2e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 60/95] fix: give the gases their own names

The variable with the name of the gas was reused for the paths of its model
files, so that every gas was called after the last file.
---
 .../tools/materialphysicalproperties/gases.py | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index aaa93b2..4552984 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -112,8 +112,8 @@ def _create_air():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        file_name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(file_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -150,8 +150,8 @@ def _create_argon():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        file_name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(file_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -187,8 +187,8 @@ def _create_ammonia():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        file_name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(file_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -224,8 +224,8 @@ def _create_carbon_dioxide():
 
     model_type = "polynomialmodelt"
     for property in ["rho", "Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        file_name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(file_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -262,8 +262,8 @@ def _create_carbon_monoxide():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        file_name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(file_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -300,8 +300,8 @@ def _create_nitrogen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        file_name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(file_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -338,8 +338,8 @@ def _create_oxygen():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        file_name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(file_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
@@ -376,8 +376,8 @@ def _create_water_vapour():
 
     model_type = "polynomialmodelt"
     for property in ["Cp", "mu", "k"]:
-        name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
-        model_dict[property] = PolynomialModelT.read(_path(name))
+        file_name = f"data/{namel}-{property.lower()}-{model_type}-{active_ds}.json"
+        model_dict[property] = PolynomialModelT.read(_path(file_name))
 
     material = Material(name, StateOfMatter.gas, model_dict)
 
-- 
2.43.0


From f8ad883ac47290b62145cbbe50c5a7e7299fec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 61/95] fix: keep every entry of a bibtex file

Entries of types such as report and online, of which the bibliography that
comes with the package has two, were dropped.
---
 auxi/core/bibliography.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/core/bibliography.py b/auxi/core/bibliography.py
index b637ba8..c99ac42 100644
--- a/auxi/core/bibliography.py
+++ b/auxi/core/bibliography.py
@@ -5,6 +5,7 @@ This package provides auxi's bibliography, and tools to interact with it.
 
 
 import bibtexparser
+from bibtexparser.bparser import BibTexParser
 from os import path
 
 
@@ -30,7 +31,8 @@ class Database(object):
         with open(path) as file:
             bibtex_str = file.read()
 
-        bib_database = bibtexparser.loads(bibtex_str)
+        parser = BibTexParser(ignore_nonstandard_types=False)
+        bib_database = bibtexparser.loads(bibtex_str, parser)
         self._dict = bib_database.get_entry_dict()
 
     def __str__(self):
-- 
2.43.0


From 86ab7d32f353132d79e6413ce586ec17c782bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 62/95] fix: make variable groups constructible

The constructor called that of another class, and did not keep the value that
calling the group returns.
---
 auxi/modelling/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/core.py b/auxi/modelling/core.py
index fe11d9a..d1492b8 100644
--- a/auxi/modelling/core.py
+++ b/auxi/modelling/core.py
@@ -57,7 +57,10 @@ class VariableGroup(NamedObject):
 
     def __init__(self, name, value, units=None, category=None,
                  description=None):
-        super(Variable, self).__init__(name, description)
+        super(VariableGroup, self).__init__(name, description)
+        self.category = category
+        self.value = value
+        self.units = units
 
     def __call__(self):
         return self.value
-- 
2.43.0


From 1981b3ceab513f3d1215528791db8c18432099be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 63/95] fix: print coal streams without a heating value

Printing or hashing such a stream raised a TypeError.
---
 auxi/modelling/process/materials/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 19b5982..2ed3660 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1139,7 +1139,7 @@ class MaterialStream(Object):
             self.T).rjust(15) + " °C\n"
         result += "Enthalpy Flow Rate".ljust(20) + '{:.8e}'.format(
             self.Hfr).rjust(15) + " kWh/h\n"
-        if self.isCoal:
+        if self.isCoal and self.HHV is not None:
             result += "HHV".ljust(20) + '{:.8e}'.format(self.HHV).rjust(15) + " MJ/kg\n"
         result += b2
         result += "Compound Details\n"
-- 
2.43.0


From 1d06c601dba9aaddd02cb6302d0f8a9763aee44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 64/95] fix: plot models on a figure of their own

Models were drawn on, and then closed, whichever figure was open, such as the
one a plot that failed had left behind.
---
 auxi/tools/materialphysicalproperties/gases.py      | 3 +++
 auxi/tools/materialphysicalproperties/idealgas.py   | 1 +
 auxi/tools/materialphysicalproperties/polynomial.py | 1 +
 3 files changed, 5 insertions(+)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 4552984..3ae09fe 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -471,6 +471,7 @@ class WilkeMuTx(Model):
 
     def plot(self, xs, datasets, path, show=False):
         with PdfPages(path) as pdf:
+            plt.figure()
             T_min = 1.0e100
             T_max = -1.0e100
 
@@ -555,6 +556,7 @@ class HerningZippererMuTx(Model):
 
     def plot(self, xs, datasets, path, show=False):
         with PdfPages(path) as pdf:
+            plt.figure()
             T_min = 1.0e100
             T_max = -1.0e100
 
@@ -637,6 +639,7 @@ class IdealCpTx(Model):
 
     def plot(self, xs, datasets, path, show=False):
         with PdfPages(path) as pdf:
+            plt.figure()
             T_min = 1.0e100
             T_max = -1.0e100
 
diff --git a/auxi/tools/materialphysicalproperties/idealgas.py b/auxi/tools/materialphysicalproperties/idealgas.py
index 6a3f5fe..d0cf4dd 100644
--- a/auxi/tools/materialphysicalproperties/idealgas.py
+++ b/auxi/tools/materialphysicalproperties/idealgas.py
@@ -85,6 +85,7 @@ class RhoT(Model):
 
     def plot(self, datasets, path, show=False):
         with PdfPages(path) as pdf:
+            plt.figure()
             x_min = 1.0e100
             x_max = -1.0e100
 
diff --git a/auxi/tools/materialphysicalproperties/polynomial.py b/auxi/tools/materialphysicalproperties/polynomial.py
index 1e2ad30..8bc82cd 100644
--- a/auxi/tools/materialphysicalproperties/polynomial.py
+++ b/auxi/tools/materialphysicalproperties/polynomial.py
@@ -90,6 +90,7 @@ class PolynomialModelT(Model):
 
     def plot(self, datasets, path, show=False):
         with PdfPages(path) as pdf:
+            plt.figure()
             x_min = 1.0e100
             x_max = -1.0e100
 
-- 
2.43.0


From 27ba52d2df607b81e24ad8cec06810317d4efa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 65/95] fix: plot polynomial models without an upper limit

Models that were given their coefficients have no largest temperature.
---
 auxi/tools/materialphysicalproperties/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/materialphysicalproperties/polynomial.py b/auxi/tools/materialphysicalproperties/polynomial.py
index 8bc82cd..c72f9b0 100644
--- a/auxi/tools/materialphysicalproperties/polynomial.py
+++ b/auxi/tools/materialphysicalproperties/polynomial.py
@@ -104,7 +104,7 @@ class PolynomialModelT(Model):
                 x_max = max(max(x_vals), x_max)
 
             x_min = max(x_min, self.state_schema["T"]["min"])
-            x_max = min(x_max, self.state_schema["T"]["max"])
+            x_max = min(x_max, self.state_schema["T"].get("max", x_max))
 
             x_vals2 = np.linspace(x_min, x_max, 80)
             fx = [self(T=x) for x in x_vals2]
-- 
2.43.0


From f43e25295a20451ce9c0dd42d63987e3179be2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 66/95] fix: plot regions without limits on Ra

---
 .../transportphenomena/heattransfer/naturalconvection.py   | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
index 8d95efd..aa05252 100644
--- a/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
+++ b/auxi/tools/transportphenomena/heattransfer/naturalconvection.py
@@ -161,12 +161,9 @@ class IsothermalFlatSurface(EmpiricalCorrelation):
             Ra_max_plot = self.Ra_max
             if self.Ra_min is None:
                 Ra_min_plot = 3
-                Ra_diff = Ra_max_plot - Ra_min_plot
-            elif self.Ra_max is None:
+            if self.Ra_max is None:
                 Ra_max_plot = 12
-                Ra_diff = Ra_max_plot - Ra_min_plot
-            else:
-                Ra_diff = Ra_max_plot - Ra_min_plot
+            Ra_diff = Ra_max_plot - Ra_min_plot
 
             plt.xlim(-90, 90)
             plt.ylim(3, 12)
-- 
2.43.0


From 350c3b7d26246f6c876b9ab8b619076111b73b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:55 +0000
Subject: [PATCH 67/95] fix: gravitational constant as in nist2018-constants

---
 auxi/tools/physicalconstants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/physicalconstants.py b/auxi/tools/physicalconstants.py
index 9bb8f03..813ce21 100644
--- a/auxi/tools/physicalconstants.py
+++ b/auxi/tools/physicalconstants.py
@@ -20,7 +20,7 @@ __status__ = 'Planning'
 c = 299792458.0
 """[m·s-1] speed of light in vacuum, from nist2018-constants"""
 
-G = 6.67403E-11
+G = 6.67430E-11
 """[m3.kg-1.s-2] Newtonian constant of gravitation, from nist2018-constants"""
 
 h = 6.626070150E-34
-- 
2.43.0


From 25115a5103b01244088b3ed20acedc78f60e615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:42 +0000
Subject: [PATCH 68/95] fix: minus signs in the air data set, which made two of
 its columns text

---
 .../data/dataset-air-lienhard2018.csv                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv b/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
index ee39447..8c4de2d 100644
--- a/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
+++ b/auxi/tools/materialphysicalproperties/data/dataset-air-lienhard2018.csv
@@ -5,7 +5,7 @@ Temperature,Density,Heat Capacity,Dynamic Viscosity,Kinematic Viscosity,Thermal
 T,\rho,C_p,\mu,\nu,k,\alpha,Pr
 K,kg/m3,J/kg/K,kg/m/s,m2/s,W/m/K,m2/s,None
 T,rho,Cp,mu,nu,k,alpha,Pr
-100,3.605,1039,0.711E-5,0.197E−5,0.00941,0.251E−5,0.784
+100,3.605,1039,0.711E-5,0.197E-5,0.00941,0.251E-5,0.784
 150,2.368,1012,1.035E-05,4.37E-06,0.01406,5.87E-06,0.745
 200,1.769,1007,1.333E-05,7.54E-06,0.01836,1.031E-05,0.731
 250,1.412,1006,1.606E-05,1.137E-05,0.02241,1.578E-05,0.721
-- 
2.43.0


From bcbd6ad405fd1e86dd0fe282a30cbd86bb7f6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:42 +0000
Subject: [PATCH 69/95] fix: references of thermochemical data could only be
 read where text is UTF-8

---
 auxi/tools/chemistry/thermochemistry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 9815a38..a00e31f 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -779,7 +779,8 @@ def get_datafile_references():
     """
     Retrieve all the references used by the datafiles.
     """
-    with open(get_path(__file__, "data/references.json")) as f:
+    with open(get_path(__file__, "data/references.json"),
+              encoding="utf-8") as f:
         return json.load(f)
 
 
-- 
2.43.0


From c60a700ad482dbb2bae8a97e2ea078a466060d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:42 +0000
Subject: [PATCH 70/95] fix: head of a data set is UTF-8, as its data are,
 whatever the locale

---
 auxi/tools/materialphysicalproperties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/materialphysicalproperties/core.py b/auxi/tools/materialphysicalproperties/core.py
index f19283f..c7d980f 100644
--- a/auxi/tools/materialphysicalproperties/core.py
+++ b/auxi/tools/materialphysicalproperties/core.py
@@ -104,7 +104,7 @@ class DataSet(object):
         return result
 
     def _read_header_information(self):
-        with open(self._file_path, newline='') as file:
+        with open(self._file_path, newline='', encoding='utf-8') as file:
             lines = csv.reader(file, delimiter=',', quotechar='"')
 
             self.name = os.path.basename(self._file_path)
-- 
2.43.0


From 053d0aea3fc21378953525174faf3fcb7dca964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:42 +0000
Subject: [PATCH 71/95] fix: a model without a start started when auxi was
 imported, not now

---
 auxi/modelling/business/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/models.py b/auxi/modelling/business/models.py
index e31180c..ffb2659 100644
--- a/auxi/modelling/business/models.py
+++ b/auxi/modelling/business/models.py
@@ -37,9 +37,11 @@ class TimeBasedModel(NamedObject):
     def __init__(self,
                  name,
                  description=None,
-                 start_datetime=datetime.now(),
+                 start_datetime=None,
                  period_duration=TimePeriod.year,
                  period_count=1):
+        if start_datetime is None:
+            start_datetime = datetime.now()
         if type(start_datetime) is str:
             start_datetime = datetime.strptime(start_datetime, '%Y-%m-%d')
         self.clock = Clock(
-- 
2.43.0


From 03421a36361ddd87de68f35cbdcd62f09bf4a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 72/95] fix: joining a coal stream and one that is not, or is
 of another material, lost heating value

---
 auxi/modelling/process/materials/thermo.py | 80 +++++++++++++++-------
 1 file changed, 56 insertions(+), 24 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 2ed3660..674f79b 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1206,19 +1206,8 @@ class MaterialStream(Object):
         # Add another stream.
         if type(other) is MaterialStream:
             if self.material == other.material:  # Streams of same material.
-                if self.isCoal or other.isCoal:
-                    HHV = 0
-                    if self.HHV:
-                        HHV += self.HHV * self.mfr
-                    if other.HHV:
-                        HHV += other.HHV * other.mfr
-                    HHV /= self.mfr + other.mfr
-                    if self.HHV is None and other.HHV is None:
-                        HHV = None
-                    isCoal = True
-                else:
-                    isCoal = False
-                    HHV = None
+                isCoal = self.isCoal or other.isCoal
+                HHV = self._calculate_HHV_sum(other)
 
                 result = MaterialStream(self.material,
                                          self._compound_mfrs +
@@ -1239,6 +1228,9 @@ class MaterialStream(Object):
                                         self.material.name + "'.")
                     result = result + (compound,
                                        other.get_compound_mfr(compound))
+                if self.isCoal or other.isCoal:
+                    result.isCoal = True
+                    result.HHV = self._calculate_HHV_sum(other)
                 result.Hfr = Hfr
                 return result
 
@@ -1820,22 +1812,62 @@ class MaterialStream(Object):
 
         return result
 
+    def _calculate_HHV_compound(self, compound, mfr):
+        """
+        Calculate the heat that a compound contributes to the higher heating
+        value of a coal.
+
+        :param compound: Formula and phase of the compound.
+        :param mfr: Mass flow rate. [kg/h]
+
+        :returns: Heat. [MJ/h]
+        """
+
+        # Only the elements that make up the daf coal contribute.
+        formula = compound.split('[')[0]
+        if 1.0 not in stoich.element_mass_fractions(formula, 'CHONS'):
+            return 0.0
+        dH = thermo.H(compound, 25, mfr)  # kWh
+        dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'CO2', 'C'))
+        dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))
+        dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))
+        return dH * 3.6  # MJ
+
+    def _calculate_HHV_total(self):
+        """
+        Calculate the heat that the stream contributes to the higher heating
+        value of a coal: the measured value if it is a coal that has one,
+        and else that of its elements.
+
+        :returns: Heat. [MJ/h]
+        """
+
+        if self.isCoal and self.HHV is not None:
+            return self.HHV * self.mfr
+        return sum(self._calculate_HHV_compound(c, self.get_compound_mfr(c))
+                   for c in self.material.compounds)
+
+    def _calculate_HHV_sum(self, other):
+        """
+        Calculate the higher heating value of the sum of two streams.
+
+        :param other: The other MaterialStream.
+
+        :returns: Higher heating value, or None if neither of the streams is
+          a coal with a measured one. [MJ/kg coal]
+        """
+
+        if not any(s.isCoal and s.HHV is not None for s in (self, other)):
+            return None
+        return (self._calculate_HHV_total() + other._calculate_HHV_total()) \
+            / (self.mfr + other.mfr)
+
     def _update_HHV(self, compound, mfr):
         if self.isCoal and self.HHV is None:
             self.HHV = None  # Recalculate the formation enthalpy.
         elif self.isCoal:
             HHV = self.HHV * (self.mfr - mfr)  # MJ
-
-            # Only the elements that make up the daf coal contribute.
-            formula = compound.split('[')[0]
-            if 1.0 in stoich.element_mass_fractions(formula, 'CHONS'):
-                dH = thermo.H(compound, 25, mfr)  # kWh
-                dH -= thermo.H('CO2[G]', 25, cc(mfr, compound, 'CO2', 'C'))
-                dH -= thermo.H('H2O[L]', 25, cc(mfr, compound, 'H2O', 'H'))
-                dH -= thermo.H('SO2[G]', 25, cc(mfr, compound, 'SO2', 'S'))
-                dH *= 3.6  # MJ
-
-                HHV += dH  # MJ
+            HHV += self._calculate_HHV_compound(compound, mfr)  # MJ
             HHV /= self.mfr  # MJ/kg coal
 
             self.HHV = HHV
-- 
2.43.0


From 1e8bcb213b5a7c97884440083e35e4f93221bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:29 +0000
Subject: [PATCH 73/95] fix: setting the heating value of a coal stream left
 its enthalpy that of the old one

---
 auxi/modelling/process/materials/thermo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 674f79b..8aa3053 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1246,7 +1246,7 @@ class MaterialStream(Object):
             result = self.clone()
             result._compound_mfrs[index] += mfr
             result._update_HHV(compound, mfr)
-            result._Hfr += enthalpy
+            result._Hfr = self._Hfr + enthalpy
             result._P = self._P
             return result
 
@@ -1576,6 +1576,8 @@ class MaterialStream(Object):
         self._HHV = HHV  # MJ/kg coal
         if self.isCoal:
             self._DH298 = self._calculate_DH298_coal()  # kWh/kg daf
+            if self.mfr > 0.0:
+                self._Hfr = self._calculate_Hfr(self._T)
 
     @property
     def P(self):
-- 
2.43.0


From 0f55a5c5d9612975503acb6afbb84fa49f44dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 74/95] fix: a loan whose duration or start was changed kept
 the payment and the end of the old ones

---
 auxi/modelling/business/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auxi/modelling/business/basic.py b/auxi/modelling/business/basic.py
index d7a5809..2340a28 100644
--- a/auxi/modelling/business/basic.py
+++ b/auxi/modelling/business/basic.py
@@ -239,6 +239,10 @@ class BasicLoanActivity(Activity):
             # The loan is made in the first period.
             self.end_datetime = clock.start_datetime + \
                 relativedelta(months=self.duration)
+        else:
+            self.end_datetime = self.start_datetime + \
+                relativedelta(months=self.duration+1)
+        self._update_monthly_payment_()
 
         super(BasicLoanActivity, self).prepare_to_run(clock, period_count)
 
-- 
2.43.0


From 2c17f20d87b78f4695f1f2fc101da844a31d8286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 75/95] fix: thermochemical data in a folder with brackets in
 its path were not found

---
 auxi/tools/chemistry/thermochemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index a00e31f..20513fa 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -732,7 +732,7 @@ def load_data_factsage(path=''):
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = glob.glob(os.path.join(path, 'Compound_*.txt'))
+    files = glob.glob(os.path.join(glob.escape(path), 'Compound_*.txt'))
 
     for file in files:
         compound = Compound(_read_compound_from_factsage_file_(file))
@@ -754,7 +754,7 @@ def load_data_auxi(path=''):
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
-    files = glob.glob(os.path.join(path, 'Compound_*.json'))
+    files = glob.glob(os.path.join(glob.escape(path), 'Compound_*.json'))
 
     for file in files:
         compound = Compound.read(file)
-- 
2.43.0


From 685fd438301f4bb908e517b6781aa0fdf547850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 76/95] fix: reports with accents could not be written where
 text is not UTF-8

---
 auxi/core/reporting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/auxi/core/reporting.py b/auxi/core/reporting.py
index a143c4f..8a02484 100644
--- a/auxi/core/reporting.py
+++ b/auxi/core/reporting.py
@@ -87,21 +87,24 @@ class Report(Object):
 
     def _render_latex_(self, table):
         if self.output_path is not None:
-            with open(self.output_path + '.tex', 'w') as f:
+            with open(self.output_path + '.tex', 'w',
+                      encoding='utf-8') as f:
                 f.write(self._tabulate_(table, "latex"))
         else:
             print(self._tabulate_(table, "latex"))
 
     def _render_txt_(self, table):
         if self.output_path is not None:
-            with open(self.output_path + '.txt', 'w') as f:
+            with open(self.output_path + '.txt', 'w',
+                      encoding='utf-8') as f:
                 f.write(self._tabulate_(table, "simple"))
         else:
             print(self._tabulate_(table, "simple"))
 
     def _render_csv_(self, table):
         if self.output_path is not None:
-            with open(self.output_path + '.csv', 'w') as f:
+            with open(self.output_path + '.csv', 'w',
+                      encoding='utf-8') as f:
                 csv.writer(f, lineterminator='\n').writerows(table)
         else:
             with StringIO() as f:
-- 
2.43.0


From bacf83b3f097bfadcb2cdf9f42e280340a860b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 77/95] fix: bibliographies with accents could not be read
 where text is not UTF-8

---
 auxi/core/bibliography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/core/bibliography.py b/auxi/core/bibliography.py
index c99ac42..3c97d8c 100644
--- a/auxi/core/bibliography.py
+++ b/auxi/core/bibliography.py
@@ -28,7 +28,7 @@ class Database(object):
     """
 
     def __init__(self, path):
-        with open(path) as file:
+        with open(path, encoding='utf-8') as file:
             bibtex_str = file.read()
 
         parser = BibTexParser(ignore_nonstandard_types=False)
-- 
2.43.0


From 0235e011d31300ffdfcc9d27715c145c79808250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 78/95] fix: data set templates were written in another
 encoding than they are read

---
 auxi/tools/materialphysicalproperties/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/tools/materialphysicalproperties/core.py b/auxi/tools/materialphysicalproperties/core.py
index c7d980f..2b9980f 100644
--- a/auxi/tools/materialphysicalproperties/core.py
+++ b/auxi/tools/materialphysicalproperties/core.py
@@ -62,7 +62,8 @@ class DataSet(object):
         file_name = 'dataset-%s.csv' % material.lower()
         file_path = os.path.join(path, file_name)
 
-        with open(file_path, 'w', newline='') as csvfile:
+        with open(file_path, 'w', newline='',
+                  encoding='utf-8') as csvfile:
             writer = csv.writer(csvfile, delimiter=',',
                                 quotechar='"', quoting=csv.QUOTE_MINIMAL)
             writer.writerow(['Name', material])
-- 
2.43.0


From dd2edcba5033da02c11a577b9b904eb7a4b96d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 79/95] fix: material files with accents could not be read
 where text is not UTF-8

---
 auxi/modelling/process/materials/chem.py   | 2 +-
 auxi/modelling/process/materials/psd.py    | 2 +-
 auxi/modelling/process/materials/slurry.py | 2 +-
 auxi/modelling/process/materials/thermo.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 687f362..1153de2 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -95,7 +95,7 @@ class Material(NamedObject):
         self.compounds = []
 
         # Read the material's data from the file and prepare it for use.
-        with open(file_path) as f:
+        with open(file_path, encoding="utf-8") as f:
             lines = f.readlines()
         lines = self._prepare_lines_(lines)
 
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 9eb96a8..2dd27e8 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -69,7 +69,7 @@ class Material(NamedObject):
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
-        f = open(file_path, "r")
+        f = open(file_path, "r", encoding="utf-8")
         lines = f.readlines()
         f.close()
         lines = self._prepare_lines(lines)
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index 4c05f02..d28a404 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -78,7 +78,7 @@ class Material(NamedObject):
         self.size_classes = list()
 
         # Read the material's data from the file and prepare it for use.
-        f = open(file_path, "r")
+        f = open(file_path, "r", encoding="utf-8")
         lines = f.readlines()
         f.close()
         lines = self._prepare_lines(lines)
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 8aa3053..a7b6ab6 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -88,7 +88,7 @@ class Material(NamedObject):
         """The material's list of chemical compounds."""
 
         # Read the material's data from the file and prepare it for use.
-        with open(file_path) as f:
+        with open(file_path, encoding="utf-8") as f:
             lines = f.readlines()
         lines = self._prepare_lines(lines)
 
-- 
2.43.0


From 323ae7cd2b32962e21cf334b172f6a033dcd5fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 80/95] fix: loading FactSage data printed the formula of every
 compound

---
 auxi/tools/chemistry/thermochemistry.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index 20513fa..ef45056 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -564,8 +564,6 @@ def _read_compound_from_factsage_file_(file_name):
         lines = f.readlines()
 
     compound = {'Formula': lines[0].split(' ')[1]}
-    # FIXME: replace with logging
-    print(compound['Formula'])
     compound['Phases'] = phs = {}
 
     started = False
-- 
2.43.0


From 9ed45c9c6d733d3904332c846910649267df7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:27 +0000
Subject: [PATCH 81/95] fix: a transaction list left out names that are only
 the end of the name of their source

---
 auxi/modelling/financial/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index 50c8b80..c258eba 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -126,7 +126,7 @@ class TransactionList(Report):
                 continue
             if self._is_in_order_(self.start_date, t.tx_date) and \
                self._is_in_order_(t.tx_date, self.end_date):
-                if source.endswith(t.name):
+                if source == t.name or source.endswith('/' + t.name):
                     name = ''
                 else:
                     name = t.name
-- 
2.43.0


From 5142866f8f25a9242d42e2e87800ad317618cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:27 +0000
Subject: [PATCH 82/95] fix: cost of sales that was given another name was
 shown among the other expenses

---
 auxi/modelling/financial/reporting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/financial/reporting.py b/auxi/modelling/financial/reporting.py
index c258eba..bd453ac 100644
--- a/auxi/modelling/financial/reporting.py
+++ b/auxi/modelling/financial/reporting.py
@@ -315,6 +315,10 @@ class IncomeStatement(Report):
 
     def _generate_table_(self):
         summedIncome, summedExpenses = self._sum_amounts_per_account_()
+        cos_path = self.data_source.structure._acci_cos_.path
+
+        def is_cos(path):
+            return path == cos_path or path.startswith(cos_path + '/')
 
         sum_incomes = sum(summedIncome.values())
         sum_expenses = sum(summedExpenses.values())
@@ -330,7 +334,7 @@ class IncomeStatement(Report):
         table.append(["-------------", "", ""])
         cos_sum = 0
         for entry in summedExpenses:
-            if entry.startswith('Cost of Sales'):
+            if is_cos(entry):
                 cos_sum += summedExpenses[entry]
                 table.append([entry, "%.2f" % summedExpenses[entry], ""])
         table.append(["", "", "--------"])
@@ -341,7 +345,7 @@ class IncomeStatement(Report):
         table.append(["Expenses", "", ""])
         table.append(["--------", "", ""])
         for entry in summedExpenses:
-            if not entry.startswith('Cost of Sales'):
+            if not is_cos(entry):
                 table.append([entry, "%.2f" % summedExpenses[entry], ""])
         table.append(["", "--------", ""])
         table.append(["Total Expenses", "%.2f" % (sum_expenses - cos_sum), ""])
-- 
2.43.0


From 8d579af57eeaea7c862344daa7b199d95ea4375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:34 +0000
Subject: [PATCH 83/95] fix: amounts of single precision reduced the water of a
 slurry to single precision

---
 auxi/modelling/process/materials/slurry.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index d28a404..ae2b535 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -300,6 +300,7 @@ class Material(NamedObject):
                 assay_total = 1.0
         else:
             assay_total = 1.0
+        mass = float(mass)
         H2O_mass = mass * self.H2O_fractions[assay]
         solid_mass = mass - H2O_mass
         return MaterialPackage(self,
@@ -410,7 +411,7 @@ class MaterialPackage(Object):
         # Add the specified mass of water.
         elif self._is_H2O_mass_tuple(other):
             # Added material variables.
-            mass = other[1]
+            mass = float(other[1])
 
             # Create the result package.
             result = self.clone()
@@ -454,6 +455,7 @@ class MaterialPackage(Object):
                 raise Exception(
                     "Invalid multiplication operation. "
                     "Cannot multiply package with negative number.")
+            scalar = float(scalar)
             result = MaterialPackage(
                 self.material,
                 self.solid_density,
@@ -656,15 +658,16 @@ class MaterialPackage(Object):
 
         # Extract the specified mass of water.
         elif self._is_H2O_mass_tuple(other):
-            if other[1] > self.H2O_mass:
+            mass = float(other[1])
+            if mass > self.H2O_mass:
                 raise Exception(
                     "Invalid extraction operation. "
                     "Cannot extract a water mass larger than what the package "
                     "contains.")
-            self.H2O_mass = self.H2O_mass - other[1]
+            self.H2O_mass = self.H2O_mass - mass
             resultarray = self.size_class_masses * 0.0
             result = MaterialPackage(
-                self.material, self.solid_density, other[1], resultarray)
+                self.material, self.solid_density, mass, resultarray)
             return result
 
         # Extract the specified mass of the specified size class.
-- 
2.43.0


From 25fc6c31448402ed9736e4247e430141ff4c5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 84/95] fix: heat capacity and enthalpy of coal overflowed at a
 few kelvin

---
 auxi/tools/materialphysicalproperties/coals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/coals.py b/auxi/tools/materialphysicalproperties/coals.py
index 47cc052..b926d43 100644
--- a/auxi/tools/materialphysicalproperties/coals.py
+++ b/auxi/tools/materialphysicalproperties/coals.py
@@ -89,7 +89,8 @@ class DafCpTy(DafThermoTy):
         :param z: dimensionless temperature
         """
 
-        return exp(z) / ((exp(z) - 1.0) / z) ** 2.0
+        # exp(z) is too large for a float at temperatures of a few kelvin
+        return exp(-z) * (z / (1.0 - exp(-z))) ** 2.0
 
     def calculate(self, **state):
         """
@@ -139,7 +140,8 @@ class DafHTy(DafThermoTy):
         :param z: dimensionless temperature
         """
 
-        return 1 / (exp(z) - 1)
+        # exp(z) is too large for a float at temperatures of a few kelvin
+        return exp(-z) / (1.0 - exp(-z))
 
     def calculate(self, **state):
         """
-- 
2.43.0


From ed68924e3fdca08738aa5b3608fe422b19083369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:36 +0000
Subject: [PATCH 85/95] fix: validate each calculation of a property model with
 a validator of its own

The materials and models of the package are shared. A validator keeps the
document and the errors of its last validation, so two threads that asked one
model at the same time could have a valid state refused, an invalid one
accepted, or get the other's errors.
---
 auxi/tools/materialphysicalproperties/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/core.py b/auxi/tools/materialphysicalproperties/core.py
index 2b9980f..8e3c757 100644
--- a/auxi/tools/materialphysicalproperties/core.py
+++ b/auxi/tools/materialphysicalproperties/core.py
@@ -195,10 +195,12 @@ class Model(Object):
 
         :param **state: The material state
         """
-        if not self.state_validator.validate(state):
+        # The validator keeps its document and errors: use one per calculation.
+        validator = Validator(self.state_schema)
+        if not validator.validate(state):
             msg = f"{self.material} {self.property} model. The state "
             msg += f"description ({state}) contains errors:"
-            for key, value in self.state_validator.errors.items():
+            for key, value in validator.errors.items():
                 msg += ' %s: %s;' % (key, value)
             msg = msg[0:-1]+'.'
             raise ValidationError(msg)
-- 
2.43.0


From 1b9c3d5de8df55d0d80c22a4e194871fe642671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:46 +0000
Subject: [PATCH 86/95] fix: Riboud slag viscosity dropped single cation oxides
 given beside double ones

---
 auxi/tools/materialphysicalproperties/slags.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/slags.py b/auxi/tools/materialphysicalproperties/slags.py
index 5928538..46932e5 100644
--- a/auxi/tools/materialphysicalproperties/slags.py
+++ b/auxi/tools/materialphysicalproperties/slags.py
@@ -192,11 +192,11 @@ class RiboudViscosityTx(Model):
         # convert compounds with two cations to single cation equivalents
         x = dict(x)
         if 'P2O5' in x:
-            x['PO2.5'] = 2.0 * x['P2O5']
+            x['PO2.5'] = x.get('PO2.5', 0.0) + 2.0 * x['P2O5']
         if 'Fe2O3' in x:
-            x['FeO1.5'] = 2.0 * x['Fe2O3']
+            x['FeO1.5'] = x.get('FeO1.5', 0.0) + 2.0 * x['Fe2O3']
         if 'B2O3' in x:
-            x['BO1.5'] = 2.0 * x['B2O3']
+            x['BO1.5'] = x.get('BO1.5', 0.0) + 2.0 * x['B2O3']
 
         # normalise mole fractions, use only compounds in compounds_all
         x_total = sum([x.get(c, 0.0) for c in compounds_all])
-- 
2.43.0


From 3f78cfe3d0a71d7e96b9caa95432249c0575b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:30 +0000
Subject: [PATCH 87/95] fix: a write that fails left the file it was to replace
 empty

---
 auxi/core/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auxi/core/objects.py b/auxi/core/objects.py
index d206764..0166701 100644
--- a/auxi/core/objects.py
+++ b/auxi/core/objects.py
@@ -38,8 +38,9 @@ class Object(object):
         pass
 
     def write(self, path):
+        s = self._to_json_()
         with open(path, 'w') as file:
-            file.write(self._to_json_())
+            file.write(s)
 
     @staticmethod
     def read(path):
-- 
2.43.0


From 02e386c0f31abed4b8f768ca4b65799de169841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:30 +0000
Subject: [PATCH 88/95] fix: a load of thermochemical data that fails lost the
 data loaded before

---
 auxi/tools/chemistry/thermochemistry.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/auxi/tools/chemistry/thermochemistry.py b/auxi/tools/chemistry/thermochemistry.py
index ef45056..f743ae1 100644
--- a/auxi/tools/chemistry/thermochemistry.py
+++ b/auxi/tools/chemistry/thermochemistry.py
@@ -722,19 +722,24 @@ def load_data_factsage(path=''):
     :param path: Path at which the data files are located.
     """
 
-    compounds.clear()
-
     if path == '':
         path = default_data_path
     if not os.path.exists(path):
+        compounds.clear()
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
+    # Keep the data that is loaded if a file cannot be read.
+    loaded = {}
+
     files = glob.glob(os.path.join(glob.escape(path), 'Compound_*.txt'))
 
     for file in files:
         compound = Compound(_read_compound_from_factsage_file_(file))
-        compounds[compound.formula] = compound
+        loaded[compound.formula] = compound
+
+    compounds.clear()
+    compounds.update(loaded)
 
 
 def load_data_auxi(path=''):
@@ -744,19 +749,24 @@ def load_data_auxi(path=''):
     :param path: Path at which the data files are located.
     """
 
-    compounds.clear()
-
     if path == '':
         path = default_data_path
     if not os.path.exists(path):
+        compounds.clear()
         warnings.warn('The specified data file path does not exist. (%s)' % path)
         return
 
+    # Keep the data that is loaded if a file cannot be read.
+    loaded = {}
+
     files = glob.glob(os.path.join(glob.escape(path), 'Compound_*.json'))
 
     for file in files:
         compound = Compound.read(file)
-        compounds[compound.formula] = compound
+        loaded[compound.formula] = compound
+
+    compounds.clear()
+    compounds.update(loaded)
 
 
 def list_compounds():
-- 
2.43.0


From 37f2494db536d3d8b59b5b509504e5ad852768a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:07 +0000
Subject: [PATCH 89/95] fix: packages and streams made from whole-number arrays
 dropped the fractions of masses added or taken out

---
 auxi/modelling/process/materials/psd.py    | 3 ++-
 auxi/modelling/process/materials/slurry.py | 3 ++-
 auxi/modelling/process/materials/thermo.py | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index 2dd27e8..af2425c 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -240,7 +240,8 @@ class MaterialPackage(Object):
 
         # Initialise the object's properties.
         self.material = material
-        self.size_class_masses = size_class_masses
+        # An array of whole numbers would drop the fractions of added masses.
+        self.size_class_masses = numpy.asarray(size_class_masses, dtype=float)
 
     def __str__(self):
         """
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index ae2b535..e8cc82c 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -332,7 +332,8 @@ class MaterialPackage(Object):
         self.material = material
         self.solid_density = solid_density
         self.H2O_mass = H2O_mass
-        self.size_class_masses = size_class_masses
+        # An array of whole numbers would drop the fractions of added masses.
+        self.size_class_masses = numpy.asarray(size_class_masses, dtype=float)
 
     def __str__(self):
         """
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index a7b6ab6..d8bac72 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -403,7 +403,8 @@ class MaterialPackage(Object):
         self._T = T
         self.isCoal = isCoal
         self.HHV = HHV
-        self._compound_masses = compound_masses
+        # An array of whole numbers would drop the fractions of added masses.
+        self._compound_masses = numpy.asarray(compound_masses, dtype=float)
         if self.mass > 0.0:
             if self.isCoal:
                 self._DH298 = self._calculate_DH298_coal()
@@ -1112,7 +1113,8 @@ class MaterialStream(Object):
         self.material = material
         self._P = P
         self._T = T
-        self._compound_mfrs = compound_mfrs
+        # An array of whole numbers would drop the fractions of added flows.
+        self._compound_mfrs = numpy.asarray(compound_mfrs, dtype=float)
         self.isCoal = isCoal
         self.HHV = HHV
         if self.mfr > 0.0:
-- 
2.43.0


From 0cd91a6476de09500e3e994d5cc86d3c31c06901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:06 +0000
Subject: [PATCH 90/95] fix: a chem package of whole or numpy numbers could not
 be added to one of another material

---
 auxi/modelling/process/materials/chem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 1153de2..1cbcb21 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -290,7 +290,8 @@ class MaterialPackage(Object):
                             self.material.name +
                             "'. The compound '" + compound +
                             "' was not found in '" + self.material.name + "'.")
-                    result += (compound, other.get_compound_mass(compound))
+                    result += (compound,
+                               float(other.get_compound_mass(compound)))
                 return result
 
         # Add the specified mass of the specified compound.
@@ -570,7 +571,8 @@ class MaterialPackage(Object):
                                         "' was not found in '" +
                                         self.material.name + "'.")
                 for compound in other.material.compounds:
-                    self.add_to((compound, other.get_compound_mass(compound)))
+                    self.add_to((compound,
+                                 float(other.get_compound_mass(compound))))
 
         # Add the specified mass of the specified compound.
         elif self._is_compound_mass_tuple(other):
-- 
2.43.0


From 533072334b8f03b5e90791c704afd924e7a60c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:11 +0000
Subject: [PATCH 91/95] fix: a coal stream from which all was taken had no
 enthalpy (NaN), nor did sums with it

---
 auxi/modelling/process/materials/thermo.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index d8bac72..451f036 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -1355,6 +1355,8 @@ class MaterialStream(Object):
                 Hin += thermo.H(compound, T, self._compound_mfrs[index])
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg
+        if m_total == 0.0:  # No daf coal is left.
+            return 0.0
 
         Hout = 0.0  # kWh
         Hout += thermo.H('CO2[G]', T, cc(m_C, 'C', 'CO2', 'C'))
@@ -1410,6 +1412,9 @@ class MaterialStream(Object):
                 Hfr += dHfr
 
         m_total = m_C + m_H + m_O + m_N + m_S  # kg/h
+        if m_total == 0.0:  # No daf coal is left.
+            return Hfr
+
         y_C = m_C / m_total
         y_H = m_H / m_total
         y_O = m_O / m_total
@@ -1863,8 +1868,11 @@ class MaterialStream(Object):
 
         if not any(s.isCoal and s.HHV is not None for s in (self, other)):
             return None
+        mfr = self.mfr + other.mfr
+        if mfr == 0.0:
+            return other.HHV if self.HHV is None else self.HHV
         return (self._calculate_HHV_total() + other._calculate_HHV_total()) \
-            / (self.mfr + other.mfr)
+            / mfr
 
     def _update_HHV(self, compound, mfr):
         if self.isCoal and self.HHV is None:
@@ -1872,7 +1880,10 @@ class MaterialStream(Object):
         elif self.isCoal:
             HHV = self.HHV * (self.mfr - mfr)  # MJ
             HHV += self._calculate_HHV_compound(compound, mfr)  # MJ
-            HHV /= self.mfr  # MJ/kg coal
+            if self.mfr == 0.0:  # Nothing is left.
+                HHV = self.HHV
+            else:
+                HHV /= self.mfr  # MJ/kg coal
 
             self.HHV = HHV
 
-- 
2.43.0


From 0a58582de6d11b57f93c71ee85ce9e3d54c98c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:11 +0000
Subject: [PATCH 92/95] fix: a plot that fails left its figure open, as the
 current one

---
 auxi/tools/materialphysicalproperties/gases.py   | 16 ++++++++++------
 .../tools/materialphysicalproperties/idealgas.py |  6 ++++--
 .../materialphysicalproperties/polynomial.py     |  6 ++++--
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/auxi/tools/materialphysicalproperties/gases.py b/auxi/tools/materialphysicalproperties/gases.py
index 3ae09fe..c165105 100644
--- a/auxi/tools/materialphysicalproperties/gases.py
+++ b/auxi/tools/materialphysicalproperties/gases.py
@@ -7,6 +7,7 @@ ds: dataset
 ds_dict: datasets
 """
 
+from contextlib import ExitStack
 from math import sqrt
 from sys import modules
 from os.path import realpath, dirname, join
@@ -470,8 +471,9 @@ class WilkeMuTx(Model):
         return result  # [Pa.s]
 
     def plot(self, xs, datasets, path, show=False):
-        with PdfPages(path) as pdf:
-            plt.figure()
+        with PdfPages(path) as pdf, ExitStack() as stack:
+            # Close the figure also if plotting fails.
+            stack.callback(plt.close, plt.figure())
             T_min = 1.0e100
             T_max = -1.0e100
 
@@ -555,8 +557,9 @@ class HerningZippererMuTx(Model):
         return result  # [Pa.s]
 
     def plot(self, xs, datasets, path, show=False):
-        with PdfPages(path) as pdf:
-            plt.figure()
+        with PdfPages(path) as pdf, ExitStack() as stack:
+            # Close the figure also if plotting fails.
+            stack.callback(plt.close, plt.figure())
             T_min = 1.0e100
             T_max = -1.0e100
 
@@ -638,8 +641,9 @@ class IdealCpTx(Model):
         return result  # [Pa.s]
 
     def plot(self, xs, datasets, path, show=False):
-        with PdfPages(path) as pdf:
-            plt.figure()
+        with PdfPages(path) as pdf, ExitStack() as stack:
+            # Close the figure also if plotting fails.
+            stack.callback(plt.close, plt.figure())
             T_min = 1.0e100
             T_max = -1.0e100
 
diff --git a/auxi/tools/materialphysicalproperties/idealgas.py b/auxi/tools/materialphysicalproperties/idealgas.py
index d0cf4dd..f3bbba6 100644
--- a/auxi/tools/materialphysicalproperties/idealgas.py
+++ b/auxi/tools/materialphysicalproperties/idealgas.py
@@ -2,6 +2,7 @@
 """
 This module provides tools for calculating physical properties of an ideal gas.
 """
+from contextlib import ExitStack
 from matplotlib.backends.backend_pdf import PdfPages
 import webbrowser
 import matplotlib.pyplot as plt
@@ -84,8 +85,9 @@ class RhoT(Model):
         return self.mm * self.P / R / state["T"]
 
     def plot(self, datasets, path, show=False):
-        with PdfPages(path) as pdf:
-            plt.figure()
+        with PdfPages(path) as pdf, ExitStack() as stack:
+            # Close the figure also if plotting fails.
+            stack.callback(plt.close, plt.figure())
             x_min = 1.0e100
             x_max = -1.0e100
 
diff --git a/auxi/tools/materialphysicalproperties/polynomial.py b/auxi/tools/materialphysicalproperties/polynomial.py
index c72f9b0..b99123d 100644
--- a/auxi/tools/materialphysicalproperties/polynomial.py
+++ b/auxi/tools/materialphysicalproperties/polynomial.py
@@ -3,6 +3,7 @@
 This module provides tools for calculating material physical properties.
 """
 
+from contextlib import ExitStack
 import numpy as np
 import matplotlib.pyplot as plt
 from matplotlib.backends.backend_pdf import PdfPages
@@ -89,8 +90,9 @@ class PolynomialModelT(Model):
         return np.polyval(self._coeffs, state['T'])
 
     def plot(self, datasets, path, show=False):
-        with PdfPages(path) as pdf:
-            plt.figure()
+        with PdfPages(path) as pdf, ExitStack() as stack:
+            # Close the figure also if plotting fails.
+            stack.callback(plt.close, plt.figure())
             x_min = 1.0e100
             x_max = -1.0e100
 
-- 
2.43.0


From 14533a82ec1f309925c5ae17ff746f0447b96a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:19 +0000
Subject: [PATCH 93/95] fix: the year end failed on transactions dated by day,
 and never closed those of its last second

---
 auxi/modelling/business/structure.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/auxi/modelling/business/structure.py b/auxi/modelling/business/structure.py
index 7a9f25f..c54101b 100644
--- a/auxi/modelling/business/structure.py
+++ b/auxi/modelling/business/structure.py
@@ -387,6 +387,12 @@ class Entity(NamedObject):
 
         self._perform_year_end_procedure(clock)
 
+    def _is_in_year_(self, date, year_start, year_end):
+        # A date without a time is compared by day.
+        if not isinstance(date, datetime):
+            return year_start.date() <= date < year_end.date()
+        return year_start <= date < year_end
+
     def _perform_year_end_procedure(self, clock):
         if clock.get_datetime() >= self._curr_year_end_datetime\
          or clock.timestep_ix == self.period_count:
@@ -406,7 +412,8 @@ class Entity(NamedObject):
             cost_of_sales_accs = gls.get_account_descendants(gls._acci_cos_)
             year_taxes = []
             for tx in self.gl.transactions:
-                if year_start_date <= tx.tx_date <= year_end_date:
+                if self._is_in_year_(tx.tx_date, year_start_date,
+                                     self._prev_year_end_datetime):
                     year_taxes.append(tx)
             for tx in year_taxes:
                 cr_acc = gls.get_account(tx.cr_account)
-- 
2.43.0


From 3b038f925f78ad41e36c2cefece4e0049f5e29c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:30 +0000
Subject: [PATCH 94/95] fix: the columns of a data set of which the rows end in
 a comma were read shifted by one

---
 auxi/tools/materialphysicalproperties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auxi/tools/materialphysicalproperties/core.py b/auxi/tools/materialphysicalproperties/core.py
index 8e3c757..2ae4b38 100644
--- a/auxi/tools/materialphysicalproperties/core.py
+++ b/auxi/tools/materialphysicalproperties/core.py
@@ -146,7 +146,7 @@ class DataSet(object):
             """A dictionary to translate a parameter's symbol to its units."""
 
     def _read_data(self):
-        self.data = pd.read_csv(self._file_path, header=6)
+        self.data = pd.read_csv(self._file_path, header=6, index_col=False)
 
 
 class Model(Object):
-- 
2.43.0


From 80661686948ac8e96c03fa5d8c37777bdb69c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:03 +0000
Subject: [PATCH 95/95] fix: printed materials and packages ran names and
 numbers of twenty characters or more together

---
 auxi/modelling/process/materials/chem.py   | 10 ++++++----
 auxi/modelling/process/materials/psd.py    |  8 ++++----
 auxi/modelling/process/materials/slurry.py | 12 +++++++-----
 auxi/modelling/process/materials/thermo.py | 16 ++++++++--------
 4 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/auxi/modelling/process/materials/chem.py b/auxi/modelling/process/materials/chem.py
index 1cbcb21..027240b 100644
--- a/auxi/modelling/process/materials/chem.py
+++ b/auxi/modelling/process/materials/chem.py
@@ -72,15 +72,16 @@ class Material(NamedObject):
         result += 'Compound'.ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result += assay_name.ljust(20)
+            result += assay_name.ljust(19) + ' '
         result += '\n'
 
         # Create the content lines of the table.
         for compound in self.compounds:
-            result += compound.ljust(20)
+            result += compound.ljust(19) + ' '
             compound_ix = self.get_compound_index(compound)
             for assay_name in assay_names:
-                result += str(self.assays[assay_name][compound_ix]).ljust(20)
+                result += str(
+                    self.assays[assay_name][compound_ix]).ljust(19) + ' '
             result += '\n'
         return result
 
@@ -254,7 +255,8 @@ class MaterialPackage(Object):
         result += 'Component masses:\n'
         for compound in self.material.compounds:
             index = self.material.get_compound_index(compound)
-            result += compound.ljust(20) + str(self.compound_masses[index])
+            result += compound.ljust(19) + ' '
+            result += str(self.compound_masses[index])
             result += '\n'
         return result
 
diff --git a/auxi/modelling/process/materials/psd.py b/auxi/modelling/process/materials/psd.py
index af2425c..62fcbaa 100644
--- a/auxi/modelling/process/materials/psd.py
+++ b/auxi/modelling/process/materials/psd.py
@@ -109,16 +109,16 @@ class Material(NamedObject):
         result = result + "Compound".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + assay_name.ljust(20)
+            result = result + assay_name.ljust(19) + " "
         result = result + "\n"
 
         # Create the content lines of the table.
         for size_class in self.size_classes:
-            result = result + str(size_class).ljust(20)
+            result = result + str(size_class).ljust(19) + " "
             compound_index = self.get_size_class_index(size_class)
             for assay_name in assay_names:
                 result = result + str(
-                    self.assays[assay_name][compound_index]).ljust(20)
+                    self.assays[assay_name][compound_index]).ljust(19) + " "
             result = result + "\n"
         return result
 
@@ -254,7 +254,7 @@ class MaterialPackage(Object):
         result = result + "Component masses:\n"
         for size_class in self.material.size_classes:
             index = self.material.get_size_class_index(size_class)
-            result = result + str(size_class).ljust(20) + str(
+            result = result + str(size_class).ljust(19) + " " + str(
                 self.size_class_masses[index]) + "\n"
         return result
 
diff --git a/auxi/modelling/process/materials/slurry.py b/auxi/modelling/process/materials/slurry.py
index e8cc82c..64efb13 100644
--- a/auxi/modelling/process/materials/slurry.py
+++ b/auxi/modelling/process/materials/slurry.py
@@ -146,30 +146,32 @@ class Material(NamedObject):
         result = result + "Compound".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + assay_name.ljust(20)
+            result = result + assay_name.ljust(19) + " "
         result = result + "\n"
 
         # Create the solid density line.
         result = result + "Solid density".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + str(self.solid_densities[assay_name]).ljust(20)
+            result = result + str(
+                self.solid_densities[assay_name]).ljust(19) + " "
         result = result + "\n"
 
         # Create the H2O fraction line.
         result = result + "H2O fraction".ljust(20)
         assay_names = sorted(self.assays.keys())
         for assay_name in assay_names:
-            result = result + str(self.H2O_fractions[assay_name]).ljust(20)
+            result = result + str(
+                self.H2O_fractions[assay_name]).ljust(19) + " "
         result = result + "\n"
 
         # Create the content lines of the table.
         for size_class in self.size_classes:
-            result = result + str(size_class).ljust(20)
+            result = result + str(size_class).ljust(19) + " "
             compound_index = self.get_size_class_index(size_class)
             for assay_name in assay_names:
                 result = result + str(
-                    self.assays[assay_name][compound_index]).ljust(20)
+                    self.assays[assay_name][compound_index]).ljust(19) + " "
             result = result + "\n"
         return result
 
diff --git a/auxi/modelling/process/materials/thermo.py b/auxi/modelling/process/materials/thermo.py
index 451f036..c041034 100644
--- a/auxi/modelling/process/materials/thermo.py
+++ b/auxi/modelling/process/materials/thermo.py
@@ -178,7 +178,7 @@ class Material(NamedObject):
 
         # Create the content lines of the table.
         for compound in sorted(self.compounds):
-            result = result + compound.ljust(20)
+            result = result + compound.ljust(19) + " "
             compound_index = self.get_compound_index(compound)
             pad = ''
             for assay_name in assay_names:
@@ -207,7 +207,7 @@ class Material(NamedObject):
             properties = sorted(set(self.custom_properties))
             for prop in properties:
                 pad = ''
-                result += prop.ljust(20)
+                result += prop.ljust(19) + " "
                 for assay_name in assay_names:
                     result += pad + "{:.8e}".format(
                         self.assay_custom_properties[assay_name].get(
@@ -443,7 +443,7 @@ class MaterialPackage(Object):
         if mass > 0.0:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(
+                result += compound.ljust(19) + " " + '{:.8e}'.format(
                     self._compound_masses[index])
                 result += "  " + \
                           '{:.8e}'.format(self._compound_masses[index] / mass)
@@ -453,7 +453,7 @@ class MaterialPackage(Object):
         else:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(0.0)
+                result += compound.ljust(19) + " " + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "\n"
@@ -465,7 +465,7 @@ class MaterialPackage(Object):
             result += b2
             properties = list(sorted(self.custom_properties.keys()))
             for prop in properties:
-                result += prop.ljust(20)
+                result += prop.ljust(19) + " "
                 result += "{:.8e}".format(self.custom_properties[prop])
                 result += "\n"
 
@@ -1155,7 +1155,7 @@ class MaterialStream(Object):
         if mfr > 0.0:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(
+                result += compound.ljust(19) + " " + '{:.8e}'.format(
                     self._compound_mfrs[index])
                 result += "  " + \
                           '{:.8e}'.format(self._compound_mfrs[index] / mfr)
@@ -1165,7 +1165,7 @@ class MaterialStream(Object):
         else:
             for compound in self.material.compounds:
                 index = self.material.get_compound_index(compound)
-                result += compound.ljust(20) + '{:.8e}'.format(0.0)
+                result += compound.ljust(19) + " " + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "  " + '{:.8e}'.format(0.0)
                 result += "\n"
@@ -1177,7 +1177,7 @@ class MaterialStream(Object):
             result += b2
             properties = list(sorted(self.custom_properties.keys()))
             for prop in properties:
-                result += prop.ljust(20)
+                result += prop.ljust(19) + " "
                 result += "{:.8e}".format(self.custom_properties[prop])
                 result += "\n"
 
-- 
2.43.0

