From b5d453d91b828723ea9947a4ea34c347b089c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 01/49] fix: use the exact Angstrom (1e-10 m) instead of the
 X-ray 'Angstrom star' unit

---
 quantas/utils/physics/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 54e92ea..45ed284 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -39,7 +39,7 @@ zero_Celsius = 273.15
 # Units typically used in QM software
 #
 # 1. Distances
-Angstrom = cs.value(u'Angstrom star')   # (m)
+Angstrom = cs.angstrom                  # (m)
 Bohr = cs.value(u'Bohr radius')         # (m)
 #
 # 2. Electronic Energy
@@ -308,7 +308,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     --------
     >>> from quantascli.utils.units import energy_to_pressure
     >>> energy_to_pressure([0.001, 0.2], 'eV', 'angstrom', 'gpa')
-    [  1.60210478 320.42095571]
+    [ 0.16021766 32.04353268]
 
     """
     res = np.asarray(val)
@@ -403,7 +403,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     --------
     >>> from quantascli.utils.units import pressure_to_energy
     >>> pressure_to_energy([1., 2.], 'ha', 'angstrom', 'gpa')
-    [0.00022938 0.00045876]
+    [0.00022937 0.00045874]
 
     """
     res = np.asarray(val)
@@ -588,7 +588,7 @@ def convert_volume(val, old_scale, new_scale):
     --------
     >>> from quantascli.utils.units import convert_volume
     >>> convert_volume(10.9897, 'Angstrom', 'bohr')
-    74.1654978184323
+    74.16217159530973
 
     """
     # Convert from `old_scale` to metres
-- 
2.43.0


From 0a2861257a7be80dffda2c6f897ba6c012dcc02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 02/49] fix: accept the documented 'hartree' and 'rydberg'
 energy scales

---
 quantas/utils/physics/units.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 45ed284..75db36b 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -149,26 +149,26 @@ def convert_energy(val, old_scale, new_scale):
 
     """
     # Convert from `old_scale` to Hartree
-    if old_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if old_scale.lower() in ['hartree', 'ha']:
         energy = np.asanyarray(val)
-    elif old_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif old_scale.lower() in ['electron volt', 'ev']:
         energy = np.asanyarray(val) * (eV / Ha)
-    elif old_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif old_scale.lower() in ['rydberg', 'ry']:
         energy = np.asanyarray(val) * (Ry / Ha)
-    elif old_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
+    elif old_scale.lower() in ['kj/mol', 'kjmol']:
         energy = np.asanyarray(val) * (1000. / Ha / N)
     else:
         raise NotImplementedError('%s scale is unsupported: supported scales '
                                   'are Hartree, eV, Rydberg and kJ/mol'
                                   % old_scale)
     # and from Hartree to `new_scale`.
-    if new_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if new_scale.lower() in ['hartree', 'ha']:
         res = energy
-    elif new_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif new_scale.lower() in ['electron volt', 'ev']:
         res = energy * (Ha / eV)
-    elif new_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif new_scale.lower() in ['rydberg', 'ry']:
         res = energy * (Ha / Ry)
-    elif new_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
+    elif new_scale.lower() in ['kj/mol', 'kjmol']:
         res = energy * (Ha * N / 1000.)
     else:
         raise NotImplementedError('%s scale is unsupported: supported scales '
-- 
2.43.0


From 42df6988b59af3b3765e4d487add95f3e11e6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 03/49] fix: energy/pressure conversions no longer overwrite
 the caller's array

---
 quantas/utils/physics/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 75db36b..6d4ba2d 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -311,7 +311,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     [ 0.16021766 32.04353268]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert energy in J
     if energy_scale.lower() in ['hartree', 'ha']:
         res *= Ha
@@ -406,7 +406,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     [0.00022937 0.00045874]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert pressures in Pascals
     if pressure_scale.lower() in ['gpa']:
         res *= giga
-- 
2.43.0


From f16e3b6fa68b833ec919d21d9ba75168ccba2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 04/49] fix: implied K'' of the Vinet equation of state uses
 19/36

---
 quantas/eosfit/utils/pv_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index cfddc50..f739887 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -732,7 +732,7 @@ class Vinet(EOS):
                 p[1] = 3.
 
         # Kpp is always implied
-        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./46.))
+        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./36.))
             
         fV = 1. - (V/p[3])**(1./3.)
         eta = (1.5) * (p[1] - 1.)
-- 
2.43.0


From 466f477041ca2489ee3050cf9242a1fa0c64ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 05/49] fix: pressures from E(V) fits use the K'' implied by
 the third-order EoS

---
 quantas/qha/utils/ev_eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 67f1681..88313ac 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -362,7 +362,7 @@ class EnergyEOS(object):
         # Set P-V EoS parameters according to:
         #  - p[0] = K0
         #  - p[1] = K'
-        #  - p[2] = K'' (usually set to zero)
+        #  - p[2] = K'' (implied by the third-order truncation)
         #  - p[3] = V0
         #
         pv_pars = np.zeros(4, dtype=float)
@@ -370,5 +370,5 @@ class EnergyEOS(object):
         pv_pars[1] = ev_pars[2]
         pv_pars[3] = ev_pars[3]
         # Calculate pressures
-        pressures = eos.eos(pv_pars, V, order=3)
+        pressures = eos.eos(pv_pars, V, order=3, dofit=True)
         return pressures
-- 
2.43.0


From 8a41cbc073a7f5f2d90c7d9923b26caad3bcb655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 06/49] fix: P-V fits take the caller's starting values as
 given

Axis fits tripled the first value of the caller's guess in place, so a linear
modulus the user asked to keep fixed was fitted at three times its value and
every further fit on the same data tripled it again.
---
 quantas/eosfit/utils/pv_eos.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index f739887..8b4e686 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -138,15 +138,15 @@ class EOS(object):
         # Check if there is a guess
         try:
             len(guess)
-            p0 = guess
+            p0 = np.array(guess, dtype=np.float64)
         except TypeError:
             #
             # Perform a guess on the parameters
             p0 = self.guess(V, P)
-        #
-        # Check if we're going to perform a linearized fit
-        if linear == True:
-            p0[0] = p0[0]*3.
+            #
+            # Check if we're going to perform a linearized fit
+            if linear == True:
+                p0[0] = p0[0]*3.
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0


From e61d11b010aaecd8188cea1fa048ea85f9758c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 07/49] fix: interactive EoS prompts use int/float instead of
 removed NumPy aliases

---
 quantas/eosfit/utils/interactive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 0d41299..a8ad538 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -183,7 +183,7 @@ def set_eos_order(eos_key, default=2):
     if default not in choices:
         default = choices[0]
     echo('EOS ORDER')
-    selection = np.int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
+    selection = int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
                        default=default))
     echo('')
     return selection
@@ -314,7 +314,7 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = np.float(prompt("  {: <8}".format(
+            parameters[i] = float(prompt("  {: <8}".format(
                 labels[i]), np.round(parameters[i], 5)))
     echo('')
     return parameters
-- 
2.43.0


From d5206174501413db3589fda6751040394b707529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 08/49] fix: eosfit honours --outfile and logs the error banner

---
 quantas/eosfit/commands/cmd_eosfit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 5b248f3..db7f467 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -53,7 +53,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     if isinstance(outfile, type(None)):
         logfile = outbase + '.log'
     else:
-        logfile += '.log'
+        logfile = outfile + '.log'
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
@@ -76,7 +76,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
-- 
2.43.0


From f23f43b05e9dcbe968df08b418e02c2a6565463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 09/49] fix: stop the SOEC analysis when a stiffness eigenvalue
 is not positive

'any(eigv) <= 0' compared a boolean with zero, so a mechanically unstable
crystal was never reported and the analysis went on.
---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6f49d0e..8f0704c 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -245,7 +245,7 @@ class SOECCalculator(BasicCalculator):
         self._results['avg_wave_velocities'] = awv
         #
         # Check SOEC eigenvalues consistency
-        if any(eigv) <= 0:
+        if any(value <= 0 for value in eigv):
             msg = 'SOEC matrix is not definite positive, '+\
             'crystal is mechanically unstable'
             self.echo(msg)
-- 
2.43.0


From c630dd39ae855dbc3feb5a90e6511a535c8c41c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 10/49] fix: report the first axis of shear/Poisson extrema,
 not the second one twice

---
 quantas/soec/soec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 8f0704c..6755fcb 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -420,8 +420,8 @@ class SOECCalculator(BasicCalculator):
             anisotropy = np.inf
         #
         # First (or Only) axis
-        minax1 = vector(*minval[0])
-        maxax1 = vector(*maxval[0])
+        minax1 = vector(*minval[0][:2])
+        maxax1 = vector(*maxval[0][:2])
         if dim == 2:
             minax2 = None
             maxax2 = None
-- 
2.43.0


From 4da52d19f016ebf9e9e8874123506d94947fc147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 11/49] fix: do not report average wave velocities when the
 density is unknown

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6755fcb..594060c 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -394,7 +394,7 @@ class SOECCalculator(BasicCalculator):
         for i in range(3):
             self.echo(sv.format(avgnames[i], *tuple(avg[i])))
         self.echo('')
-        if awv[0] != np.nan:
+        if not np.isnan(awv[0]):
             self.echo('Average (VRH) wave velocities')
             self.echo('  - Transversal  (Vs): {: 10.5f} km/s'.format(awv[0]))
             self.echo('  - Longitudinal (Vp): {: 10.5f} km/s'.format(awv[2]))
-- 
2.43.0


From 13bed2dd1533a7843d097781620ea541750c9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 12/49] fix: export the compliance in the TPa^-1 its unit
 attribute declares

---
 quantas/soec/soec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 594060c..91927c2 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -541,7 +541,8 @@ It contains the results of the analysis of the second-order elastic constants
             f.attrs['info'] = info
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
-            dset = f.create_dataset('compliance', data=self.soec.compliance)
+            dset = f.create_dataset('compliance',
+                                    data=self.soec.compliance*1000.)
             dset.attrs['unit'] = 'TPa^-1'
             dset = f.create_dataset('averages', data=self.results['avgs'])
             dset.attrs['unit'] = self._punit
-- 
2.43.0


From 7196a4b7206cdb5ee53adbdb17cd1fb7504f1878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 13/49] fix: crystal system templates of hexagonal/trigonal
 crystals and opposite-sign entries

The hexagonal and trigonal (high) templates were the same, wrong one, and
entries that must be opposite were never compared: tetragonal crystals were
reported as trigonal and quartz-like ones as trigonal (low).
---
 quantas/soec/utils/symmetry.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quantas/soec/utils/symmetry.py b/quantas/soec/utils/symmetry.py
index c57ab32..0444c99 100644
--- a/quantas/soec/utils/symmetry.py
+++ b/quantas/soec/utils/symmetry.py
@@ -19,19 +19,19 @@ Cij_symmetry = {
                       [0, 0, 0, 0, 4, 0],
                       [0, 0, 0, 0, 0, 4]]),
 
-   'hexagonal': np.array([[1, 7, 8, 9, 10, 0],
-                          [7, 1, 8, 0,-9, 0],
+   'hexagonal': np.array([[1, 7, 8, 0, 0, 0],
+                          [7, 1, 8, 0, 0, 0],
                           [8, 8, 3, 0, 0, 0],
-                          [9, -9, 0, 4, 0, 0],
-                          [10, 0, 0, 0, 4, 0],
+                          [0, 0, 0, 4, 0, 0],
+                          [0, 0, 0, 0, 4, 0],
                           [0, 0, 0, 0, 0, 6]]),
 
-   'trigonal_high': np.array([[1, 7, 8, 9, 10, 0],
-                              [7, 1, 8, 0,-9, 0],
+   'trigonal_high': np.array([[1, 7, 8, 9, 0, 0],
+                              [7, 1, 8, -9, 0, 0],
                               [8, 8, 3, 0, 0, 0],
                               [9, -9, 0, 4, 0, 0],
-                              [10, 0, 0, 0, 4, 0],
-                              [0, 0, 0, 0, 0, 6]]),
+                              [0, 0, 0, 0, 4, 9],
+                              [0, 0, 0, 0, 9, 6]]),
 
    'trigonal_low': np.array([[1,  7,  8,  9,  10,  0 ],
                              [7,  1,  8, -9, -10,  0 ],
@@ -118,7 +118,7 @@ def run_check(m, symmetry):
         l = []
         for key in Cij_map.keys():
             # Collect the combinations
-            if Cij_map[key] == i:
+            if abs(Cij_map[key]) == i:
                 l.append(key)
         if len(l) != 0:
             if i == 0:
@@ -129,13 +129,15 @@ def run_check(m, symmetry):
                         continue
             else:
                 for k in it.combinations(l, 2):
-                    if abs(m[k[0]] - m[k[1]]) > tol:
+                    # Entries with opposite sign in the map have opposite values
+                    s0, s1 = np.sign(Cij_map[k[0]]), np.sign(Cij_map[k[1]])
+                    if abs(s0 * m[k[0]] - s1 * m[k[1]]) > tol:
                         return False
                     else:
                         continue
 
-    # Additional check for hexagonal system
-    if symmetry == 'hexagonal':
+    # Additional check for hexagonal and trigonal systems
+    if symmetry in ['hexagonal', 'trigonal_high', 'trigonal_low']:
         if abs(m[5][5]-((m[0][0]-m[0][1])/2.)) > tol:
             return False
     return True
-- 
2.43.0


From 945c48c55a83541f27838835ddc593fce334b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 14/49] fix: read lower-triangular SOEC matrices and reject
 other shapes

Rows of a lower-triangular matrix were placed in the wrong columns and mirrored
from the wrong half, and rows with more than six values wrapped around.
---
 quantas/IO/soec_reader.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 580b39b..8032b16 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -126,25 +126,31 @@ class SOECInputFileReader(BasicReader):
 
         # ... and convert it to float numbers
         matrix = np.zeros((6,6), dtype=np.float64)
+        # Take its form from the string matrix
+        form = [ len(line.split()) for line in matstr ]
+        if form not in ([6,6,6,6,6,6], [6,5,4,3,2,1], [1,2,3,4,5,6]):
+            self.error = 'The SOEC matrix does not have the expected (6, 6) '
+            self.error += 'shape.\nPlease, check the input file and retry.'
+            return
+        lower = form == [1,2,3,4,5,6]
         try:
             for i in range(6):
                 line = matstr[i].split()
                 n = len(line)
                 for j in range(n):
-                    matrix[i][j+(6-n)] = line[j]
+                    if lower:
+                        matrix[i][j] = line[j]
+                    else:
+                        matrix[i][j+(6-n)] = line[j]
         except ValueError:
             self.error = 'SOEC components should be float numbers'
             return
         else:
-            # Take its form from the string matrix
-            form = []
-            for i in range(6):
-                form.append(len(matstr[i].split()))
             # Check matrix symmetry and make it 6x6
             if form == [6,5,4,3,2,1]:  # upper triangular
                 matrix = matrix + np.triu(matrix, 1).transpose()
-            if form == [1,2,3,4,5,6]:  # lower triangular
-                matrix = matrix + np.tril(matrix, 1).transpose()
+            if lower:  # lower triangular
+                matrix = matrix + np.tril(matrix, -1).transpose()
             if linalg.norm(matrix - matrix.transpose()) > 1e-3:
                 self.error = 'The SOEC matrix should be symmetric '
                 self.error += 'or triangular'
-- 
2.43.0


From 1836f1c9f4abc9e206274de7a619219499b5bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 15/49] fix: readers, exporters and input creators no longer
 share collected data between instances

---
 quantas/IO/eos_reader.py         |  2 ++
 quantas/IO/qha_writer.py         |  1 +
 quantas/IO/soec_reader.py        |  1 +
 quantas/core/calculator.py       |  1 +
 quantas/harmonic/utils/export.py |  3 +++
 quantas/interfaces/crystal.py    | 38 +++++++++++++++-----------------
 quantas/interfaces/vasp.py       |  9 ++++----
 quantas/qha/utils/export.py      |  3 +++
 quantas/seismic/utils/export.py  |  1 +
 quantas/soec/utils/export.py     |  1 +
 10 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 85b29da..0051803 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -79,6 +79,8 @@ class EoSInputFileReader(BasicReader):
             Path of the input file.
 
         """
+        self._data = dict(self._data)
+        self._format = {}
         BasicReader.__init__(self, eos_input)
         return
 
diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index e715339..d1cb906 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -38,6 +38,7 @@ class QHAInputCreator(object):
         """
         """
         self.interface_flag = interface
+        self.phondata = []
         return
 
     def read(self, filename, is_list, reference=0, use_symm=False):
diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 8032b16..1b6533e 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -45,6 +45,7 @@ class SOECInputFileReader(BasicReader):
         soec_input: str
             Path of the SOEC input file.
         """
+        self._data = dict(self._data)
         BasicReader.__init__(self, soec_input)
         return
 
diff --git a/quantas/core/calculator.py b/quantas/core/calculator.py
index 2d35f01..065cddc 100644
--- a/quantas/core/calculator.py
+++ b/quantas/core/calculator.py
@@ -120,6 +120,7 @@ class BasicCalculator(object):
 
     def __init__(self):
         """ Constructor for the basic calculator. """
+        self.warnings = []
         return
 
     def read_input(self, filename):
diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 7017dcb..fec0a0d 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -27,6 +27,9 @@ class QuantasHarmonicExport(object):
 
     def __init__(self):
         ''' Constructor method '''
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2027ef0..00dbb11 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -791,22 +791,21 @@ class CrystalQHAReader(BasicReader):
     _is_supercell = False
     _is_restarted = False
 
-    _data = {
-        'points': 0.,
-        'unitcell': [],
-        'supercell': [],
-        'expansion': np.identity(3, dtype=int),
-        'energy': 0.,
-        'kpoints': 1,
-        'qpoints': 1,
-        'qcoords': {},
-        'nphonon': 0,
-        'phonons': {},
-        'weights': {},
-        'shrinkf': np.ones(3, dtype=int)
-        }
-
     def __init__(self, crystal_output):
+        self._data = {
+            'points': 0.,
+            'unitcell': [],
+            'supercell': [],
+            'expansion': np.identity(3, dtype=int),
+            'energy': 0.,
+            'kpoints': 1,
+            'qpoints': 1,
+            'qcoords': {},
+            'nphonon': 0,
+            'phonons': {},
+            'weights': {},
+            'shrinkf': np.ones(3, dtype=int)
+            }
         BasicReader.__init__(self, crystal_output)
         return
 
@@ -1420,14 +1419,13 @@ class CrystalSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, crystal_soec_output):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
         BasicReader.__init__(self, crystal_soec_output)
         return
 
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index de57fb1..dce07f0 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -20,14 +20,13 @@ class VASPSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, vasp_outcar):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
         BasicReader.__init__(self, vasp_outcar)
         return
 
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index d383a46..b708139 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -27,6 +27,9 @@ class QuantasQHAExport(object):
 
     def __init__(self):
         """ Constructor method """
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index 69329a2..c0687fa 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -30,6 +30,7 @@ class QuantasSeismicExport(object):
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 0d4498a..aeda7bc 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -26,6 +26,7 @@ class QuantasSOECExport(object):
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
-- 
2.43.0


From 38facbcd326b5f85c984b84c6dbb2dd9ad2d07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 16/49] fix: reorder VASP elastic moduli (XY YZ ZX) to Voigt
 notation (YZ ZX XY)

---
 quantas/interfaces/vasp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index dce07f0..b8d0393 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -55,8 +55,9 @@ class VASPSOECReader(BasicReader):
                     self.error += 'Please, check the OUTCAR file'
                     return
 
-        self._data['stiffness'][[3, 5]] = self._data['stiffness'][[5, 3]]
-        self._data['stiffness'][:, [3, 5]] = self._data['stiffness'][:, [5, 3]]
+        # VASP order: XX YY ZZ XY YZ ZX, Voigt order: XX YY ZZ YZ ZX XY
+        voigt = [0, 1, 2, 4, 5, 3]
+        self._data['stiffness'] = self._data['stiffness'][voigt][:, voigt]
 
         self.completed = True
         return
-- 
2.43.0


From 89d6a7c03731f1f2c9a9ec54a1c2532e0cfceb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 17/49] fix: SOEC job names that start with a digit are not
 mistaken for a matrix row

---
 quantas/IO/soec_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 1b6533e..a5e723b 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -111,7 +111,8 @@ class SOECInputFileReader(BasicReader):
         # Does the first line contain the job name?
         line = data[0]
         try:
-            np.float64(line.strip()[0])
+            np.float64(line.split()[0])
+            np.array(line.split(), dtype=np.float64)
             start = 0
         except ValueError:
             self._data['job'] = line.rstrip()
-- 
2.43.0


From 53891d0ba8b245c2aed17924cdb28d76b9ce6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 18/49] fix: EoS input columns named sigP/sigV/sigA/sigB/sigC
 are stored as uncertainties

---
 quantas/IO/eos_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 0051803..aad31b4 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -241,7 +241,7 @@ class EoSInputFileReader(BasicReader):
                 for i in range(len(dformat)):
                     for key, items in self._formats.items():
                         if dformat[i].lower() in items:
-                            self._format[dformat[i].lower()] = i
+                            self._format[key] = i
         return
 
     def set_data(self, inpdata, idx):
-- 
2.43.0


From 31e6cebd2b39e34283ab5e4f1c4771a46ce49e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 19/49] fix: report missing pressure column of EoS input
 instead of a KeyError

---
 quantas/IO/eos_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index aad31b4..7a76f47 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -262,7 +262,7 @@ class EoSInputFileReader(BasicReader):
             self.error = 'Data format (FORMAT keyword) not provided'
             return
 
-        if self._format['p'] == None:
+        if self._format.get('p') is None:
             self.error = 'No pressure data provided in input file'
             return
 
-- 
2.43.0


From 259492ceb8f95d5c35cb52000103b017ffe13c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 20/49] fix: EoS reader stops at the end of truncated input and
 reports missing or malformed data

---
 quantas/IO/eos_reader.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 7a76f47..085ff28 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -172,20 +172,27 @@ class EoSInputFileReader(BasicReader):
         with open(eos_input, 'r') as f:
             data = f.readlines()
 
+        job_line = None
         for i in range(len(data)):
             line = data[i]
+            # The job name may start with any word, even a keyword
+            if i == job_line:
+                continue
             # If empty or commented (#) lines are found, skip them
             if self.is_comment(line):
                 continue
 
             keyword = line.split()[0]
             if keyword.lower() == 'job':
-                self.set_job_name(data, i+1)
+                job_line = self.set_job_name(data, i+1)
             if keyword.lower() == 'format':
                 self.set_data_format(data, i+1)
             if keyword.lower() == 'data':
                 self.set_data(data, i)
 
+        if self.error is None and self.pressure is None:
+            self.error = 'No data (DATA keyword) provided in input file'
+
         if not isinstance(self.error, type(None)):
             self.completed = False
         else:
@@ -206,13 +213,14 @@ class EoSInputFileReader(BasicReader):
             Index of the line where the name of the job is supposed to be.
 
         """
-        while self._data['job'] == 'Unknown':
+        while idx < len(inpdata):
             line = inpdata[idx].rstrip('\n')
-            if (len(line) == 0 or line.strip()[0] == '#'):
+            if self.is_comment(line):
                 idx += 1
             else:
                 self._data['job'] = line
-        return
+                break
+        return idx
 
     def set_data_format(self, inpdata, idx):
         """
@@ -230,7 +238,7 @@ class EoSInputFileReader(BasicReader):
 
         """
         found = False
-        while not found:
+        while not found and idx < len(inpdata):
             line = inpdata[idx]
             if self.is_comment(line):
                 idx += 1
@@ -287,7 +295,13 @@ class EoSInputFileReader(BasicReader):
                 continue
 
             for quantity, n in self._format.items():
-                data[quantity].append(float(values[n]))
+                try:
+                    data[quantity].append(float(values[n]))
+                except (IndexError, ValueError):
+                    self.error = 'Wrong or missing value in line {} of the '
+                    self.error += 'input file'
+                    self.error = self.error.format(idx+1)
+                    return
 
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
-- 
2.43.0


From b0bfcdb815f864709a1000e0fae2ff520a50be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 21/49] fix: refuse empty or non-YAML-mapping (Q)HA input and
 report missing mandatory keywords

---
 quantas/IO/qha_reader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 67eaf38..2cafbbd 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -69,8 +69,15 @@ class QHAInputFileReader(BasicReader):
         return
 
     def _check(self):
-        if isinstance(self._data, type(None)):
+        if self.error is not None:
             return
+        if not isinstance(self._data, dict):
+            self.error = 'No data in input file'
+            return
+        for key in ('natom', 'supercell', 'qpoints'):
+            if not key in self._data:
+                self.error = "Keyword '{}' missing in input file".format(key)
+                return
         if not 'volume' in self._data:
             self.error = 'No volume values in input file'
             return
-- 
2.43.0


From 8d5a4f4a5aae9b1379339b448f5361a64c0bfe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 22/49] fix: quote the job name in generated (Q)HA input, so
 any description can be read back

---
 quantas/IO/qha_reader.py | 2 +-
 quantas/IO/qha_writer.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 2cafbbd..8940111 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -106,7 +106,7 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_string(item):
-        return item.rstrip()
+        return 'Unknown' if item is None else str(item).rstrip()
 
     @property
     def data(self):
diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index d1cb906..2df0134 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -9,6 +9,7 @@
 ##############################################################################
 
 import os
+import json
 import numpy as np
 from copy import deepcopy
 
@@ -110,7 +111,7 @@ class QHAInputCreator(object):
         reference = self.phondata[ref]
         data = []
         
-        data.append('job: {}'.format(jobname))
+        data.append('job: ' + json.dumps(jobname, ensure_ascii=False))
         data.append('natom:   %-7d' % reference.natom)
         data.append('supercell:')
         for i in range(3):
@@ -162,7 +163,7 @@ class QHAInputCreator(object):
         """
         n = self.phondata.points
         data = []
-        data.append('job: {}'.format(jobname))
+        data.append('job: ' + json.dumps(jobname, ensure_ascii=False))
         data.append('natom:   %-7d' % self.phondata.natom)
         data.append('supercell:')
         for i in range(3):
-- 
2.43.0


From ee325693b07a4e150821872193b815c4e0103ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 23/49] fix: the SOEC calculator reports why an unstable
 crystal was not analysed

---
 quantas/soec/soec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 91927c2..f55aea8 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -248,6 +248,7 @@ class SOECCalculator(BasicCalculator):
         if any(value <= 0 for value in eigv):
             msg = 'SOEC matrix is not definite positive, '+\
             'crystal is mechanically unstable'
+            self.error = msg
             self.echo(msg)
             self.echo('No further analysis will be performed.')
             return
-- 
2.43.0


From c660a41bff0a216840d27c345b893b7b15425b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 24/49] fix: log the error banner when the input of ha, qha and
 soec cannot be read

---
 quantas/harmonic/commands/cmd_ha.py | 2 +-
 quantas/qha/commands/cmd_qha.py     | 2 +-
 quantas/soec/commands/cmd_soec.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index d61461b..7faa655 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -99,7 +99,7 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 23b161d..70395a0 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -151,7 +151,7 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
 
     error = calculator.read_input(filename)
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 26982f4..9894abb 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -91,7 +91,7 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
-- 
2.43.0


From a4beaaaf2463900d5e4dd49e8124cb4d8998541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 25/49] fix: inpgen refuses a reference file index that is out
 of range

---
 quantas/harmonic/commands/cmd_inpgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 78b49c3..7547251 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -91,7 +91,7 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
-        if ref > len(generator.phondata):
+        if not 0 <= ref < len(generator.phondata):
             echo_error(quantas_error(), bold=True)
             echo_error('Invalid reference provided')
             return
-- 
2.43.0


From d48c0c7211720fa992bdff971964cb0e3002ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 26/49] fix: --acoustic without acoustic frequencies is
 reported instead of an AttributeError

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 80cedf1..28c074b 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -259,7 +259,7 @@ class QHACalculator(BasicCalculator):
         ndarray(dtype=float, ndim=2)
             Array containing the acoustic frequency values at each volume.
         """
-        return self.input.acoustic_kieffer
+        return getattr(self.input, 'acoustic_kieffer', None)
 
     @property
     def pressure(self):
-- 
2.43.0


From cacd3a2ea9251ae147f4b98cbc68b87765fa9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 27/49] fix: the exported QHA results carry the job name of the
 input

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 28c074b..7733052 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1244,7 +1244,7 @@ calculations performed with the following settings:
 
 Thermodynamics and mechanical properties were calculated as a function of
 pressure and temperature.
-""".format(self.input.job if hasattr(self.input, 'job') else 'Unknown',
+""".format(self.input.jobname,
            self._eunit, self._vunit, self._funit, self._tunit, self._punit,
            'frequency' if self.frequency_interpolation.is_on() else 'thermodynamic',
            'polynomial' if self.polynomial_minimization.is_on() else 'EoS'
-- 
2.43.0


From c8ff3ace29725b69c3ad2948b15b64ae4281e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 28/49] fix: exported Cp and Cp-Cv of QHA runs declare the unit
 they are stored in

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 7733052..927d7a9 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1280,7 +1280,7 @@ pressure and temperature.
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
-                if prop == 'Cv' or prop == 'S':
+                if prop in ('Cv', 'S', 'Cp', 'Cp-Cv'):
                     dset.attrs['unit'] = 'm'+self._eunit
                 elif prop == 'VT':
                     dset.attrs['unit'] = self._vunit
-- 
2.43.0


From 0e3aa8ddb61e76c4aac57cce41e8a42485776c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 29/49] fix: phonopy reader reports YAML errors and keeps
 fractional atomic positions

---
 quantas/interfaces/phonopy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30d130e..b58c772 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -104,7 +104,7 @@ class PhonopyReader(BasicReader):
                 self.error = exception
                 return
         else:
-            self.error = ' File not found!'.format(file)
+            self.error = 'File {} not found!'.format(file)
             return
 
         self.unitcell = self.set_unit_cell(idata)
@@ -209,8 +209,9 @@ class PhonopyReader(BasicReader):
         with open(file, 'r') as stream:
             try:
                 idata = yaml.safe_load(stream)
-            except yaml.YAMLError as exception:
+            except yaml.YAMLError as exc:
                 error = True
+                exception = 'Error in parsing YAML file: \n{}'.format(exc)
             return error, exception, idata
 
     def set_displacements(self, idata):
@@ -220,7 +221,7 @@ class PhonopyReader(BasicReader):
 
         natom = len(idata['supercell']['points'])
         numbers = np.zeros(natom, dtype=int)
-        positions = np.zeros((natom, 3), dtype=int)
+        positions = np.zeros((natom, 3), dtype=float)
         lattice = idata['supercell']['lattice']
 
         for i in range(natom):
@@ -235,7 +236,7 @@ class PhonopyReader(BasicReader):
         """
         natom = idata['natom']
         numbers = np.zeros(natom, dtype=int)
-        positions = np.zeros((natom, 3), dtype=int)
+        positions = np.zeros((natom, 3), dtype=float)
         lattice = idata['lattice']
 
         for i in range(natom):
-- 
2.43.0


From 7da8cf4e6e6e66c51b9b481854a34c7f12ea6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 30/49] fix: incomplete phonon bands in CRYSTAL output no
 longer hang the reader

---
 quantas/interfaces/crystal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 00dbb11..e47dd43 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -727,17 +727,18 @@ class CrystalPhononReader(BasicReader):
 
             if frequency_header in data[i]:
 
-                finished = False
                 band = np.zeros(self.nphonon, dtype=float)
                 line_counter = 0
                 freq_counter = 0
 
-                while not finished or freq_counter != self.nphonon:
-                    line = data[i + line_counter + 2].split()
+                while freq_counter != self.nphonon:
+                    line = ''.join(
+                        data[i + line_counter + 2:i + line_counter + 3]
+                        ).split()
 
+                    # The band is not complete
                     if len(line) == 0:
-                        finished = True
-                        continue
+                        return {}
 
                     mode_n1 = int(line[0][:-1])
                     mode_n2 = int(line[1])
-- 
2.43.0


From f8bb54d252d23814fac0bd0fc5742a24e56a1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 31/49] fix: CRYSTAL output without energy or with missing
 phonon bands is reported as such

---
 quantas/interfaces/crystal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index e47dd43..fdb6cbd 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -125,7 +125,7 @@ class CrystalPhononReader(BasicReader):
         if not np.any(self.lattice):
             self.error = 'No unit cell lattice in {0}'.format(file)
             return
-        if not bool(self.phonons):
+        if len(self.phonons) != self.qpoints:
             self.error = 'No phonon data in {0}'.format(file)
             return
         self.completed = True
@@ -708,6 +708,8 @@ class CrystalPhononReader(BasicReader):
 
         """
         sline = self._get_start_line(file, central_energy)
+        if sline is None:
+            return 0.
 
         with open(file, 'r') as f:
             data = f.readlines()
-- 
2.43.0


From b23adaa9d2c0319d04b95849f71b5dbd38512201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 32/49] fix: read CRYSTAL Gamma-point frequencies calculated on
 a supercell

---
 quantas/interfaces/crystal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index fdb6cbd..2a5efd0 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -101,8 +101,12 @@ class CrystalPhononReader(BasicReader):
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
                 self._data['supercell']['lattice'], np.linalg.inv(self.dim))
-            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
-                          self.set_q_mesh(file)
+            if self.scelphono_on:
+                self.qpoints, self.qcoords, self.weights, self.shrinkf = \
+                              self.set_q_mesh(file)
+            else:
+                self.qcoords = [[0., 0., 0.]]
+                self.weights = [1]
 
         else:
             self.unitcell = self.set_wf_cell(file)
-- 
2.43.0


From 68a8d079d114acb736a65f0fb9b0d9d2b4548d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 33/49] fix: truncated CRYSTAL QHA output is reported instead
 of an IndexError

---
 quantas/interfaces/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2a5efd0..1775b78 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1151,7 +1151,7 @@ class CrystalQHAReader(BasicReader):
             data = f.readlines()
 
         points = 0
-        for i in range(sline, sline+100):
+        for i in range(sline, min(sline+100, len(data))):
             if len(data[i].split()) != 2:
                 break
             else:
-- 
2.43.0


From 171a89faa61830e974c8c22f7d08ba7f7b0c9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 34/49] fix: acoustic entropy of Kieffer's model is consistent
 with its heat capacity and free energy

---
 quantas/qha/utils/kieffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index c4c38fe..b967d09 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -211,7 +211,7 @@ class Kieffer(object):
             # Calculate the first addendum
             num = np.power(np.arcsin(x/xi), 2.) *x
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= np.exp(x) - 1.
             first_term = num / den
 
             # Calculate the second addendum
@@ -227,7 +227,7 @@ class Kieffer(object):
         wmin = 1.e-6
         wmax = xnti/temperature
         function  = lambda x: entropy_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, 0.999*wmax, epsrel=self.cutoff)
+        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
-- 
2.43.0


From 7b5e4e6774600f176025324c7c443d142067417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 35/49] fix: CRYSTAL QHA output without all frequencies is
 reported instead of an IndexError

---
 quantas/interfaces/crystal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 1775b78..e0c4fd6 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -854,7 +854,12 @@ class CrystalQHAReader(BasicReader):
 
         self._data['energy'] = self.set_energy(file)
 
-        self.phonons = self.set_phonons(file)
+        try:
+            self.phonons = self.set_phonons(file)
+        except (IndexError, ValueError):
+            self.error = 'Some phonon frequencies are missing, this QHA '
+            self.error += 'calculation has not been completed'
+            return
 
         self.completed = True
         return
-- 
2.43.0


From cc59e1895ce41f6fada3642a9894d1a0957375d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 36/49] fix: truncated elastic constants of CRYSTAL and VASP
 outputs are reported instead of an IndexError

---
 quantas/interfaces/crystal.py | 4 ++--
 quantas/interfaces/vasp.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index e0c4fd6..212d40e 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1462,11 +1462,11 @@ class CrystalSOECReader(BasicReader):
             data = f.readlines()
 
         for i in range(6):
-            line = data[i+sline].replace('|','').split()
             for j in range(6-i):
                 try:
+                    line = data[i+sline].replace('|','').split()
                     self._data['stiffness'][i, j+i] = float(line[j])
-                except ValueError:
+                except (IndexError, ValueError):
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+i+1)
                     self.error += 'Please, check the CRYSTAL output file'
diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index b8d0393..741415c 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -45,11 +45,11 @@ class VASPSOECReader(BasicReader):
             data = f.readlines()
 
         for i in range(6):
-            line = data[i+sline].split()
             for j in range(6):
                 try:
+                    line = data[i+sline].split()
                     self._data['stiffness'][i, j] = float(line[j+1]) / 10.
-                except ValueError:
+                except (IndexError, ValueError):
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+1)
                     self.error += 'Please, check the OUTCAR file'
-- 
2.43.0


From afd81e0f5a68e30a818d898d76325d1bd38d26ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 37/49] fix: export static and zero-point energies of HA
 results, which have no temperature axis

---
 quantas/harmonic/utils/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/harmonic/utils/table.py b/quantas/harmonic/utils/table.py
index 650117d..b68961f 100644
--- a/quantas/harmonic/utils/table.py
+++ b/quantas/harmonic/utils/table.py
@@ -8,6 +8,8 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import numpy as np
+
 # ---------------------------------------------------------------------------#
 # Formatting constants
 # ---------------------------------------------------------------------------#
@@ -135,6 +137,8 @@ class QHATableFile():
               ):
         with open(outfile, 'wt', encoding='utf8') as f:
             totw, dataw = calc_space(len(y))
+            # Static and zero-point energies do not depend on temperature
+            z = np.broadcast_to(z, (len(x), len(y)))
             # Write the header
             f.write(fileHeader)
             f.write(nl)
-- 
2.43.0


From a8e2a3a18a69c9c95958c3436dc5c07efe75f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 38/49] fix: polar properties that were not calculated are
 neither stored nor offered for export

---
 quantas/soec/soec.py         |  7 ++++---
 quantas/soec/utils/export.py | 11 ++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index f55aea8..ebce4e3 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -549,11 +549,12 @@ It contains the results of the analysis of the second-order elastic constants
             dset.attrs['unit'] = self._punit
             dset = f.create_dataset('eigenvals', data=self.results['eigv'])
             dset.attrs['unit'] = self._punit
-            for key in self.results['polar']:
-                for var in self.results['polar'][key]:
+            polar = self.results['polar'] if self.polar else {}
+            for key in polar:
+                for var in polar[key]:
                     dsetname = 'polar_'+var+'_'+key
                     dset = f.create_dataset(
-                        dsetname, data=self.results['polar'][key][var])
+                        dsetname, data=polar[key][var])
                     if var in ['E', 'G']:
                         dset.attrs['unit'] = self._punit
                     # TO-DO: add support for more units
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index aeda7bc..d71fadb 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -47,16 +47,21 @@ class QuantasSOECExport(object):
                 self.error += ' file'
                 return
 
-            self.keys = ['E', 'LC', 'G', 'Nu']
+            self.keys = []
             for key in f.keys():
                 if not 'polar_' in key:
                     continue
                 else:
-                    if 'waves' in key and not 'waves' in self.keys:
-                        self.keys.append('waves')
+                    name = key.split('_')[1]
+                    if not name in self.keys:
+                        self.keys.append(name)
                     self.data[key] = {}
                     self.data[key]['values'] = f[key][:]
                     self.data[key]['unit'] = f[key].attrs['unit']
+
+            if not self.keys:
+                self.error = 'This Quantas SOEC output file does not contain '
+                self.error += 'polar properties'
         return
 
     def run(self):
-- 
2.43.0


From 4d0017e4fc8fdbc464e8ac8cacd243d7fee832eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 39/49] fix: refuse to run when the log or the generated file
 would overwrite the input

---
 quantas/cmdline/utils/messages.py       | 24 ++++++++++++++++++++++++
 quantas/eosfit/commands/cmd_eosfit.py   |  8 ++++++++
 quantas/harmonic/commands/cmd_ha.py     |  8 ++++++++
 quantas/harmonic/commands/cmd_inpgen.py |  7 +++++++
 quantas/qha/commands/cmd_qha.py         |  8 ++++++++
 quantas/soec/commands/cmd_inpgen.py     |  7 +++++++
 quantas/soec/commands/cmd_soec.py       |  8 ++++++++
 7 files changed, 70 insertions(+)

diff --git a/quantas/cmdline/utils/messages.py b/quantas/cmdline/utils/messages.py
index 0e215e4..56c870a 100644
--- a/quantas/cmdline/utils/messages.py
+++ b/quantas/cmdline/utils/messages.py
@@ -74,6 +74,30 @@ ___________.__       .__       .__
     return msg
 
 
+def is_same_file(first, second):
+    """
+    Tell if two paths lead to the same existing file.
+
+    Parameters
+    ----------
+
+    first: str
+        First path.
+
+    second: str
+        Second path.
+
+    Returns
+    -------
+
+    bool
+        True if both files exist and they are the same file.
+
+    """
+    return (os.path.exists(first) and os.path.exists(second)
+            and os.path.samefile(first, second))
+
+
 def init_logfile(logfile=None):
     """
     Init the file used to log information on the current software run.
diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index db7f467..6371303 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import is_same_file
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -54,6 +55,13 @@ def eos_calculation(filename, outfile, punit, vunit):
         logfile = outbase + '.log'
     else:
         logfile = outfile + '.log'
+
+    if is_same_file(logfile, filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The log would overwrite the input file '{}', please select "
+                   "another output file (-o)".format(filename))
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index 7faa655..a023b09 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import is_same_file
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -72,6 +73,13 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+
+    if is_same_file(logfile, filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The log would overwrite the input file '{}', please select "
+                   "another output file (-o)".format(filename))
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 7547251..86abe47 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import is_same_file
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -69,6 +70,12 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
         echo_error("'{}' is not a file".format(filename))
         return
 
+    if is_same_file(outfile, filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The output would overwrite the input file '{}', please "
+                   "select another output file (-o)".format(filename))
+        return
+
     generator = QHAInputCreator(interface)
 
     try:
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 70395a0..5c87438 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import is_same_file
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -116,6 +117,13 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+
+    if is_same_file(logfile, filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The log would overwrite the input file '{}', please select "
+                   "another output file (-o)".format(filename))
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/soec/commands/cmd_inpgen.py b/quantas/soec/commands/cmd_inpgen.py
index d6bac18..a28c97a 100644
--- a/quantas/soec/commands/cmd_inpgen.py
+++ b/quantas/soec/commands/cmd_inpgen.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import is_same_file
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -64,6 +65,12 @@ def soec_inpgen(filename, outfile, interface):
         echo_error('{} is not a file'.format(filename))
         return
 
+    if is_same_file(outfile, filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The output would overwrite the input file '{}', please "
+                   "select another output file (-o)".format(filename))
+        return
+
     generator = SOECInputCreator(interface)
 
     try:
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 9894abb..e98ac7c 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -20,6 +20,7 @@ from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
 from quantas.cmdline.utils.messages import quantas_finish
 from quantas.cmdline.utils.messages import init_logfile
+from quantas.cmdline.utils.messages import is_same_file
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_error
 from quantas.cmdline.utils.messages import echo_highlight
@@ -64,6 +65,13 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+
+    if is_same_file(logfile, filename):
+        echo_error(quantas_error(), bold=True)
+        echo_error("The log would overwrite the input file '{}', please select "
+                   "another output file (-o)".format(filename))
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
-- 
2.43.0


From 41c90d1342f6adbeaabfe48adff4cc2d8c4d699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 40/49] fix: azimuth of wave directions is measured from x
 towards y

---
 quantas/seismic/utils/seismic_obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 6f444dc..36d7cc5 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -434,7 +434,7 @@ class Seismic(object):
         x = self.direction[0]
         y = self.direction[1]
         z = self.direction[2]
-        self.phi = np.arctan2(x, y)
+        self.phi = np.arctan2(y, x)
         self.theta = np.arctan2(np.sqrt(y ** 2 + x ** 2), z)
 
         # Set the new Christoffel matrix
@@ -553,7 +553,7 @@ class Seismic(object):
             x = gdir[i][0]
             y = gdir[i][1]
             z = gdir[i][2]
-            gphi[i] = np.arctan2(x, y)
+            gphi[i] = np.arctan2(y, x)
             gtheta[i] = np.arctan2(np.sqrt(y**2 + x**2), z)
 
         # Calculate the powerflow angle
-- 
2.43.0


From ebc76b07d498af5763eca324ab433be857f5867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 41/49] fix: define the row terminator format used by newrow

---
 quantas/soec/utils/table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/soec/utils/table.py b/quantas/soec/utils/table.py
index 0e0ce89..7694544 100644
--- a/quantas/soec/utils/table.py
+++ b/quantas/soec/utils/table.py
@@ -13,6 +13,7 @@
 # ---------------------------------------------------------------------------#
 sep = '{s:{c}<{w}}{s}'                          # Row separator format
 head = '{s}{v1:{c}^{w1}}{s}{v2:{c}^{w2}}{s}'    # Header format
+endrow = '{s:{c}<{w}}'                          # End of row format
 dw = 10                                         # Space for degree values
 vw = 15                                         # Space for data values
 nl = '\n'                                       # New line
-- 
2.43.0


From c5459087be6d4a5b7622a9a7a51683922a0bea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 42/49] fix: (Q)HA input whose amounts of data disagree is
 refused

---
 quantas/IO/qha_reader.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 8940111..c1e4234 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -87,9 +87,42 @@ class QHAInputFileReader(BasicReader):
         if not 'phonon' in self._data:
             self.error = 'No phonon data in input file'
             return
+        try:
+            self._check_sizes()
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError):
+            self.error = 'Malformed data in input file'
+        if self.error is not None:
+            return
         self.completed = True
         return
 
+    def _check_sizes(self):
+        """ Check that the amounts of data in the input file agree. """
+        nvol = np.size(self.volume)
+        if np.shape(self._data['supercell']) != (3, 3):
+            self.error = 'The supercell is not a 3x3 matrix'
+        elif np.size(self.energy) != nvol:
+            self.error = 'Found {} energy values for {} volumes'.format(
+                np.size(self.energy), nvol)
+        elif len(self._data['phonon']) != self.qpoints:
+            self.error = 'Found phonon data of {} q-points, not {}'.format(
+                len(self._data['phonon']), self.qpoints)
+        if self.error is not None:
+            return
+        for q in self._data['phonon']:
+            self._get_float(q['weight'])
+            if len(q['band']) != 3*self.natoms:
+                self.error = 'Found {} phonon bands, not {}'.format(
+                    len(q['band']), 3*self.natoms)
+                return
+            for frequency in q['band']:
+                found = np.size(self._get_float(frequency['frequency']))
+                if found != nvol:
+                    self.error = 'Found {} frequencies of a phonon band ' \
+                        'for {} volumes'.format(found, nvol)
+                    return
+        return
+
     @staticmethod
     def _get_float(item):
         try:
-- 
2.43.0


From 1ecd115435081b187b352f5416fd0ceab71f457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 43/49] fix: exporters ask before overwriting the file name
 entered instead of the default one

---
 quantas/harmonic/utils/export.py | 4 ++--
 quantas/qha/utils/export.py      | 4 ++--
 quantas/seismic/utils/export.py  | 4 ++--
 quantas/soec/utils/export.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index fec0a0d..61386ad 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -75,9 +75,9 @@ class QuantasHarmonicExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index b708139..4282dbf 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -75,9 +75,9 @@ class QuantasQHAExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index c0687fa..56aa18a 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -75,9 +75,9 @@ class QuantasSeismicExport(object):
                 if selection in key:
                     data = self.data[key]['values']
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index d71fadb..56ab8e9 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -86,9 +86,9 @@ class QuantasSOECExport(object):
                     else:
                         data = np.hstack((data, self.data[key]['values'][:,1:]))
 
-            if os.path.exists(outfile):
+            while os.path.exists(outfile):
                 if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
+                    break
                 else:
                     outfile = click.prompt('Please, enter a file name')
 
-- 
2.43.0


From 5ce2756ae6767a3deb1200827d9480284c145221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 44/49] fix: the figure of linear compressibility shows the
 whole of the negative curve

The radial limit was taken from the positive values alone.
---
 quantas/soec/utils/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/utils/plotting.py b/quantas/soec/utils/plotting.py
index c10e6f9..ece163f 100644
--- a/quantas/soec/utils/plotting.py
+++ b/quantas/soec/utils/plotting.py
@@ -135,17 +135,17 @@ def compressibility_polar_plot(xy, xz, yz):
     fig, ax1, ax2, ax3 = make_polar_figure()
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 1]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:3]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 1]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:3]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 1]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:3]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Positive", "Negative"), fontsize=12)
-- 
2.43.0


From 1e5b33257601c2db614d6e54f036419eb5fe094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:00 +0000
Subject: [PATCH 45/49] fix: the QHA report heads the volumes with the unit
 they are in

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 927d7a9..236f717 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1205,7 +1205,7 @@ class QHACalculator(BasicCalculator):
             self.echo(
                 '{0: ^7} {1: ^14} {2: ^16} {3: ^9} {4: ^9} {5: ^16}'.format(
                     'T ({})'.format(self._tunit),
-                    'V(T) (A^3)',
+                    'V(T) ({}^3)'.format(self._vunit),
                     'a_V (K^-1)',
                     'KT ({})'.format(self._punit),
                     'KS ({})'.format(self._punit),
-- 
2.43.0


From 5fe26ab76e2f7e7e2092370ebc710c7b56adec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 46/49] fix: primitive lattice vectors of CRYSTAL dispersion
 outputs are the inverse expansion times the supercell's

---
 quantas/interfaces/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 212d40e..84d7bc7 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -100,7 +100,7 @@ class CrystalPhononReader(BasicReader):
             self.unitcell = self.set_init_cell(file)
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
-                self._data['supercell']['lattice'], np.linalg.inv(self.dim))
+                np.linalg.inv(self.dim), self._data['supercell']['lattice'])
             if self.scelphono_on:
                 self.qpoints, self.qcoords, self.weights, self.shrinkf = \
                               self.set_q_mesh(file)
-- 
2.43.0


From 3abd598e8a86975267975fa4d88d08818a2fa4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 47/49] fix: the table of Poisson's ratio heads its third
 column maximum, not measurement

---
 quantas/soec/utils/table.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/utils/table.py b/quantas/soec/utils/table.py
index 7694544..3f7901f 100644
--- a/quantas/soec/utils/table.py
+++ b/quantas/soec/utils/table.py
@@ -84,9 +84,9 @@ class SOECTableFile():
             '(yz)': ['minimum', 'maximum'],
             }},
         'Nu': {'desc': "Poisson's ratio", 'label': {
-            '(xy)': ['negative', 'positive', 'measurement'],
-            '(xz)': ['negative', 'positive', 'measurement'],
-            '(yz)': ['negative', 'positive', 'measurement'],
+            '(xy)': ['negative', 'positive', 'maximum'],
+            '(xz)': ['negative', 'positive', 'maximum'],
+            '(yz)': ['negative', 'positive', 'maximum'],
             }},
         'waves': {'desc': 'Seismic wave velocities', 'label': {
             '(xy)': ['v_s1', 'vs_2', 'v_l'],
-- 
2.43.0


From 1eb95d076b6ee6c117c093b17797bfce6f145085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 48/49] fix: left-handed lattices and expansion matrices have
 positive volumes and cell counts

---
 quantas/IO/qha_reader.py      |  2 +-
 quantas/interfaces/crystal.py | 14 +++++++-------
 quantas/interfaces/phonopy.py |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index c1e4234..71b88d5 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -158,7 +158,7 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['supercell']),0))
+        return int(np.around(abs(np.linalg.det(self._data['supercell'])), 0))
 
     @property
     def qpoints(self):
diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 84d7bc7..70767ad 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -305,11 +305,11 @@ class CrystalPhononReader(BasicReader):
         """
         if self.supercell_on:
             if self.scelphono_on:
-                return np.linalg.det(self._data['unitcell']['lattice'])
+                return abs(np.linalg.det(self._data['unitcell']['lattice']))
             else:
-                return np.linalg.det(self._data['supercell']['lattice'])
+                return abs(np.linalg.det(self._data['supercell']['lattice']))
         else:
-            return np.linalg.det(self._data['unitcell']['lattice'])
+            return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -407,7 +407,7 @@ class CrystalPhononReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def qpoints(self):
@@ -1023,7 +1023,7 @@ class CrystalQHAReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def energy(self):
@@ -1040,7 +1040,7 @@ class CrystalQHAReader(BasicReader):
         """
         volumes = np.zeros(self.points, dtype=float)
         for i in range(self.points):
-            volumes[i] = np.linalg.det(self._data['unitcell'][i]['lattice'])
+            volumes[i] = abs(np.linalg.det(self._data['unitcell'][i]['lattice']))
         return volumes / self.kpoints
 
     @property
@@ -1316,7 +1316,7 @@ class CrystalQHAReader(BasicReader):
         """
         indexes = []
         for i in range(len(cells)):
-            volume = np.linalg.det(cells[i]['lattice'])
+            volume = abs(np.linalg.det(cells[i]['lattice']))
             for j in range(len(cells)):
                 if np.isclose(volume, ordered_volumes[j]):
                     indexes.append(j)
diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index b58c772..c371905 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -168,7 +168,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def volume(self):
-        return np.linalg.det(self._data['unitcell']['lattice'])
+        return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -176,7 +176,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return int(np.around(abs(np.linalg.det(self._data['expansion'])), 0))
 
     @property
     def qpoints(self):
-- 
2.43.0


From 8e0acc881f42ce49294820056a37cf7d17c70d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:55 +0000
Subject: [PATCH 49/49] fix: incomplete phonopy and VASP files are refused with
 a message instead of a traceback

---
 quantas/interfaces/phonopy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index c371905..30f1c35 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -49,7 +49,14 @@ class PhonopyReader(BasicReader):
     """
 
     def __init__(self, phonopy_output):
-        BasicReader.__init__(self, phonopy_output)
+        try:
+            BasicReader.__init__(self, phonopy_output)
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError,
+                ET.ParseError) as exc:
+            self.completed = False
+            self.error = 'File {}, or those that go with it, is not a '
+            self.error += 'complete phonopy (VASP) output: {}\n'
+            self.error = self.error.format(phonopy_output, repr(exc))
         # Data dictionary with default values
         return
 
-- 
2.43.0

