From d95ba132fb703720524f3fbbbc20f762b0cc5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 01/61] fix: pressure/energy conversions no longer overwrite
 the caller's array

energy_to_pressure() and pressure_to_energy() worked in place on the array
they were given, so the caller's data changed scale, and they rejected
integer arrays.
---
 quantas/utils/physics/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 54e92ea..342efc1 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -311,7 +311,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     [  1.60210478 320.42095571]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert energy in J
     if energy_scale.lower() in ['hartree', 'ha']:
         res *= Ha
@@ -406,7 +406,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     [0.00022938 0.00045876]
 
     """
-    res = np.asarray(val)
+    res = np.array(val, dtype=float)
     # Convert pressures in Pascals
     if pressure_scale.lower() in ['gpa']:
         res *= giga
-- 
2.43.0


From 9a2358abaf1364819de0d41682dc1de676afefa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 02/61] fix: accept the documented energy names 'Hartree' and
 'Rydberg'

convert_energy() lowers the scale name before looking it up in lists that
spelled these two names with a capital letter only.
---
 quantas/utils/physics/units.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 342efc1..6ae75bc 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -149,11 +149,11 @@ def convert_energy(val, old_scale, new_scale):
 
     """
     # Convert from `old_scale` to Hartree
-    if old_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if old_scale.lower() in ['hartree', 'ha']:
         energy = np.asanyarray(val)
-    elif old_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif old_scale.lower() in ['electron volt', 'ev']:
         energy = np.asanyarray(val) * (eV / Ha)
-    elif old_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif old_scale.lower() in ['rydberg', 'ry']:
         energy = np.asanyarray(val) * (Ry / Ha)
     elif old_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
         energy = np.asanyarray(val) * (1000. / Ha / N)
@@ -162,11 +162,11 @@ def convert_energy(val, old_scale, new_scale):
                                   'are Hartree, eV, Rydberg and kJ/mol'
                                   % old_scale)
     # and from Hartree to `new_scale`.
-    if new_scale.lower() in ['Hartree', 'Ha', 'ha']:
+    if new_scale.lower() in ['hartree', 'ha']:
         res = energy
-    elif new_scale.lower() in ['electron volt', 'eV', 'ev']:
+    elif new_scale.lower() in ['electron volt', 'ev']:
         res = energy * (Ha / eV)
-    elif new_scale.lower() in ['Rydberg', 'Ry', 'ry']:
+    elif new_scale.lower() in ['rydberg', 'ry']:
         res = energy * (Ha / Ry)
     elif new_scale.lower() in ['kJ/mol', 'kj/mol', 'kjmol']:
         res = energy * (Ha * N / 1000.)
-- 
2.43.0


From 5df0a27dce35fb94c743d7f461bf8b75cad81774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 03/61] fix: use the angstrom (1e-10 m), not the X-ray
 'Angstrom star' unit

CODATA's 'Angstrom star' is a different, wavelength-based unit
(1.00001495e-10 m): volumes in cubic angstrom were off by 4.5e-5.
---
 quantas/utils/physics/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/utils/physics/units.py b/quantas/utils/physics/units.py
index 6ae75bc..e585733 100644
--- a/quantas/utils/physics/units.py
+++ b/quantas/utils/physics/units.py
@@ -39,7 +39,7 @@ zero_Celsius = 273.15
 # Units typically used in QM software
 #
 # 1. Distances
-Angstrom = cs.value(u'Angstrom star')   # (m)
+Angstrom = cs.angstrom                  # (m)
 Bohr = cs.value(u'Bohr radius')         # (m)
 #
 # 2. Electronic Energy
@@ -308,7 +308,7 @@ def energy_to_pressure(val, energy_scale, volume_scale, pressure_scale):
     --------
     >>> from quantascli.utils.units import energy_to_pressure
     >>> energy_to_pressure([0.001, 0.2], 'eV', 'angstrom', 'gpa')
-    [  1.60210478 320.42095571]
+    [ 0.16021766 32.04353268]
 
     """
     res = np.array(val, dtype=float)
@@ -403,7 +403,7 @@ def pressure_to_energy(val, energy_scale, volume_scale, pressure_scale):
     --------
     >>> from quantascli.utils.units import pressure_to_energy
     >>> pressure_to_energy([1., 2.], 'ha', 'angstrom', 'gpa')
-    [0.00022938 0.00045876]
+    [0.00022937 0.00045874]
 
     """
     res = np.array(val, dtype=float)
@@ -588,7 +588,7 @@ def convert_volume(val, old_scale, new_scale):
     --------
     >>> from quantascli.utils.units import convert_volume
     >>> convert_volume(10.9897, 'Angstrom', 'bohr')
-    74.1654978184323
+    74.16217159530973
 
     """
     # Convert from `old_scale` to metres
-- 
2.43.0


From 7d81e2a7fc8f40e9fa8eb2ae7879f9239376d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 04/61] fix: temperature and pressure ranges stop at the
 requested maximum

np.arange(min, max+step, step) adds one or two points beyond max when step does
not divide the interval exactly (or has no exact binary representation), and a
null step or reversed range ended with a traceback.
---
 quantas/cmdline/utils/general.py    | 13 ++++++++++++
 quantas/core/calculator.py          | 32 +++++++++++++++++++++++++++++
 quantas/harmonic/commands/cmd_ha.py |  2 ++
 quantas/harmonic/harmonic.py        |  2 +-
 quantas/qha/commands/cmd_qha.py     |  3 +++
 quantas/qha/qha.py                  |  4 ++--
 6 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/quantas/cmdline/utils/general.py b/quantas/cmdline/utils/general.py
index 1bf1170..816bc37 100644
--- a/quantas/cmdline/utils/general.py
+++ b/quantas/cmdline/utils/general.py
@@ -59,6 +59,19 @@ class MostSimilarCommandGroup(click.Group):
         return None
 
 
+def check_range(ctx, param, value):
+    """
+    Check that a (minimum, maximum, step) range, provided by the user from
+    command line, contains at least one value.
+    """
+    minimum, maximum, step = value
+    if step == 0. or (maximum - minimum) / step < 0.:
+        raise click.BadParameter(
+            'the range from {} to {} with step {} contains no values'.format(
+                minimum, maximum, step))
+    return value
+
+
 def print_version(ctx, param, value):
     """ Check the context and print Quantas version. """
     if not value or ctx.resilient_parsing:
diff --git a/quantas/core/calculator.py b/quantas/core/calculator.py
index 2d35f01..e24a650 100644
--- a/quantas/core/calculator.py
+++ b/quantas/core/calculator.py
@@ -13,6 +13,8 @@ This module contains a basic class that can be used as a base for other more
 sophisticated classes.
 """
 
+import numpy as np
+
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import echo_warning
 from quantas.cmdline.utils.messages import echo_error
@@ -95,6 +97,36 @@ class BasicCalculator(object):
         'var2': 'var2 description',
         }
 
+    @staticmethod
+    def set_range(minimum, maximum, step):
+        """
+        Set the array of values minimum, minimum + step, ..., up to maximum
+        (included, if it is a point of the range).
+
+        Parameters
+        ----------
+
+        minimum: float
+            First value of the range.
+
+        maximum: float
+            Upper bound of the range.
+
+        step: float
+            Increment between the values.
+
+        Returns
+        -------
+
+        ndarray
+            Values of the range with `float` type.
+
+        """
+        # The small tolerance accounts for steps without an exact binary
+        # representation (e.g., 0.1).
+        n = int(np.floor((maximum - minimum) / step + 1.e-6)) + 1
+        return minimum + step * np.arange(max(n, 0))
+
     def echo(self, msg):
         echo(msg, self.log, silent=self.silent)
         return
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index d61461b..6229928 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_range
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -38,6 +39,7 @@ from ..harmonic import HACalculator
               'without extension.', default=None, metavar='out_file',
               show_default='Input file base name')
 @click.option('-T', '--temperature', nargs=3, type=float,
+              callback=check_range,
               metavar='min max step',
               help='Temperature range provided as a tuple.',
               default=(298.15, 298.15, 1.), show_default='(298.15, 298.15, 1.)')
diff --git a/quantas/harmonic/harmonic.py b/quantas/harmonic/harmonic.py
index 9cc4f4d..0093787 100644
--- a/quantas/harmonic/harmonic.py
+++ b/quantas/harmonic/harmonic.py
@@ -133,7 +133,7 @@ class HACalculator(BasicCalculator):
             values with float type.
 
         '''
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        self._temperature = self.set_range(*temp)
         return
 
     def read_input(self, filename):
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 23b161d..c19b4d0 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_range
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -66,10 +67,12 @@ eos_functions = {
               help="Enable Kieffer's method for acoustic modes.",
               default=False)
 @click.option('-T', '--temperature', nargs=3, type=float,
+              callback=check_range,
               metavar='min max step',
               help='Temperature range provided as a tuple.',
               default=(298.15, 298.15, 1.), show_default='(298.15, 298.15, 1.)')
 @click.option('-P', '--pressure', nargs=3, type=float,
+              callback=check_range,
               metavar='min max step',
               help='Pressure range provided as a tuple.',
               default=(0., 0., 1.), show_default='(0., 0., 1.)')
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 80cedf1..b5adf06 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -284,7 +284,7 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._pressure = np.arange(press[0], press[1]+press[2], press[2])
+        self._pressure = self.set_range(*press)
         return
 
     @property
@@ -310,7 +310,7 @@ class QHACalculator(BasicCalculator):
             values with float type.
 
         """
-        self._temperature = np.arange(temp[0], temp[1]+temp[2], temp[2])
+        self._temperature = self.set_range(*temp)
         return
 
     def read_input(self, filename):
-- 
2.43.0


From b971864c357005adf3a820d5b8327b3598e42a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 05/61] fix: QHA minimisation picks the physical minimum of the
 free energy

The first root of the polynomial (or the root of smallest modulus for the EoS
guess) can be far outside the sampled volumes, even negative, when more than one
minimum exists; curves without a minimum ended with a traceback.
---
 quantas/qha/commands/cmd_qha.py |  8 ++++++-
 quantas/qha/qha.py              | 42 +++++++++++++++++++++++++--------
 quantas/qha/utils/ev_eos.py     | 15 +++++++++---
 3 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index c19b4d0..fd0f45a 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -32,6 +32,7 @@ from quantas.citations import quantas_citation
 from quantas.citations import qha_citation
 
 from ..qha import QHACalculator
+from ..qha import MinimizationError
 
 eos_formulations = {
     'M': 'Murnaghan',
@@ -158,7 +159,12 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
         echo_error(error, logfile)
         return
 
-    calculator.report_input_data()
+    try:
+        calculator.report_input_data()
+    except MinimizationError as exc:
+        echo_error(quantas_error(), logfile, bold=True)
+        echo_error(str(exc), logfile)
+        return
     calculator.run()
 
     if not calculator.completed:
diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index b5adf06..8273fdb 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -109,6 +109,10 @@ from quantas.utils.math.polynomials import interpolate
 from quantas.utils.math.polynomials import find_polynomial_minimum
 
 
+class MinimizationError(Exception):
+    """ No unit cell volume minimizes the free energy data. """
+
+
 class QHACalculator(BasicCalculator):
     """ Quasi-Harmonic Approximation class derived from the
     quantas.core.calculator.BasicCalculator class.
@@ -461,14 +465,19 @@ class QHACalculator(BasicCalculator):
             acoustic = convert_frequency(self.acoustic, self._funit, 'Hz')
         else:
             acoustic = None
-        if self.frequency_interpolation.is_on():
-            self.echo_debug('Switch to frequency interpolation mode')
-            self.run_frequency_interpolation(T, phonons, grid, idx, acoustic)
-        if self.thermodynamic_interpolation.is_on():
-            self.echo_debug('Switch to thermodynamics interpolation mode')
-            self.run_thermodynamics_interpolation(T, phonons,grid, idx,
-                                                  acoustic
-                                                  )
+        try:
+            if self.frequency_interpolation.is_on():
+                self.echo_debug('Switch to frequency interpolation mode')
+                self.run_frequency_interpolation(T, phonons, grid, idx,
+                                                 acoustic)
+            if self.thermodynamic_interpolation.is_on():
+                self.echo_debug('Switch to thermodynamics interpolation mode')
+                self.run_thermodynamics_interpolation(T, phonons,grid, idx,
+                                                      acoustic
+                                                      )
+        except MinimizationError as exc:
+            self.error = str(exc)
+            return
         self._finalize_run()
         
         self.echo('')
@@ -983,7 +992,11 @@ class QHACalculator(BasicCalculator):
         P0 = self.set_target_pressure(P0)
         F_P = np.array(F) + P0*np.array(V)
         eos = EnergyEOS()
-        eos_pars, eos_errs = eos.fit(self.eos_formulation, V, F_P)
+        try:
+            eos_pars, eos_errs = eos.fit(self.eos_formulation, V, F_P)
+        except RuntimeError as exc:
+            raise MinimizationError(
+                'Equation of state fitting failed: {}'.format(exc))
         return eos_pars, eos_errs
 
     def set_target_pressure(self, pressure):
@@ -1051,7 +1064,16 @@ class QHACalculator(BasicCalculator):
             if isinstance(parameters, type(None)):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
-            volume_PT = find_polynomial_minimum(parameters, pressure)[0]
+            minima = find_polynomial_minimum(parameters, pressure)
+            if len(minima) == 0:
+                raise MinimizationError(
+                    'No minimum of the free energy polynomial')
+            # More than one minimum may exist: consider the physical one, i.e.
+            # that within (or the nearest to) the sampled volumes.
+            outside = np.maximum(
+                np.maximum(np.min(volume) - minima, minima - np.max(volume)),
+                0.)
+            volume_PT = minima[np.argmin(outside)]
             return volume_PT, 0., 0.
         elif self.eos_minimization.is_on():
             eos_pars, _ = self.find_eos_minimum(volume, free_energy, pressure)
diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 67f1681..40d4bb6 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -147,11 +147,20 @@ class EnergyEOS(object):
         first_derivative = np.polyder(pars,1)
         second_derivative = np.polyder(pars,2)
         V_roots = np.roots(first_derivative)
-        Vs = V_roots * np.conj(V_roots)
-        root_minimum = np.argmin(Vs)
-        V0 = np.real(V_roots[root_minimum])
+        V_roots = np.real(V_roots[np.isreal(V_roots)])
+        V_roots = V_roots[np.polyval(second_derivative, V_roots) > 0.]
+        # Consider only the minimum close to the sampled volumes
+        width = np.max(V) - np.min(V)
+        V_roots = V_roots[(V_roots > np.min(V) - width)
+                          & (V_roots < np.max(V) + width) & (V_roots > 0.)]
+        if len(V_roots) > 0:
+            V0 = V_roots[np.argmin(np.abs(V_roots - np.mean(V)))]
+        else:
+            V0 = V[np.argmin(E)]
         E0 = np.polyval(pars, V0)
         K0 = V0 * np.polyval(second_derivative, V0)
+        if K0 <= 0.:
+            K0 = V0 * 2. * np.abs(np.polyfit(V, E, 2)[0])
         guess_pars = [E0, K0, 4., V0]
         return guess_pars
 
-- 
2.43.0


From 081b44674231fcd485c9aeea1670833f4de58cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 06/61] fix: QHA results report the job name of the input file

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 8273fdb..f2f4434 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1266,7 +1266,7 @@ calculations performed with the following settings:
 
 Thermodynamics and mechanical properties were calculated as a function of
 pressure and temperature.
-""".format(self.input.job if hasattr(self.input, 'job') else 'Unknown',
+""".format(self.input.jobname,
            self._eunit, self._vunit, self._funit, self._tunit, self._punit,
            'frequency' if self.frequency_interpolation.is_on() else 'thermodynamic',
            'polynomial' if self.polynomial_minimization.is_on() else 'EoS'
-- 
2.43.0


From 434f575470b70d6a1c8cc58f89036520f1bf798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 07/61] fix: unit of isobaric heat capacity in QHA results

Cp and Cp-Cv are stored in the same unit of Cv (milli-energy units).
---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index f2f4434..bf5cb14 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1302,7 +1302,7 @@ pressure and temperature.
             for prop in properties:
                 dset = f.create_dataset(prop, data=self.results[prop])
                 dset.attrs['desc'] = self.descriptions[prop]
-                if prop == 'Cv' or prop == 'S':
+                if prop in ('Cv', 'Cp', 'Cp-Cv', 'S'):
                     dset.attrs['unit'] = 'm'+self._eunit
                 elif prop == 'VT':
                     dset.attrs['unit'] = self._vunit
-- 
2.43.0


From 03ac3679f005e38a905fdaf0d835dd78757019f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 08/61] fix: unit of the volume in the printed QHA results

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index bf5cb14..1183b5e 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1227,7 +1227,7 @@ class QHACalculator(BasicCalculator):
             self.echo(
                 '{0: ^7} {1: ^14} {2: ^16} {3: ^9} {4: ^9} {5: ^16}'.format(
                     'T ({})'.format(self._tunit),
-                    'V(T) (A^3)',
+                    'V(T) ({}^3)'.format(self._vunit),
                     'a_V (K^-1)',
                     'KT ({})'.format(self._punit),
                     'KS ({})'.format(self._punit),
-- 
2.43.0


From 8db6cf9bbbcf3e464ddf56c60972caf1cc778965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 09/61] fix: pressures of the static E(V) curve use the K''
 implied by the equation of state

---
 quantas/qha/utils/ev_eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/qha/utils/ev_eos.py b/quantas/qha/utils/ev_eos.py
index 40d4bb6..105dd64 100644
--- a/quantas/qha/utils/ev_eos.py
+++ b/quantas/qha/utils/ev_eos.py
@@ -371,7 +371,7 @@ class EnergyEOS(object):
         # Set P-V EoS parameters according to:
         #  - p[0] = K0
         #  - p[1] = K'
-        #  - p[2] = K'' (usually set to zero)
+        #  - p[2] = K'' (implied by the 3rd-order formulation)
         #  - p[3] = V0
         #
         pv_pars = np.zeros(4, dtype=float)
@@ -379,5 +379,5 @@ class EnergyEOS(object):
         pv_pars[1] = ev_pars[2]
         pv_pars[3] = ev_pars[3]
         # Calculate pressures
-        pressures = eos.eos(pv_pars, V, order=3)
+        pressures = eos.eos(pv_pars, V, order=3, dofit=True)
         return pressures
-- 
2.43.0


From a0565b1ce9fd66d273beae9accde80f61eec0e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 10/61] fix: a fit neither changes nor rescales the parameters
 given as guess

---
 quantas/eosfit/utils/pv_eos.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index cfddc50..f854599 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -138,15 +138,12 @@ class EOS(object):
         # Check if there is a guess
         try:
             len(guess)
-            p0 = guess
+            p0 = np.array(guess, dtype=float)
         except TypeError:
             #
             # Perform a guess on the parameters
-            p0 = self.guess(V, P)
-        #
-        # Check if we're going to perform a linearized fit
-        if linear == True:
-            p0[0] = p0[0]*3.
+            # (linear fits: -l(dP/dl) is already the linear modulus M0)
+            p0 = np.array(self.guess(V, P), dtype=float)
         model = Model(self.eos, extra_args=[order, linear, True])
         # Set the data for ODR
         data = RealData(V, P, sigmaV, sigmaP)
-- 
2.43.0


From 3e7f9a0d9c7b37c141de6d9b0d1648dd2597d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 11/61] fix: implied K'' of the Vinet equation of state

---
 quantas/eosfit/utils/pv_eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index f854599..de81f79 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -729,7 +729,7 @@ class Vinet(EOS):
                 p[1] = 3.
 
         # Kpp is always implied
-        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./46.))
+        p[2] = (-1./p[0])*(np.power(p[1]/2.,2.)+(p[1]/2.)-(19./36.))
             
         fV = 1. - (V/p[3])**(1./3.)
         eta = (1.5) * (p[1] - 1.)
-- 
2.43.0


From 97904224ff97dd7133a5c2475ad48a8f18ff5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 12/61] fix: normalized pressure follows the given parameters
 and leaves them alone

---
 quantas/eosfit/utils/pv_eos.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/quantas/eosfit/utils/pv_eos.py b/quantas/eosfit/utils/pv_eos.py
index de81f79..0894310 100644
--- a/quantas/eosfit/utils/pv_eos.py
+++ b/quantas/eosfit/utils/pv_eos.py
@@ -385,17 +385,11 @@ class BirchMurnaghan(EOS):
             
         """
         # Store parameters locally 
-        pars = p[:]
+        pars = np.array(p, dtype=float)
 
         volume = np.delete(np.copy(V), 0)
         press = np.delete(np.copy(P), 0)
         
-        # Take into account linearity
-        if order == 2 and linear == True:
-            pars[1] = 4.
-            pars[2] = np.float64(
-                    (-1./pars[0])*( (3.-pars[1])*(4.-pars[1])+(35./9.))
-                    ) # implied value
         #
         # Calculate the normalized pressure curve
         fE_calc = np.float64(0.5 * (np.power((pars[3]/V),2./3.) - 1.) )
@@ -595,16 +589,11 @@ class NaturalStrain(EOS):
             
         """
         # Store parameters locally 
-        pars = p[:]
+        pars = np.array(p, dtype=float)
         
         volume = np.delete(np.copy(V), 0)
         press = np.delete(np.copy(P), 0)
         
-        # Take into account linearity
-        if order == 2 and linear == True:
-            pars[1] = 2.
-            pars[2] = (-1./pars[0])*(1.+(pars[1]-2.)+np.power(pars[1]-2.,2.))
-        
         # Calculate the normalized pressure curve from EoS
         fN_calc = (1./3.)*np.log(p[3]/V)
         f = 3.*(pars[3]/V)*fN_calc
@@ -785,20 +774,11 @@ class Vinet(EOS):
             
         """
         # Store parameters locally 
-        pars = p[:]
+        pars = np.array(p, dtype=float)
         
         volume = np.delete(np.copy(V), 0)
         press = np.delete(np.copy(P), 0)
         
-        # Take into account linearity
-        if order == 2 and linear == True:
-            pars[1] = 1.
-        
-        # Take into account linearity
-        if order == 2 and linear == True:
-            pars[1] = 2.
-            pars[2] = (-1./pars[0])*(1.+(pars[1]-2.)+np.power(pars[1]-2.,2.))
-        
         # Calculate the normalized pressure curve from EoS
         fV_calc = 1. - np.power((V/pars[3]),1./3.)
         eta_fV = (1.5) * (pars[1] - 1.)
-- 
2.43.0


From d7fdd6738a34c33645d2d7699074165264a0c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 13/61] fix: read EoS input files per instance and refuse
 incomplete or malformed ones

---
 quantas/IO/eos_reader.py | 150 ++++++++++++++++++++++-----------------
 1 file changed, 83 insertions(+), 67 deletions(-)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index 85b29da..de2964c 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -31,28 +31,6 @@ class EoSInputFileReader(BasicReader):
 
     """
 
-    _data ={
-        'job': 'Unknown',   # Job name
-        'v': None,          # Volume values
-        'sigmav': None,     # Error in volume measures
-        'p': None,          # Pressure values
-        'sigmap': None,     # Error in pressure measures
-        'a': None,          # a lattice parameter values
-        'sigmaa': None,     # Error in a-axis measures
-        'b': None,          # b lattice parameter values
-        'sigmab': None,     # Error in b-axis measures
-        'c': None,          # c lattice parameter values
-        'sigmac': None,     # Error in a-axis measures
-        }
-
-    _formats = [
-        'v', 'sigmav',
-        'p', 'sigmap',
-        'a', 'sigmaa',
-        'b', 'sigmab',
-        'c', 'sigmac'
-        ]
-
     _formats = {
         'p': ['p'],
         'v': ['v'],
@@ -66,8 +44,6 @@ class EoSInputFileReader(BasicReader):
         'sigmac': ['sigmac', 'sigc'],
         }
 
-    _format = {}
-
     def __init__(self, eos_input):
         """
         Constructor method of the class.
@@ -79,6 +55,20 @@ class EoSInputFileReader(BasicReader):
             Path of the input file.
 
         """
+        self._data = {
+            'job': 'Unknown',   # Job name
+            'v': None,          # Volume values
+            'sigmav': None,     # Error in volume measures
+            'p': None,          # Pressure values
+            'sigmap': None,     # Error in pressure measures
+            'a': None,          # a lattice parameter values
+            'sigmaa': None,     # Error in a-axis measures
+            'b': None,          # b lattice parameter values
+            'sigmab': None,     # Error in b-axis measures
+            'c': None,          # c lattice parameter values
+            'sigmac': None,     # Error in a-axis measures
+            }
+        self._format = {}
         BasicReader.__init__(self, eos_input)
         return
 
@@ -167,22 +157,29 @@ class EoSInputFileReader(BasicReader):
             Path to the EoS input file.
 
         """
-        with open(eos_input, 'r') as f:
+        with open(eos_input, 'r', errors='replace') as f:
             data = f.readlines()
 
-        for i in range(len(data)):
-            line = data[i]
+        idx = 0
+        found = False
+        while idx < len(data) and isinstance(self.error, type(None)):
+            line = data[idx]
+            idx += 1
             # If empty or commented (#) lines are found, skip them
             if self.is_comment(line):
                 continue
 
-            keyword = line.split()[0]
-            if keyword.lower() == 'job':
-                self.set_job_name(data, i+1)
-            if keyword.lower() == 'format':
-                self.set_data_format(data, i+1)
-            if keyword.lower() == 'data':
-                self.set_data(data, i)
+            keyword = line.split()[0].lower()
+            if keyword == 'job':
+                idx = self.set_job_name(data, idx)
+            elif keyword == 'format':
+                idx = self.set_data_format(data, idx)
+            elif keyword == 'data':
+                found = True
+                idx = self.set_data(data, idx)
+
+        if isinstance(self.error, type(None)) and not found:
+            self.error = 'No data (DATA keyword) provided in input file'
 
         if not isinstance(self.error, type(None)):
             self.completed = False
@@ -203,14 +200,20 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the name of the job is supposed to be.
 
+        Returns
+        -------
+
+        int
+            Index of the first line not yet read.
+
         """
-        while self._data['job'] == 'Unknown':
+        while idx < len(inpdata):
             line = inpdata[idx].rstrip('\n')
-            if (len(line) == 0 or line.strip()[0] == '#'):
-                idx += 1
-            else:
+            idx += 1
+            if not self.is_comment(line):
                 self._data['job'] = line
-        return
+                break
+        return idx
 
     def set_data_format(self, inpdata, idx):
         """
@@ -226,21 +229,24 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the data format is supposed to be.
 
+        Returns
+        -------
+
+        int
+            Index of the first line not yet read.
+
         """
-        found = False
-        while not found:
+        while idx < len(inpdata):
             line = inpdata[idx]
+            idx += 1
             if self.is_comment(line):
-                idx += 1
                 continue
-            else:
-                found = True
-                dformat = inpdata[idx].split()
-                for i in range(len(dformat)):
-                    for key, items in self._formats.items():
-                        if dformat[i].lower() in items:
-                            self._format[dformat[i].lower()] = i
-        return
+            for i, name in enumerate(line.split()):
+                for key, items in self._formats.items():
+                    if name.lower() in items:
+                        self._format[key] = i
+            break
+        return idx
 
     def set_data(self, inpdata, idx):
         """
@@ -255,38 +261,48 @@ class EoSInputFileReader(BasicReader):
         idx: int
             Index of the line where the data format is supposed to be.
 
+        Returns
+        -------
+
+        int
+            Index of the first line not yet read.
+
         """
         if not bool(self._format):
             self.error = 'Data format (FORMAT keyword) not provided'
-            return
+            return idx
 
-        if self._format['p'] == None:
+        if 'p' not in self._format:
             self.error = 'No pressure data provided in input file'
-            return
+            return idx
+
+        if not any(quantity in self._format for quantity in 'vabc'):
+            self.error = 'No structural data provided in input file'
+            return idx
 
         data = {}
         for quantity in self._format:
             data[quantity] = []
 
-        stop = False
-        while not stop:
-            idx += 1
-            if idx >= len(inpdata):
-                stop = True
-                continue
-
+        while idx < len(inpdata):
             line = inpdata[idx]
+            idx += 1
             if self.is_comment(line):
                 continue
 
             values = line.split()
-            if len(values) == 0:
-                stop = True
-                continue
-
-            for quantity, n in self._format.items():
-                data[quantity].append(float(values[n]))
+            try:
+                for quantity, n in self._format.items():
+                    data[quantity].append(float(values[n]))
+            except (ValueError, IndexError):
+                self.error = 'Wrong data at line {} of input file: {}'.format(
+                    idx, line.strip())
+                return idx
+
+        if len(data['p']) == 0:
+            self.error = 'No data found after the DATA keyword'
+            return idx
 
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
-        return
+        return idx
-- 
2.43.0


From f08f38c1e6d6d2721684fa7586bc4d9db9bb23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 14/61] fix: read lower triangular elastic matrices and refuse
 malformed ones

---
 quantas/IO/soec_reader.py | 117 +++++++++++++++++++++++---------------
 quantas/soec/soec.py      |   5 +-
 2 files changed, 76 insertions(+), 46 deletions(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 580b39b..48b9054 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -31,12 +31,6 @@ class SOECInputFileReader(BasicReader):
         Text explaining the error encountered in the input file.
     """
 
-    _data ={
-        'job': 'Unknown',
-        'stiffness': None,
-        'density': 0.
-        }
-
     def __init__(self, soec_input):
         """ Class constructor.
 
@@ -45,6 +39,11 @@ class SOECInputFileReader(BasicReader):
         soec_input: str
             Path of the SOEC input file.
         """
+        self._data = {
+            'job': 'Unknown',
+            'stiffness': None,
+            'density': 0.
+            }
         BasicReader.__init__(self, soec_input)
         return
 
@@ -99,7 +98,7 @@ class SOECInputFileReader(BasicReader):
 
         """
 
-        with open(filename, 'r') as f:
+        with open(filename, 'r', errors='replace') as f:
             data = f.readlines()
 
         if len(data) < 6:
@@ -109,11 +108,11 @@ class SOECInputFileReader(BasicReader):
 
         # Does the first line contain the job name?
         line = data[0]
-        try:
-            np.float64(line.strip()[0])
-            start = 0
-        except ValueError:
-            self._data['job'] = line.rstrip()
+        job = 'Unknown'
+        start = 0
+        if not (self.is_number(line.split()[0]) and
+                all(self.is_number(value) for value in line.split())):
+            job = line.rstrip()
             start = 1
 
         # Collect the SOEC matrix...
@@ -125,43 +124,71 @@ class SOECInputFileReader(BasicReader):
             return
 
         # ... and convert it to float numbers
-        matrix = np.zeros((6,6), dtype=np.float64)
-        try:
-            for i in range(6):
-                line = matstr[i].split()
-                n = len(line)
-                for j in range(n):
-                    matrix[i][j+(6-n)] = line[j]
-        except ValueError:
+        rows = [ line.split() for line in matstr ]
+        if not all(self.is_number(value) for row in rows for value in row):
             self.error = 'SOEC components should be float numbers'
             return
-        else:
-            # Take its form from the string matrix
-            form = []
-            for i in range(6):
-                form.append(len(matstr[i].split()))
-            # Check matrix symmetry and make it 6x6
-            if form == [6,5,4,3,2,1]:  # upper triangular
-                matrix = matrix + np.triu(matrix, 1).transpose()
-            if form == [1,2,3,4,5,6]:  # lower triangular
-                matrix = matrix + np.tril(matrix, 1).transpose()
-            if linalg.norm(matrix - matrix.transpose()) > 1e-3:
-                self.error = 'The SOEC matrix should be symmetric '
-                self.error += 'or triangular'
-                return
+
+        # Take its form from the string matrix
+        form = [ len(row) for row in rows ]
+        matrix = np.zeros((6,6), dtype=np.float64)
+        for i in range(6):
+            n = len(rows[i])
+            if form == [6,6,6,6,6,6]:    # complete
+                matrix[i] = rows[i]
+            elif form == [6,5,4,3,2,1]:  # upper triangular
+                matrix[i,i:] = rows[i]
+                matrix[i:,i] = rows[i]
+            elif form == [1,2,3,4,5,6]:  # lower triangular
+                matrix[i,:n] = rows[i]
+                matrix[:n,i] = rows[i]
             else:
-                # Store the matrix
-                self._data['stiffness'] = matrix.copy()
+                self.error = 'The SOEC matrix does not have the expected '
+                self.error += '(6, 6) shape.\nPlease, check the input file '
+                self.error += 'and retry.'
+                return
 
-        # Is the density present?
-        dline = start+6
-        try:
-            self._data['density'] = np.float64(data[dline].split()[0])
-        except IndexError:
-            pass
-        except ValueError:
-            self.error = 'Density value should be a float number'
-            self.completed = False
+        if linalg.norm(matrix - matrix.transpose()) > 1e-3:
+            self.error = 'The SOEC matrix should be symmetric '
+            self.error += 'or triangular'
             return
+
+        # Is the density present?
+        density = 0.
+        for line in data[start+6:]:
+            if len(line.split()) == 0:
+                continue
+            if not self.is_number(line.split()[0]):
+                self.error = 'Density value should be a float number'
+                return
+            density = np.float64(line.split()[0])
+            break
+
+        # Store the data
+        self._data['job'] = job
+        self._data['stiffness'] = matrix
+        self._data['density'] = density
         self.completed = True
         return
+
+    def is_number(self, text):
+        """
+        Check if a text represents a finite float number.
+
+        Parameters
+        ----------
+
+        text: str
+            Text to be checked.
+
+        Returns
+        -------
+
+        bool
+            True if the text is a finite number, otherwise False.
+
+        """
+        try:
+            return bool(np.isfinite(float(text)))
+        except ValueError:
+            return False
diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 6f49d0e..78f776c 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -171,7 +171,10 @@ class SOECCalculator(BasicCalculator):
         
         self.echo('Reading input file: {0}'.format(filename))
         self.echo_debug('Instantiate file reader')
-        reader = SOECInputFileReader(filename)
+        try:
+            reader = SOECInputFileReader(filename)
+        except IndexError:
+            return 'The first line of the input file is empty'
         if not reader.completed:
             return reader.error
         else:
-- 
2.43.0


From 18ba05ed7fee89396ebd3af47aac095c3e9676c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 15/61] fix: first axis of the shear modulus and Poisson's
 ratio extremes

---
 quantas/soec/soec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 78f776c..81499dc 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -423,8 +423,8 @@ class SOECCalculator(BasicCalculator):
             anisotropy = np.inf
         #
         # First (or Only) axis
-        minax1 = vector(*minval[0])
-        maxax1 = vector(*maxval[0])
+        minax1 = vector(*minval[0][:2])
+        maxax1 = vector(*maxval[0][:2])
         if dim == 2:
             minax2 = None
             maxax2 = None
-- 
2.43.0


From 4b0bd425e5037f3da6865e0b40f80591fda3d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 16/61] fix: report crystals that are mechanically unstable

---
 quantas/soec/soec.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 81499dc..1b9119e 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -182,7 +182,10 @@ class SOECCalculator(BasicCalculator):
             self.echo_debug('Input file correctly read')
             self._job = reader.jobname
             self.echo_debug('Job name set')
-            self._soec = SOEC(reader.stiffness, reader.density)
+            try:
+                self._soec = SOEC(reader.stiffness, reader.density)
+            except ValueError as error:
+                return 'SOEC ' + str(error)
             self.echo_debug('SOEC object instantiated')
             self._system = check_symmetry(self._soec.stiffness)
             self.echo_debug('Crystal system: {}'.format(self._system))
@@ -248,11 +251,12 @@ class SOECCalculator(BasicCalculator):
         self._results['avg_wave_velocities'] = awv
         #
         # Check SOEC eigenvalues consistency
-        if any(eigv) <= 0:
+        if min(eigv) <= 0.:
             msg = 'SOEC matrix is not definite positive, '+\
             'crystal is mechanically unstable'
             self.echo(msg)
             self.echo('No further analysis will be performed.')
+            self.error = msg
             return
         #
         # Calculate variations of the mechanical properties
-- 
2.43.0


From 438f787f616d492814b278144a4b3bb00e920af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 17/61] fix: no average wave velocities without a density

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 1b9119e..b3cd14d 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -401,7 +401,7 @@ class SOECCalculator(BasicCalculator):
         for i in range(3):
             self.echo(sv.format(avgnames[i], *tuple(avg[i])))
         self.echo('')
-        if awv[0] != np.nan:
+        if not np.isnan(awv[0]):
             self.echo('Average (VRH) wave velocities')
             self.echo('  - Transversal  (Vs): {: 10.5f} km/s'.format(awv[0]))
             self.echo('  - Longitudinal (Vp): {: 10.5f} km/s'.format(awv[2]))
-- 
2.43.0


From 10c1dc406f190195df1161e8071d33a84f597ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 18/61] fix: compliance is saved in the unit it is labelled
 with

---
 quantas/soec/soec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index b3cd14d..3dc46d5 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -548,7 +548,7 @@ It contains the results of the analysis of the second-order elastic constants
             f.attrs['info'] = info
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
             dset.attrs['unit'] = self._punit
-            dset = f.create_dataset('compliance', data=self.soec.compliance)
+            dset = f.create_dataset('compliance', data=self.soec.compliance*1000.)
             dset.attrs['unit'] = 'TPa^-1'
             dset = f.create_dataset('averages', data=self.results['avgs'])
             dset.attrs['unit'] = self._punit
-- 
2.43.0


From 20b67368e9ac51dec7b4b833509f6b41e9be19c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 19/61] fix: classification of hexagonal, trigonal and
 tetragonal crystals

---
 quantas/soec/utils/symmetry.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/quantas/soec/utils/symmetry.py b/quantas/soec/utils/symmetry.py
index c57ab32..587571a 100644
--- a/quantas/soec/utils/symmetry.py
+++ b/quantas/soec/utils/symmetry.py
@@ -19,19 +19,19 @@ Cij_symmetry = {
                       [0, 0, 0, 0, 4, 0],
                       [0, 0, 0, 0, 0, 4]]),
 
-   'hexagonal': np.array([[1, 7, 8, 9, 10, 0],
-                          [7, 1, 8, 0,-9, 0],
+   'hexagonal': np.array([[1, 7, 8, 0, 0, 0],
+                          [7, 1, 8, 0, 0, 0],
                           [8, 8, 3, 0, 0, 0],
-                          [9, -9, 0, 4, 0, 0],
-                          [10, 0, 0, 0, 4, 0],
+                          [0, 0, 0, 4, 0, 0],
+                          [0, 0, 0, 0, 4, 0],
                           [0, 0, 0, 0, 0, 6]]),
 
-   'trigonal_high': np.array([[1, 7, 8, 9, 10, 0],
-                              [7, 1, 8, 0,-9, 0],
-                              [8, 8, 3, 0, 0, 0],
-                              [9, -9, 0, 4, 0, 0],
-                              [10, 0, 0, 0, 4, 0],
-                              [0, 0, 0, 0, 0, 6]]),
+   'trigonal_high': np.array([[1,  7, 8,  9, 0, 0],
+                              [7,  1, 8, -9, 0, 0],
+                              [8,  8, 3,  0, 0, 0],
+                              [9, -9, 0,  4, 0, 0],
+                              [0,  0, 0,  0, 4, 9],
+                              [0,  0, 0,  0, 9, 6]]),
 
    'trigonal_low': np.array([[1,  7,  8,  9,  10,  0 ],
                              [7,  1,  8, -9, -10,  0 ],
@@ -118,7 +118,7 @@ def run_check(m, symmetry):
         l = []
         for key in Cij_map.keys():
             # Collect the combinations
-            if Cij_map[key] == i:
+            if abs(Cij_map[key]) == i:
                 l.append(key)
         if len(l) != 0:
             if i == 0:
@@ -129,13 +129,15 @@ def run_check(m, symmetry):
                         continue
             else:
                 for k in it.combinations(l, 2):
-                    if abs(m[k[0]] - m[k[1]]) > tol:
+                    # Opposite signs in the map are opposite elastic moduli
+                    sign = np.sign(Cij_map[k[0]]*Cij_map[k[1]])
+                    if abs(m[k[0]] - sign*m[k[1]]) > tol:
                         return False
                     else:
                         continue
 
-    # Additional check for hexagonal system
-    if symmetry == 'hexagonal':
+    # Additional check for hexagonal and trigonal systems
+    if symmetry in ['hexagonal', 'trigonal_high', 'trigonal_low']:
         if abs(m[5][5]-((m[0][0]-m[0][1])/2.)) > tol:
             return False
     return True
-- 
2.43.0


From 5914a4be127b9e47d11f4a4a33f14b79a51b8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 20/61] fix: search the extremes of the elastic properties from
 every local minimum

---
 quantas/soec/soec.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 3dc46d5..1f028d3 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -15,6 +15,7 @@ except ImportError:
     from time import clock
 
 import numpy as np
+from scipy import ndimage
 from scipy import optimize
 import h5py
 try:
@@ -55,15 +56,31 @@ hv = '    {:10}' + 3*' | {: ^10.4f}  {: ^10.4f}'    # Hexa values
 def minimize(func, dim, method='fmin'):
     if dim == 2:
         r = ((0, np.pi), (0, np.pi))
-        n = 25
+        n = 31
         x0 = [1., 1.]
     elif dim == 3:
         r = ((0, np.pi), (0, np.pi), (0, np.pi))
-        n = 10
+        n = 13
         x0 = [1., 1., 1.]
     if method == 'fmin':
-        return optimize.brute(func, r, Ns = n, full_output = True,
-                              finish = optimize.fmin)[0:2]
+        grid, values = optimize.brute(func, r, Ns = n, full_output = True,
+                                      finish = None)[2:]
+        # Polish each (non-equivalent) local minimum found on the grid, because
+        # the lowest point of the grid may not belong to the global minimum
+        minima = np.argwhere(values == ndimage.minimum_filter(values, 3))
+        simplex = np.vstack((np.zeros(dim), np.eye(dim))) - 1./3.
+        best = None
+        done = []
+        for i in sorted(map(tuple, minima), key=lambda i: values[i]):
+            if np.isclose(values[i], done, rtol=1e-6, atol=0.).any():
+                continue
+            done.append(values[i])
+            x = grid[(slice(None),)+i] + simplex*np.pi/n
+            res = optimize.fmin(func, x[0], initial_simplex=x,
+                                full_output=True, disp=False)[0:2]
+            if best is None or res[1] < best[1]:
+                best = res
+        return best
     elif method == 'bh':
         res = optimize.basinhopping(func, x0, niter=200)
         return [ res.x, res.fun ]
-- 
2.43.0


From 9301fb67fc791bf128ce18f60a5848f127622b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 21/61] fix: extremes of shear modulus and Poisson's ratio on
 the sections

---
 quantas/soec/utils/soec_obj.py | 47 +++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/quantas/soec/utils/soec_obj.py b/quantas/soec/utils/soec_obj.py
index 237b58b..0ff250c 100644
--- a/quantas/soec/utils/soec_obj.py
+++ b/quantas/soec/utils/soec_obj.py
@@ -11,7 +11,6 @@
 import math
 import numpy as np
 from numpy import linalg
-from scipy import optimize
 import itertools as it
 from click import progressbar
 
@@ -338,23 +337,41 @@ class SOEC(object):
         Vs = np.sqrt(1000.0*G/self.density)
         return np.array([Vs, Vs, Vp])
 
+    def transverse_extremes(self, func, x):
+        """
+        Minimum and maximum values of a property along a direction, with
+        respect to the direction of measurement. The property must vary as
+        :math:`a + b \\cos{2\\chi} + c \\sin{2\\chi}`.
+
+        Parameters
+        ----------
+
+        func: function
+            Property as a function of the three angles.
+
+        x: tuple
+            Tuple containing the :math:`\\theta` and :math:`\\phi`
+            angular values.
+
+        Returns
+        -------
+
+        tuple
+            Minimum and maximum values.
+        """
+        chi = np.arange(3)*np.pi/3.
+        f = np.array([func([x[0], x[1], z]) for z in chi])
+        amplitude = 2./3.*abs(np.sum(f*np.exp(2j*chi)))
+        return (float(f.mean() - amplitude), float(f.mean() + amplitude))
+
     def shear_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
-        def func1(z): return self.shear_modulus([x[0], x[1], z])
-        r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        def func2(z): return -self.shear_modulus([x[0], x[1], z])
-        r2 = optimize.minimize(func2, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        return (float(r1.fun), -float(r2.fun))
+        # The reciprocal shear modulus is harmonic in the third angle
+        r = self.transverse_extremes(lambda z: 1./self.shear_modulus(z), x)
+        return (1./r[1], 1./r[0])
 
     def poisson_2d(self, x):
-        ftol = 0.001
-        xtol = 0.01
-        def func1(z): return self.poisson_ratio([x[0], x[1], z])
-        r1 = optimize.minimize(func1, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        def func2(z): return -self.poisson_ratio([x[0], x[1], z])
-        r2 = optimize.minimize(func2, np.pi/2.0, args=(), method = 'Powell', options={'xtol':xtol, 'ftol':ftol})#, bounds=[(0.0,np.pi)])
-        return (min(0,float(r1.fun)), max(0,float(r1.fun)), -float(r2.fun))
+        r = self.transverse_extremes(self.poisson_ratio, x)
+        return (min(0, r[0]), max(0, r[0]), r[1])
 
     def phase_velocity(self, angles):
         """
-- 
2.43.0


From 5e36d3c0ff4905cb27668aa3444ac959c945f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 22/61] fix: refuse incomplete or inconsistent (Q)HA input
 files

Missing mandatory keywords, wrong numbers of volumes, energies, q-points or
bands, non-positive volumes, non-finite numbers and unusable weights are now
reported as input errors. Single values are accepted when there is only one
volume, and numeric job names are kept as text.
---
 quantas/IO/qha_reader.py | 82 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 76 insertions(+), 6 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 67eaf38..282fc20 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -65,11 +65,16 @@ class QHAInputFileReader(BasicReader):
                     self.error += '\n\nPlease, correct data and retry.'
             except UnicodeDecodeError:
                 self.error = "The provided input is not a YAML file."
-        self._check()
+            except ValueError as exc:
+                self.error = 'Error in parsing YAML file: {}'.format(exc)
+                self.error += '\n\nPlease, correct data and retry.'
+        if isinstance(self.error, type(None)):
+            self._check()
         return
 
     def _check(self):
-        if isinstance(self._data, type(None)):
+        if not isinstance(self._data, dict):
+            self.error = 'The input file does not contain (Q)HA data'
             return
         if not 'volume' in self._data:
             self.error = 'No volume values in input file'
@@ -80,9 +85,70 @@ class QHAInputFileReader(BasicReader):
         if not 'phonon' in self._data:
             self.error = 'No phonon data in input file'
             return
+        for keyword in ('natom', 'supercell', 'qpoints'):
+            if not keyword in self._data:
+                self.error = "No '{}' keyword in input file".format(keyword)
+                return
+        try:
+            self._check_values()
+        except (TypeError, ValueError, OverflowError, LookupError,
+                AttributeError) as exc:
+            self.error = 'Error in input file: {}'.format(exc)
+            return
         self.completed = True
         return
 
+    def _check_values(self):
+        """ Check the consistency of type and number of the input values. """
+        for keyword in ('natom', 'qpoints'):
+            value = np.float64(self._data[keyword])
+            if value < 1. or value != np.floor(value):
+                raise ValueError(
+                    "'{}' is not a positive integer".format(keyword))
+        self._check_array('supercell', self._data['supercell'], (3, 3))
+        n = self.volume.shape[0]
+        self._check_array('volume', self.volume, (n,))
+        if n < 1 or np.any(self.volume <= 0.):
+            raise ValueError("'volume' contains non-positive values")
+        self._check_array('energy', self.energy, (n,))
+        phonon = self._data['phonon']
+        if not isinstance(phonon, list) or len(phonon) != self.qpoints:
+            raise ValueError(
+                'phonon data of {} q-points were expected'.format(
+                    self.qpoints))
+        for i, q in enumerate(phonon, 1):
+            for keyword in ('weight', 'band'):
+                if not isinstance(q, dict) or not keyword in q:
+                    raise ValueError(
+                        "no '{}' keyword for q-point {}".format(keyword, i))
+            self._check_array('weight', q['weight'], ())
+            if np.float64(q['weight']) < 0.:
+                raise ValueError('negative weight for q-point {}'.format(i))
+            if not isinstance(q['band'], list) or \
+               len(q['band']) != 3*self.natoms:
+                raise ValueError(
+                    '{} bands were expected for q-point {}'.format(
+                        3*self.natoms, i))
+            for j, band in enumerate(q['band'], 1):
+                label = 'frequency of band {} for q-point {}'.format(j, i)
+                if not isinstance(band, dict) or not 'frequency' in band:
+                    raise ValueError('no {}'.format(label))
+                self._check_array(
+                    label, self._get_array(band['frequency']), (n,))
+        if self.total_q_points <= 0.:
+            raise ValueError('the weights of the q-points are all zero')
+        return
+
+    @staticmethod
+    def _check_array(label, item, shape):
+        """ Check if an item is an array of finite numbers. """
+        value = np.asarray(item, dtype=np.float64)
+        if value.shape != shape:
+            raise ValueError('wrong number of values in {}'.format(label))
+        if not np.all(np.isfinite(value)):
+            raise ValueError('invalid numbers in {}'.format(label))
+        return
+
     @staticmethod
     def _get_float(item):
         try:
@@ -90,6 +156,9 @@ class QHAInputFileReader(BasicReader):
         except ValueError:
             return np.array(item[0].split(), dtype=np.float64)
 
+    def _get_array(self, item):
+        return np.atleast_1d(self._get_float(item))
+
     @staticmethod
     def _get_int(item):
         try:
@@ -99,7 +168,7 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_string(item):
-        return item.rstrip()
+        return str(item).rstrip()
 
     @property
     def data(self):
@@ -118,7 +187,8 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['supercell']),0))
+        supercell = np.array(self._data['supercell'], dtype=np.float64)
+        return int(np.around(np.linalg.det(supercell),0))
 
     @property
     def qpoints(self):
@@ -134,11 +204,11 @@ class QHAInputFileReader(BasicReader):
 
     @property
     def volume(self):
-        return self._get_float(self._data['volume'])
+        return self._get_array(self._data['volume'])
 
     @property
     def energy(self):
-        return self._get_float(self._data['energy'])
+        return self._get_array(self._data['energy'])
 
     @property
     def frequencies(self):
-- 
2.43.0


From fd7099bd32a1e072a31ceb01b39eff74c199b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 23/61] fix: (Q)HA input files are made from the listed outputs
 only, if consistent

The phonon data were collected in a class attribute, thus they leaked from a
conversion to the next one. Outputs of different systems or q-points are not
mixed anymore, and blank lines in the list of files are ignored.
---
 quantas/IO/qha_writer.py | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index e715339..766ba0c 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -31,12 +31,12 @@ class QHAInputCreator(object):
         }
     
     interface = None
-    phondata = []
     reference = {}
 
     def __init__(self, interface=None):
         """
         """
+        self.phondata = []
         self.interface_flag = interface
         return
 
@@ -56,7 +56,7 @@ class QHAInputCreator(object):
             
         for file in file_list:
 
-            if not os.path.exists(file):
+            if not os.path.isfile(file):
                 error = 'File {} does not exists'.format(file)
                 return False, error
             echo('  - {} ...'.format(file), nl='')
@@ -70,6 +70,9 @@ class QHAInputCreator(object):
             if self.interface_flag == 'crystal-qha':
                 self.phondata = data
             else:
+                error = self.check_consistency(data)
+                if not isinstance(error, type(None)):
+                    return False, 'File {} {}'.format(file, error)
                 self.phondata.append(data)
 
             if c == reference and self.interface_flag != 'crystal-qha':
@@ -79,6 +82,9 @@ class QHAInputCreator(object):
 
             c += 1
 
+        if c == 0:
+            return False, 'No files in {}'.format(filename)
+
         return True, None
 
     def get_files_from_list(self, file_list):
@@ -86,9 +92,29 @@ class QHAInputCreator(object):
         """
         with open(file_list, "r") as f:
             files = f.readlines()
-        for i in range(len(files)):
-            files[i] = files[i].rstrip()
-        return files
+        return [file.strip() for file in files if file.strip()]
+
+    def check_consistency(self, data):
+        """
+        Check that the data were obtained on the same system and at the same
+        q-points of those already collected.
+        """
+        if len(self.phondata) == 0:
+            return None
+        first = self.phondata[0]
+        if data.natom != first.natom or data.nphonon != first.nphonon:
+            return 'has a different number of atoms'
+        if not np.array_equal(data.dim, first.dim):
+            return 'has a different supercell'
+        if data.qpoints != first.qpoints:
+            return 'has a different number of q-points'
+        for i in range(first.qpoints):
+            if not np.allclose(np.divide(data.qcoords[i], data.shrinkf),
+                               np.divide(first.qcoords[i], first.shrinkf),
+                               rtol=0., atol=1.e-6) or \
+               not np.isclose(data.weights[i], first.weights[i]):
+                return 'has different q-points'
+        return None
 
     def write(self, outfile, ref=0):
         """
-- 
2.43.0


From 0acd2fec822fca5db1afc1a0c22443cccdfb20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 24/61] fix: write any job description as valid YAML

---
 quantas/IO/qha_writer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 766ba0c..798fe0c 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -9,6 +9,7 @@
 ##############################################################################
 
 import os
+import yaml
 import numpy as np
 from copy import deepcopy
 
@@ -116,6 +117,14 @@ class QHAInputCreator(object):
                 return 'has different q-points'
         return None
 
+    @staticmethod
+    def get_job_line(jobname):
+        """
+        Format the job description as valid YAML, whatever it contains.
+        """
+        line = yaml.safe_dump({'job': jobname}, width=float('inf'))
+        return line.rstrip('\n')
+
     def write(self, outfile, ref=0):
         """
         """
@@ -135,7 +144,7 @@ class QHAInputCreator(object):
         reference = self.phondata[ref]
         data = []
         
-        data.append('job: {}'.format(jobname))
+        data.append(self.get_job_line(jobname))
         data.append('natom:   %-7d' % reference.natom)
         data.append('supercell:')
         for i in range(3):
@@ -187,7 +196,7 @@ class QHAInputCreator(object):
         """
         n = self.phondata.points
         data = []
-        data.append('job: {}'.format(jobname))
+        data.append(self.get_job_line(jobname))
         data.append('natom:   %-7d' % self.phondata.natom)
         data.append('supercell:')
         for i in range(3):
-- 
2.43.0


From 8aed23f818daad06ddb81d5bb221f15986a2845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 25/61] fix: weights of the q-points are not truncated to
 integers

---
 quantas/IO/qha_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 798fe0c..b247ef8 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -171,7 +171,7 @@ class QHAInputCreator(object):
         for i in range(reference.qpoints):
             data.append('- q-position: [ %12.7f, %12.7f, %12.7f ]'
                         % tuple(reference.qcoords[i]/reference.shrinkf))
-            data.append('  weight: %-5d' % reference.weights[i])
+            data.append('  weight: %-12.10g' % reference.weights[i])
             data.append('  band:')
             for j in range(reference.nphonon):
                 data.append('  - # {0}'.format(j+1))
@@ -224,7 +224,7 @@ class QHAInputCreator(object):
             data.append(
                 '- q-position: [ %12.7f, %12.7f, %12.7f ]'
                 % tuple(self.phondata.qcoords[i]/self.phondata.shrinkf))
-            data.append('  weight: %-5d' % self.phondata.weights[i])
+            data.append('  weight: %-12.10g' % self.phondata.weights[i])
             data.append('  band:')
             for j in range(self.phondata.nphonon):
                 data.append('  - # {0}'.format(j+1))
-- 
2.43.0


From 5a5a03431b2d0efb1610c27dbb2a32899ab77678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 26/61] fix: refuse references out of the list of outputs

---
 quantas/harmonic/commands/cmd_inpgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 78b49c3..7547251 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -91,7 +91,7 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
 
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
-        if ref > len(generator.phondata):
+        if not 0 <= ref < len(generator.phondata):
             echo_error(quantas_error(), bold=True)
             echo_error('Invalid reference provided')
             return
-- 
2.43.0


From b2d15dd28838b0fe709df178ce1c293eb565d1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 27/61] fix: read CRYSTAL outputs per instance and refuse
 incomplete ones

Damaged outputs either raised exceptions, looped forever or were accepted
with default data; the cells of a left-handed lattice had negative volumes,
and the QHA cells could be sorted by the wrong volume.
---
 quantas/interfaces/crystal.py | 132 +++++++++++++++++++++++-----------
 1 file changed, 91 insertions(+), 41 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 2027ef0..679b4f9 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -39,6 +39,8 @@ qha_restart = 'READING DATA FROM RESTART UNIT'
 soec_option = 'ELASTCON OPTION'
 soec_completed = 'FINAL RESULTS START'
 soec_ec = 'SYMMETRIZED ELASTIC CONSTANTS'
+# Error strings
+incomplete_output = "The CRYSTAL output '{}' is incomplete or damaged"
 
 
 class CrystalPhononReader(BasicReader):
@@ -85,7 +87,16 @@ class CrystalPhononReader(BasicReader):
             'weights': {},
             'shrinkf': np.ones(3, dtype=int)
             }
+        try:
+            self._load(file)
+        except UnicodeDecodeError:
+            raise
+        except (TypeError, ValueError, LookupError):
+            self.error = incomplete_output.format(file)
+        return
 
+    def _load(self, file):
+        """ Collect the data from the CRYSTAL output file. """
         if not self.is_frequency_calculation(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to phonon calculations'
@@ -101,12 +112,14 @@ class CrystalPhononReader(BasicReader):
             self.dim = self.set_expansion(file)
             self._data['unitcell']['lattice'] = np.dot(
                 self._data['supercell']['lattice'], np.linalg.inv(self.dim))
-            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
-                          self.set_q_mesh(file)
-
         else:
             self.unitcell = self.set_wf_cell(file)
             self.supercell = self.set_wf_cell(file)
+
+        if self.supercell_on and self.scelphono_on:
+            self.qpoints, self.qcoords, self.weights, self.shrinkf = \
+                          self.set_q_mesh(file)
+        else:
             self.qcoords = [[0., 0., 0.]]
             self.weights = [1]
         # Collect energy values and phonons
@@ -128,6 +141,10 @@ class CrystalPhononReader(BasicReader):
         if not bool(self.phonons):
             self.error = 'No phonon data in {0}'.format(file)
             return
+        if len(self.phonons) != self.qpoints or \
+           not np.all(np.isfinite(list(self.phonons.values()))):
+            self.error = incomplete_output.format(file)
+            return
         self.completed = True
         return
 
@@ -301,11 +318,11 @@ class CrystalPhononReader(BasicReader):
         """
         if self.supercell_on:
             if self.scelphono_on:
-                return np.linalg.det(self._data['unitcell']['lattice'])
+                return abs(np.linalg.det(self._data['unitcell']['lattice']))
             else:
-                return np.linalg.det(self._data['supercell']['lattice'])
+                return abs(np.linalg.det(self._data['supercell']['lattice']))
         else:
-            return np.linalg.det(self._data['unitcell']['lattice'])
+            return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -403,7 +420,7 @@ class CrystalPhononReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return abs(int(np.around(np.linalg.det(self._data['expansion']), 0)))
 
     @property
     def qpoints(self):
@@ -727,17 +744,15 @@ class CrystalPhononReader(BasicReader):
 
             if frequency_header in data[i]:
 
-                finished = False
                 band = np.zeros(self.nphonon, dtype=float)
                 line_counter = 0
                 freq_counter = 0
 
-                while not finished or freq_counter != self.nphonon:
+                while True:
                     line = data[i + line_counter + 2].split()
 
                     if len(line) == 0:
-                        finished = True
-                        continue
+                        break
 
                     mode_n1 = int(line[0][:-1])
                     mode_n2 = int(line[1])
@@ -748,6 +763,9 @@ class CrystalPhononReader(BasicReader):
 
                     line_counter += 1
 
+                if freq_counter != self.nphonon:
+                    raise ValueError('incomplete phonon band')
+
                 phonons[band_counter] = band
                 band_counter +=1
 
@@ -791,21 +809,6 @@ class CrystalQHAReader(BasicReader):
     _is_supercell = False
     _is_restarted = False
 
-    _data = {
-        'points': 0.,
-        'unitcell': [],
-        'supercell': [],
-        'expansion': np.identity(3, dtype=int),
-        'energy': 0.,
-        'kpoints': 1,
-        'qpoints': 1,
-        'qcoords': {},
-        'nphonon': 0,
-        'phonons': {},
-        'weights': {},
-        'shrinkf': np.ones(3, dtype=int)
-        }
-
     def __init__(self, crystal_output):
         BasicReader.__init__(self, crystal_output)
         return
@@ -814,6 +817,30 @@ class CrystalQHAReader(BasicReader):
         """
 
         """
+        self._data = {
+            'points': 0.,
+            'unitcell': [],
+            'supercell': [],
+            'expansion': np.identity(3, dtype=int),
+            'energy': 0.,
+            'kpoints': 1,
+            'qpoints': 1,
+            'qcoords': {},
+            'nphonon': 0,
+            'phonons': {},
+            'weights': {},
+            'shrinkf': np.ones(3, dtype=int)
+            }
+        try:
+            self._load(file)
+        except UnicodeDecodeError:
+            raise
+        except (TypeError, ValueError, LookupError):
+            self.error = incomplete_output.format(file)
+        return
+
+    def _load(self, file):
+        """ Collect the data from the CRYSTAL output file. """
         if not self.is_qha(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to QHA calculations'
@@ -850,6 +877,10 @@ class CrystalQHAReader(BasicReader):
 
         self.phonons = self.set_phonons(file)
 
+        if not np.all(np.isfinite(self.energy)) or \
+           not np.all(np.isfinite(list(self.phonons.values()))):
+            raise ValueError('invalid numbers')
+
         self.completed = True
         return
 
@@ -1012,7 +1043,7 @@ class CrystalQHAReader(BasicReader):
         Get the number of sampled *k*-points, determined from the expansion
         matrix.
         """
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return abs(int(np.around(np.linalg.det(self._data['expansion']), 0)))
 
     @property
     def energy(self):
@@ -1029,7 +1060,8 @@ class CrystalQHAReader(BasicReader):
         """
         volumes = np.zeros(self.points, dtype=float)
         for i in range(self.points):
-            volumes[i] = np.linalg.det(self._data['unitcell'][i]['lattice'])
+            volumes[i] = abs(np.linalg.det(
+                self._data['unitcell'][i]['lattice']))
         return volumes / self.kpoints
 
     @property
@@ -1303,16 +1335,15 @@ class CrystalQHAReader(BasicReader):
             List of ordered unit cell data by increasing unit cell volume.
 
         """
-        indexes = []
-        for i in range(len(cells)):
-            volume = np.linalg.det(cells[i]['lattice'])
-            for j in range(len(cells)):
-                if np.isclose(volume, ordered_volumes[j]):
-                    indexes.append(j)
+        volumes = np.array(
+            [abs(np.linalg.det(cell['lattice'])) for cell in cells])
 
         ordered_cells = []
-        for i in range(len(cells)):
-            ordered_cells.append(cells[indexes.index(i)])
+        for volume in ordered_volumes:
+            idx = np.argmin(abs(volumes - volume))
+            if not np.isclose(volumes[idx], volume):
+                raise ValueError('no unit cell with the selected volume')
+            ordered_cells.append(cells[idx])
 
         return ordered_cells
 
@@ -1382,6 +1413,9 @@ class CrystalQHAReader(BasicReader):
                 if data[i].split()[0] == 'FREQUENCY':
                     freq_idx.append(i+3)
 
+        if len(freq_idx) != nfreq:
+            raise ValueError('incomplete phonon data')
+
         for i in range(nfreq):
             for j in range(self.points):
                 frequency_line = data[freq_idx[i] + j].split()
@@ -1413,6 +1447,8 @@ class CrystalQHAReader(BasicReader):
                     break
                 else:
                     sline += 1
+            else:
+                raise ValueError("'{}' not found".format(search_string))
         return sline
 
 
@@ -1420,11 +1456,6 @@ class CrystalSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, crystal_soec_output):
         """
         """
@@ -1434,6 +1465,20 @@ class CrystalSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
+        try:
+            self._load(file)
+        except UnicodeDecodeError:
+            raise
+        except (ValueError, LookupError):
+            self.error = incomplete_output.format(file)
+        return
+
+    def _load(self, file):
+        """ Collect the data from the CRYSTAL output file. """
         if not self.is_soec_output(file):
             self.error = 'This does not appear to be a CRYSTAL14/17 '
             self.error += 'output \nrelated to elastic constants calculations'
@@ -1453,6 +1498,8 @@ class CrystalSOECReader(BasicReader):
 
         for i in range(6):
             line = data[i+sline].replace('|','').split()
+            if len(line) != 6-i:
+                raise ValueError('incomplete SOEC matrix')
             for j in range(6-i):
                 try:
                     self._data['stiffness'][i, j+i] = float(line[j])
@@ -1464,6 +1511,9 @@ class CrystalSOECReader(BasicReader):
 
         self._data['stiffness'] += np.triu(self._data['stiffness'], 1).T
 
+        if not np.all(np.isfinite(self._data['stiffness'])):
+            raise ValueError('invalid numbers in the SOEC matrix')
+
         self.completed = True
         return
 
-- 
2.43.0


From 99ea41483bc4815f529eb247286b110fa620eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 28/61] fix: order of the shear components of VASP elastic
 moduli

VASP lists them as XY, YZ, ZX: exchanging the first and the last is not
enough to get the YZ, ZX, XY order. Incomplete matrices are refused too.
---
 quantas/interfaces/vasp.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/quantas/interfaces/vasp.py b/quantas/interfaces/vasp.py
index de57fb1..a3ca859 100644
--- a/quantas/interfaces/vasp.py
+++ b/quantas/interfaces/vasp.py
@@ -20,11 +20,6 @@ class VASPSOECReader(BasicReader):
     """
     """
 
-    _data = {
-        'stiffness': np.zeros((6,6), dtype=float),
-        'density': 0.
-        }
-
     def __init__(self, vasp_outcar):
         """
         """
@@ -34,6 +29,11 @@ class VASPSOECReader(BasicReader):
     def load(self, file):
         """
         """
+        self._data = {
+            'stiffness': np.zeros((6,6), dtype=float),
+            'density': 0.
+            }
+
         if not self.is_soec_output(file):
             self.error = "'{}' does not appear to be a VASP output\n".format(
                 file)
@@ -45,19 +45,31 @@ class VASPSOECReader(BasicReader):
         with open(file, 'r') as f:
             data = f.readlines()
 
+        # Rows of the matrix must be complete
+        rows = [line.split()[1:] for line in data[sline:sline+6]]
+        if [len(row) for row in rows] != [6]*6:
+            self.error = 'The SOEC matrix is incomplete\n'
+            self.error += 'Please, check the OUTCAR file'
+            return
+
         for i in range(6):
-            line = data[i+sline].split()
             for j in range(6):
                 try:
-                    self._data['stiffness'][i, j] = float(line[j+1]) / 10.
+                    self._data['stiffness'][i, j] = float(rows[i][j]) / 10.
                 except ValueError:
                     self.error = 'Problem in collecting the SOEC matrix '
                     self.error += 'element {} {}\n'.format(i+1, j+1)
                     self.error += 'Please, check the OUTCAR file'
                     return
 
-        self._data['stiffness'][[3, 5]] = self._data['stiffness'][[5, 3]]
-        self._data['stiffness'][:, [3, 5]] = self._data['stiffness'][:, [5, 3]]
+        if not np.all(np.isfinite(self._data['stiffness'])):
+            self.error = 'The SOEC matrix contains invalid numbers\n'
+            self.error += 'Please, check the OUTCAR file'
+            return
+
+        # VASP order is XX, YY, ZZ, XY, YZ, ZX
+        order = [0, 1, 2, 4, 5, 3]
+        self._data['stiffness'] = self._data['stiffness'][order][:, order]
 
         self.completed = True
         return
@@ -133,8 +145,7 @@ class VASPSOECReader(BasicReader):
                 if soec_relaxed in line:
                     relaxed = True
                     relaxed_line = counter + 3
-                else:
-                    counter += 1
+                counter += 1
         if relaxed:
             return relaxed_line
         else:
-- 
2.43.0


From 3ad165b76996c2c37218ef1feae251f5754dfdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 29/61] fix: report incomplete or damaged phonopy outputs

---
 quantas/interfaces/phonopy.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 30d130e..8da5bfd 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -78,6 +78,19 @@ class PhonopyReader(BasicReader):
             'weights': {},
             'shrinkf': np.ones(3, dtype=int)
             }
+        try:
+            self._load(file)
+        except UnicodeDecodeError:
+            raise
+        except (TypeError, ValueError, LookupError, AttributeError,
+                ET.ParseError):
+            self.error = "The phonopy output '{}', or the files related to "
+            self.error += 'it,\nare incomplete or damaged'
+            self.error = self.error.format(file)
+        return
+
+    def _load(self, file):
+        """ Collect the data from the phonopy output files. """
         #
         # Check if the 'phonopy_disp.yaml' exists
         #
@@ -168,7 +181,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def volume(self):
-        return np.linalg.det(self._data['unitcell']['lattice'])
+        return abs(np.linalg.det(self._data['unitcell']['lattice']))
 
     @property
     def energy(self):
@@ -176,7 +189,7 @@ class PhonopyReader(BasicReader):
 
     @property
     def kpoints(self):
-        return int(np.around(np.linalg.det(self._data['expansion']), 0))
+        return abs(int(np.around(np.linalg.det(self._data['expansion']), 0)))
 
     @property
     def qpoints(self):
@@ -209,8 +222,10 @@ class PhonopyReader(BasicReader):
         with open(file, 'r') as stream:
             try:
                 idata = yaml.safe_load(stream)
-            except yaml.YAMLError as exception:
+            except yaml.YAMLError as exc:
                 error = True
+                exception = 'Error in parsing YAML file {}:\n{}'.format(
+                    file, exc)
             return error, exception, idata
 
     def set_displacements(self, idata):
@@ -251,6 +266,9 @@ class PhonopyReader(BasicReader):
         nf = 3 * idata['natom']
         nq = idata['nqpoint']
 
+        if len(idata['phonon']) != nq:
+            raise ValueError('wrong number of q-points')
+
         self._data['nphonon'] = nf
         self._data['qpoints'] = nq
 
@@ -258,6 +276,8 @@ class PhonopyReader(BasicReader):
             qdata = idata['phonon'][i]
             self._data['qcoords'][i] = qdata['q-position']
             self._data['weights'][i] = qdata['weight']
+            if len(qdata['band']) != nf:
+                raise ValueError('wrong number of bands')
             band = np.zeros(nf, dtype=float)
             for j in range(nf):
                 band[j] = cf(qdata['band'][j]['frequency'], 'THz', 'cm^-1')
-- 
2.43.0


From 9e93b4e5ddd729a1bb03e723ad21b94283423bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 30/61] fix: refuse lists given as number of atoms or q-points

---
 quantas/IO/qha_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 282fc20..4652953 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -101,6 +101,7 @@ class QHAInputFileReader(BasicReader):
     def _check_values(self):
         """ Check the consistency of type and number of the input values. """
         for keyword in ('natom', 'qpoints'):
+            self._check_array(keyword, self._data[keyword], ())
             value = np.float64(self._data[keyword])
             if value < 1. or value != np.floor(value):
                 raise ValueError(
-- 
2.43.0


From 003514735fce4bbca3f412f36b4e9fbe4997129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 31/61] fix: numeric or blank job descriptions made SOEC inputs
 unreadable

---
 quantas/IO/soec_writer.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/soec_writer.py b/quantas/IO/soec_writer.py
index b06fdf1..ffe8383 100644
--- a/quantas/IO/soec_writer.py
+++ b/quantas/IO/soec_writer.py
@@ -53,6 +53,18 @@ class SOECInputCreator(object):
 
         return True, None
 
+    @staticmethod
+    def get_title(jobname):
+        """
+        Return a title line that can not be confused with the matrix rows.
+        """
+        title = jobname.strip()
+        try:
+            [float(value) for value in title.split()]
+        except ValueError:
+            return title
+        return 'Job {}'.format(title) if title else 'Unknown'
+
     def write(self, outfile, jobname='Unknown'):
         """
         Crate the SOEC input for Quantas using the collected results from
@@ -69,7 +81,7 @@ class SOECInputCreator(object):
 
         """
         data = []
-        data.append(jobname)
+        data.append(self.get_title(jobname))
         for i in range(6):
             soec_line = ''
             for j in range(6):
-- 
2.43.0


From ac6c07a286ac5eba9e76c6278b35de47af584a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 32/61] fix: folders named as the phonopy companion files are
 not read

---
 quantas/interfaces/phonopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 8da5bfd..95e04a1 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -95,7 +95,7 @@ class PhonopyReader(BasicReader):
         # Check if the 'phonopy_disp.yaml' exists
         #
         dispfile = os.path.splitext(file)[0] + '_disp.yaml'
-        if not os.path.exists(dispfile):
+        if not os.path.isfile(dispfile):
             self.error = 'Phonopy displacement file (phonopy_disp.yaml) not '
             self.error += 'available!\n'
             self.error += 'Will now exit\n'
@@ -104,7 +104,7 @@ class PhonopyReader(BasicReader):
         # Check if the VASP xml ouput exists
         #
         vasprun = os.path.splitext(file)[0] + '.xml'
-        if os.path.exists(vasprun):
+        if os.path.isfile(vasprun):
             root = ET.parse(vasprun).getroot()
             energy_results = root.findall('calculation/energy/i')
             for energy_elem in energy_results:
-- 
2.43.0


From 4a7c69b47b3d1172ae642459cfb1e5632b86b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 33/61] fix: refuse degenerate cells in CRYSTAL and phonopy
 outputs

---
 quantas/interfaces/crystal.py | 6 +++---
 quantas/interfaces/phonopy.py | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 679b4f9..763e13a 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -91,7 +91,7 @@ class CrystalPhononReader(BasicReader):
             self._load(file)
         except UnicodeDecodeError:
             raise
-        except (TypeError, ValueError, LookupError):
+        except (TypeError, ValueError, LookupError, ArithmeticError):
             self.error = incomplete_output.format(file)
         return
 
@@ -135,7 +135,7 @@ class CrystalPhononReader(BasicReader):
         if self.energy == 0.:
             self.error = 'No unit cell energy in {0}'.format(file)
             return
-        if not np.any(self.lattice):
+        if not self.volume > 0.:
             self.error = 'No unit cell lattice in {0}'.format(file)
             return
         if not bool(self.phonons):
@@ -835,7 +835,7 @@ class CrystalQHAReader(BasicReader):
             self._load(file)
         except UnicodeDecodeError:
             raise
-        except (TypeError, ValueError, LookupError):
+        except (TypeError, ValueError, LookupError, ArithmeticError):
             self.error = incomplete_output.format(file)
         return
 
diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index 95e04a1..b9cbabf 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -130,6 +130,11 @@ class PhonopyReader(BasicReader):
 
         self.set_phonons(idata)
 
+        if np.shape(self.lattice) != (3, 3) or not self.volume > 0. or \
+           np.shape(self.dim) != (3, 3) or \
+           not np.all(np.isfinite(list(self.phonons.values()))):
+            raise ValueError('wrong lattice, supercell or frequencies')
+
         self.completed = True
         return
 
-- 
2.43.0


From 8b15c11fa76b633f2b6a9a4b46cbdd0147a816b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 34/61] fix: selecting the EoS order and modifying parameters
 with current NumPy

np.int and np.float no longer exist.
---
 quantas/eosfit/utils/interactive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantas/eosfit/utils/interactive.py b/quantas/eosfit/utils/interactive.py
index 0d41299..394c589 100644
--- a/quantas/eosfit/utils/interactive.py
+++ b/quantas/eosfit/utils/interactive.py
@@ -183,8 +183,8 @@ def set_eos_order(eos_key, default=2):
     if default not in choices:
         default = choices[0]
     echo('EOS ORDER')
-    selection = np.int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
-                       default=default))
+    selection = int(choose('Select the order of the EoS', EOS_ORDERS[eos_key],
+                           default=default))
     echo('')
     return selection
 
@@ -314,8 +314,8 @@ def set_parameters(parameters, labels):
     echo('')
     if confirm('Would you like to modify any of the EoS parameters?'):
         for i in range(len(parameters)):
-            parameters[i] = np.float(prompt("  {: <8}".format(
-                labels[i]), np.round(parameters[i], 5)))
+            parameters[i] = float(prompt("  {: <8}".format(
+                labels[i]), float(np.round(parameters[i], 5))))
     echo('')
     return parameters
 
-- 
2.43.0


From a6bfb844c6305212f0ab0e5b25720248288ec129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 35/61] fix: eosfit -o names the log file

---
 quantas/eosfit/commands/cmd_eosfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 5b248f3..8ef4da9 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -53,7 +53,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     if isinstance(outfile, type(None)):
         logfile = outbase + '.log'
     else:
-        logfile += '.log'
+        logfile = outfile + '.log'
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
-- 
2.43.0


From e5a322741a375a603ffe1072e78e48cf85660085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 36/61] fix: the eosfit session goes on after a fit that can
 not be done

ODRPACK leaves its output undefined (or absent) when it refuses a problem,
e.g. no free parameters, more parameters than data or values that are not
finite: report the reasons instead of failing or printing unset memory.  Data
that do not allow the initial estimate no longer end the session with a
traceback, and a single data point is refused.
---
 quantas/eosfit/eosfit.py | 42 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/quantas/eosfit/eosfit.py b/quantas/eosfit/eosfit.py
index 2297145..f1dfc0c 100644
--- a/quantas/eosfit/eosfit.py
+++ b/quantas/eosfit/eosfit.py
@@ -85,6 +85,10 @@ class EoSFitCalculator(BasicCalculator):
             error = 'No structural data provided in input file'
             return error
 
+        if data.pressure.size < 2:
+            error = 'At least two data points are needed for fitting'
+            return error
+
         self.input = data
         return
 
@@ -162,7 +166,7 @@ class EoSFitCalculator(BasicCalculator):
                 change_eos = False
 
                 if do_init_guess:
-                    guess = eos.guess(values, self.input.pressure)
+                    guess = self.guess(eos, values)
                     do_init_guess = False
 
                 while not change_eos:
@@ -203,6 +207,31 @@ class EoSFitCalculator(BasicCalculator):
         self.completed = True    
         return
 
+    def guess(self, eos, values):
+        """
+        This method estimates the initial parameters of an equation of state.
+
+        Parameters
+        ----------
+        eos: cls
+            Selected equation of state.
+        values: ndarray
+            Array of the selected data.
+
+        Returns
+        -------
+        list
+            List of the estimated parameters. They are not numbers if the
+            data do not allow the estimate.
+
+        """
+        try:
+            return eos.guess(values, self.input.pressure)
+        except np.linalg.LinAlgError:
+            self.echo_warning('The initial values of the parameters can not be '
+                              'estimated from the data')
+            return [np.nan] * 4
+
     def report_fit(self, results, values, value_name, eos_name, eos_order,
                    weights, fix, labels):
         """
@@ -238,6 +267,17 @@ class EoSFitCalculator(BasicCalculator):
             self.echo('Results not weighted for for {}'.format(value_name))
         self.echo('')
 
+        if not hasattr(results, 'eps') or results.info >= 10000:
+            # ODR gives up without results (e.g., not enough data, no free
+            # parameters or values that are not finite)
+            self.echo_warning('The fitting procedure failed because:')
+            for i in range(len(results.stopreason)):
+                self.echo_warning('  {}. {}'.format(i+1, results.stopreason[i]))
+            self.echo('')
+            self.echo('{}{:-^78}{}'.format('#','','#'))
+            self.echo('')
+            return
+
         self.echo('Fitting parameters:')
         for i in range(len(results.beta)):
             res_row = '  {0:6} = {1: 10.5f} +/- {2: 10.5f}'.format(
-- 
2.43.0


From a339b68236b84465e682dbc3f14af0697934c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 37/61] fix: commands never overwrite their input files

The log of ha, qha, soec and eosfit, the results and the generated inputs may
have had the name of an input file, which was truncated.  A folder given as
output ended in a traceback.
---
 quantas/IO/qha_writer.py                |  8 ++-
 quantas/cmdline/utils/general.py        | 66 +++++++++++++++++++++++++
 quantas/eosfit/commands/cmd_eosfit.py   |  8 +++
 quantas/harmonic/commands/cmd_ha.py     |  8 +++
 quantas/harmonic/commands/cmd_inpgen.py |  7 +++
 quantas/qha/commands/cmd_qha.py         |  8 +++
 quantas/soec/commands/cmd_inpgen.py     |  7 +++
 quantas/soec/commands/cmd_soec.py       | 12 +++++
 8 files changed, 123 insertions(+), 1 deletion(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index b247ef8..6dbe915 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -38,6 +38,7 @@ class QHAInputCreator(object):
         """
         """
         self.phondata = []
+        self.files = []
         self.interface_flag = interface
         return
 
@@ -54,7 +55,12 @@ class QHAInputCreator(object):
             file_list = self.get_files_from_list(filename)
         else:
             file_list = [filename]
-            
+
+        # Files read by the interfaces, including those of displacements
+        self.files = [filename] + file_list
+        self.files += [os.path.splitext(file)[0] + '_disp.yaml'
+                       for file in file_list]
+
         for file in file_list:
 
             if not os.path.isfile(file):
diff --git a/quantas/cmdline/utils/general.py b/quantas/cmdline/utils/general.py
index 816bc37..f555a9d 100644
--- a/quantas/cmdline/utils/general.py
+++ b/quantas/cmdline/utils/general.py
@@ -8,6 +8,7 @@
 # For further information on the license, see the LICENSE file               #
 ##############################################################################
 
+import os
 import click
 import difflib
 
@@ -15,6 +16,7 @@ from .messages import quantas_title
 from .messages import quantas_error
 from .messages import echo_highlight
 from .messages import echo_error
+from .messages import confirm
 
 
 class MostSimilarCommandGroup(click.Group):
@@ -72,6 +74,70 @@ def check_range(ctx, param, value):
     return value
 
 
+def check_outputs(inputs, outputs):
+    """
+    Check that the output files can be written without destroying any of the
+    input files.
+
+    Parameters
+    ----------
+
+    inputs: list
+        Paths to the input files.
+
+    outputs: list
+        Paths to the output files.
+
+    Returns
+    -------
+
+    str or None
+        Description of the error, if any.
+    """
+    for outfile in outputs:
+        if os.path.isdir(outfile):
+            return "Output file '{}' is a folder".format(outfile)
+        if not os.path.isdir(os.path.dirname(outfile) or '.'):
+            return "The folder of output file '{}' does not exist".format(
+                outfile)
+        for infile in inputs:
+            if os.path.exists(infile) and os.path.exists(outfile) and \
+                    os.path.samefile(infile, outfile):
+                return "Output file '{}' would overwrite an input file".format(
+                    outfile)
+    return None
+
+
+def select_outfile(outfile, infile):
+    """
+    Select the file where the exported data will be written. The user has to
+    agree in order to overwrite an existing file.
+
+    Parameters
+    ----------
+
+    outfile: str
+        Default path to the output file.
+
+    infile: str
+        Path to the input file, which is never overwritten.
+
+    Returns
+    -------
+
+    str
+        Path to the selected output file.
+    """
+    while True:
+        error = check_outputs([infile], [outfile])
+        if error is not None:
+            echo_error(error)
+        elif not os.path.exists(outfile) or confirm(
+                "File '{}' exists. Overwrite it?".format(outfile)):
+            return outfile
+        outfile = click.prompt('Please, enter a file name')
+
+
 def print_version(ctx, param, value):
     """ Check the context and print Quantas version. """
     if not value or ctx.resilient_parsing:
diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 8ef4da9..31ebd5f 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -54,6 +55,13 @@ def eos_calculation(filename, outfile, punit, vunit):
         logfile = outbase + '.log'
     else:
         logfile = outfile + '.log'
+
+    error = check_outputs([filename], [logfile])
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile)
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index 6229928..f072cc9 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.general import check_range
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
@@ -74,6 +75,13 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+
+    error = check_outputs([filename], [outfile, logfile])
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/harmonic/commands/cmd_inpgen.py b/quantas/harmonic/commands/cmd_inpgen.py
index 7547251..e550f29 100644
--- a/quantas/harmonic/commands/cmd_inpgen.py
+++ b/quantas/harmonic/commands/cmd_inpgen.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -89,6 +90,12 @@ def ha_inpgen(filename, outfile, is_list, ref, interface):
         echo_error(error)
         return
 
+    error = check_outputs(generator.files, [outfile])
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     if interface != 'crystal-qha':
         if not 0 <= ref < len(generator.phondata):
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index fd0f45a..3b1716e 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.general import check_range
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
@@ -120,6 +121,13 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+
+    error = check_outputs([filename], [outfile, logfile])
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
diff --git a/quantas/soec/commands/cmd_inpgen.py b/quantas/soec/commands/cmd_inpgen.py
index d6bac18..fed3211 100644
--- a/quantas/soec/commands/cmd_inpgen.py
+++ b/quantas/soec/commands/cmd_inpgen.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -84,6 +85,12 @@ def soec_inpgen(filename, outfile, interface):
         echo_error(error)
         return
 
+    error = check_outputs([filename], [outfile])
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     echo("Preparing the input file for Quantas: '{}'".format(outfile))
     msg = '\nPlease, enter a short description for the input file: '
     jobname = prompt(msg, default='Unknown', show_default=False)
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index 26982f4..a6c804e 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -15,6 +15,7 @@ import sys
 import click
 import numpy as np
 
+from quantas.cmdline.utils.general import check_outputs
 from quantas.cmdline.utils.messages import quantas_title
 from quantas.cmdline.utils.messages import quantas_warning
 from quantas.cmdline.utils.messages import quantas_error
@@ -64,6 +65,17 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     else:
         outfile += '.hdf5'
     logfile = os.path.splitext(outfile)[0] + '.txt'
+
+    outputs = [outfile, logfile]
+    if plot:
+        outputs += ['{}_{}.png'.format(os.path.splitext(outfile)[0], prop)
+                    for prop in ['E', 'LC', 'G', 'Nu', 'waves']]
+    error = check_outputs([filename], outputs)
+    if not isinstance(error, type(None)):
+        echo_error(quantas_error(), bold=True)
+        echo_error(error)
+        return
+
     init_logfile(logfile)
 
     echo_highlight(quantas_title(), logfile, silent=silent)
-- 
2.43.0


From 32136f4624e0d76e943a5e32d70913476f350a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 38/61] fix: exported tables overwrite existing files only when
 the user agrees

The name entered after a refusal was not checked.
---
 quantas/harmonic/utils/export.py | 8 +++-----
 quantas/qha/utils/export.py      | 8 +++-----
 quantas/soec/utils/export.py     | 8 +++-----
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 7017dcb..4e140b8 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -11,6 +11,7 @@
 import h5py
 import os
 import click
+from quantas.cmdline.utils.general import select_outfile
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import confirm
 
@@ -32,6 +33,7 @@ class QuantasHarmonicExport(object):
     def load(self, filename):
         '''
         '''
+        self.filename = filename
         self.basename = os.path.splitext(filename)[0]
         with h5py.File(filename, 'r') as f:
             try:
@@ -72,11 +74,7 @@ class QuantasHarmonicExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
-                if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+            outfile = select_outfile(outfile, self.filename)
 
             tabled_data = QHATableFile()
             tabled_data.write(
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index d383a46..584fdbe 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -11,6 +11,7 @@
 import h5py
 import os
 import click
+from quantas.cmdline.utils.general import select_outfile
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import confirm
 
@@ -32,6 +33,7 @@ class QuantasQHAExport(object):
     def load(self, filename):
         """
         """
+        self.filename = filename
         self.basename = os.path.splitext(filename)[0]
         with h5py.File(filename, 'r') as f:
             try:
@@ -72,11 +74,7 @@ class QuantasQHAExport(object):
                 show_choices=True)
             outfile = self.basename + '_' + selection + '.dat'
 
-            if os.path.exists(outfile):
-                if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+            outfile = select_outfile(outfile, self.filename)
 
             tabled_data = QHATableFile()
             tabled_data.write(
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 0d4498a..751857f 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -12,6 +12,7 @@ import h5py
 import os
 import click
 import numpy as np
+from quantas.cmdline.utils.general import select_outfile
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import confirm
 
@@ -31,6 +32,7 @@ class QuantasSOECExport(object):
     def load(self, filename):
         """
         """
+        self.filename = filename
         self.basename = os.path.splitext(filename)[0]
         with h5py.File(filename, 'r') as f:
             try:
@@ -80,11 +82,7 @@ class QuantasSOECExport(object):
                     else:
                         data = np.hstack((data, self.data[key]['values'][:,1:]))
 
-            if os.path.exists(outfile):
-                if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+            outfile = select_outfile(outfile, self.filename)
 
             tabled_data = SOECTableFile()
             tabled_data.write(outfile, degree, data, selection, unit)
-- 
2.43.0


From 56cd435e10f358dedc3efc3d952901630c72f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 39/61] fix: every result of HA and SOEC files can be exported

Results that depend only on the volume crashed the export of tables, and SOEC
files held (and exported) tables of zeros for properties that were not
calculated.  The job was missing from SOEC files, and files that are not HDF5
ended in a traceback.  Each exporter holds its own data.
---
 quantas/harmonic/utils/export.py | 19 ++++++++++++++-----
 quantas/qha/utils/export.py      | 14 ++++++++++----
 quantas/soec/soec.py             | 32 ++++++--------------------------
 quantas/soec/utils/export.py     | 20 +++++++++++++++-----
 4 files changed, 45 insertions(+), 40 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index 4e140b8..ea1ba01 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -11,6 +11,7 @@
 import h5py
 import os
 import click
+import numpy as np
 from quantas.cmdline.utils.general import select_outfile
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import confirm
@@ -21,13 +22,13 @@ from .table import QHATableFile
 class QuantasHarmonicExport(object):
     '''
     '''
-    x = {}
-    y = {}
-    data = {}
     error = None
 
     def __init__(self):
         ''' Constructor method '''
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
@@ -35,7 +36,13 @@ class QuantasHarmonicExport(object):
         '''
         self.filename = filename
         self.basename = os.path.splitext(filename)[0]
-        with h5py.File(filename, 'r') as f:
+        try:
+            f = h5py.File(filename, 'r')
+        except OSError:
+            self.error = 'This does not appear to be a Quantas output file'
+            return
+
+        with f:
             try:
                 self.info = f.attrs['info']
             except KeyError:
@@ -81,7 +88,9 @@ class QuantasHarmonicExport(object):
                 outfile,
                 self.x['values'], 'T', self.x['unit'],
                 self.y['values'], 'V', self.y['unit'],
-                self.data[selection]['values'],
+                # Some results depend only on the volume
+                np.broadcast_to(self.data[selection]['values'],
+                                (len(self.x['values']), len(self.y['values']))),
                 selection,
                 self.data[selection]['unit'],
                 )
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index 584fdbe..c72915a 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -21,13 +21,13 @@ from .table import QHATableFile
 class QuantasQHAExport(object):
     """
     """
-    x = {}
-    y = {}
-    data = {}
     error = None
 
     def __init__(self):
         """ Constructor method """
+        self.x = {}
+        self.y = {}
+        self.data = {}
         return
 
     def load(self, filename):
@@ -35,7 +35,13 @@ class QuantasQHAExport(object):
         """
         self.filename = filename
         self.basename = os.path.splitext(filename)[0]
-        with h5py.File(filename, 'r') as f:
+        try:
+            f = h5py.File(filename, 'r')
+        except OSError:
+            self.error = 'This does not appear to be a Quantas output file'
+            return
+
+        with f:
             try:
                 self.info = f.attrs['info']
             except KeyError:
diff --git a/quantas/soec/soec.py b/quantas/soec/soec.py
index 1f028d3..c4509e0 100644
--- a/quantas/soec/soec.py
+++ b/quantas/soec/soec.py
@@ -143,29 +143,7 @@ class SOECCalculator(BasicCalculator):
         results_dict = {
             'avgs': None,
             'eigv': None,
-            'polar': {
-                'xy': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'xz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    },
-                'yz': {
-                    'E': np.zeros((1, 2)),
-                    'LC': np.zeros((1, 3)),
-                    'G': np.zeros((1, 3)),
-                    'Nu': np.zeros((1, 4)),
-                    'waves': np.zeros((1, 4)),
-                    }
-                },
+            'polar': {},
             }
         return results_dict
 
@@ -555,12 +533,14 @@ class SOECCalculator(BasicCalculator):
         info = '''
 This file was created with Quantas.
 
+Job: {0}
+
 It contains the results of the analysis of the second-order elastic constants
 (SOECs) matrix in Voigt's notation, performed with the following settings:
-  - pressure scale:    {0}
-  - density: {1}
+  - pressure scale:    {1}
+  - density: {2}
 
-'''.format(self._punit, 'kg m^-3')
+'''.format(self._job, self._punit, 'kg m^-3')
         with h5py.File(filename, 'w') as f:
             f.attrs['info'] = info
             dset = f.create_dataset('stiffness', data=self.soec.stiffness)
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 751857f..708dafa 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -22,11 +22,11 @@ from .table import SOECTableFile
 class QuantasSOECExport(object):
     """
     """
-    data = {}
     error = None
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
@@ -34,7 +34,13 @@ class QuantasSOECExport(object):
         """
         self.filename = filename
         self.basename = os.path.splitext(filename)[0]
-        with h5py.File(filename, 'r') as f:
+        try:
+            f = h5py.File(filename, 'r')
+        except OSError:
+            self.error = 'This does not appear to be a Quantas output file'
+            return
+
+        with f:
             try:
                 self.info = f.attrs['info']
             except KeyError:
@@ -48,16 +54,20 @@ class QuantasSOECExport(object):
                 self.error += ' file'
                 return
 
-            self.keys = ['E', 'LC', 'G', 'Nu']
+            self.keys = []
             for key in f.keys():
                 if not 'polar_' in key:
                     continue
                 else:
-                    if 'waves' in key and not 'waves' in self.keys:
-                        self.keys.append('waves')
+                    if key.split('_')[1] not in self.keys:
+                        self.keys.append(key.split('_')[1])
                     self.data[key] = {}
                     self.data[key]['values'] = f[key][:]
                     self.data[key]['unit'] = f[key].attrs['unit']
+
+            if len(self.keys) == 0:
+                self.error = 'No elastic properties on the (xy), (xz) and (yz)'
+                self.error += ' planes (--polar option) in this file'
         return
 
     def run(self):
-- 
2.43.0


From 40a364782eda5d6177b899ea51dbaeece2649400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 40/61] fix: unknown datasets and attributes of result files
 are reported

QuantasHDF5Reader and QuantasHDF5Export compared the error description with a
boolean, so that unknown names ended in a KeyError; results that depend only on
the volume could not be exported.
---
 quantas/IO/hdf5_export.py | 24 +++++++++++++++++++-----
 quantas/IO/hdf5_reader.py |  8 ++++----
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/quantas/IO/hdf5_export.py b/quantas/IO/hdf5_export.py
index 5677555..4d1d6c9 100644
--- a/quantas/IO/hdf5_export.py
+++ b/quantas/IO/hdf5_export.py
@@ -17,6 +17,7 @@ different file formats.
 """
 
 import os
+import numpy as np
 from quantas.IO.hdf5_reader import QuantasHDF5Reader
 
 
@@ -42,7 +43,7 @@ class QuantasHDF5Export(object):
             elif var.lower() == 'quit':
                 stop = True
                 continue
-            elif not self._reader.has_data(var):
+            elif self._reader.has_data(var) != True:
                 print('Error: {}'.format(self._reader.has_data(var)))
                 continue
             else:
@@ -67,11 +68,17 @@ class QuantasHDF5Export(object):
         self._outbase = os.path.splitext(self._hdf5file)[0]
         #
         self._reader = QuantasHDF5Reader(self._hdf5file)
-        self._reader.read()
+        try:
+            self._reader.read()
+        except (OSError, KeyError):
+            error = 'The selected file does not appear as a Quantas output'
+            return error
         if 'This file was created with Quantas.' not in self._reader.info:
             error = 'The selected file does not appear as a Quantas output'
             return error
         self.get_file_data()
+        if isinstance(self._type, type(None)):
+            error = 'The selected file does not contain (Q)HA results'
         return error
 
     def report_input_data(self):
@@ -79,6 +86,7 @@ class QuantasHDF5Export(object):
         return
 
     def get_file_data(self):
+        self._type = None
         if '(HA)' in self._reader.info:
             self._type = 'ha'
             self._x1 = 'T'
@@ -96,15 +104,21 @@ class QuantasHDF5Export(object):
         if tmpfile != '':
             outfile = tmpfile
         if self._type == 'qha' or self._type == 'ha':
+            x = self._reader.get_data(self._x1)
+            y = self._reader.get_data(self._x2)
+            z = self._reader.get_data(varname)
+            if varname == self._x1:
+                z = z.reshape(-1, 1)
             data = QHATableFile(
                 outfile,
-                self._reader.get_data(self._x1),
+                x,
                 self._reader.get_attribute(self._x1, 'desc'),
                 self._reader.get_attribute(self._x1, 'unit'),
-                self._reader.get_data(self._x2),
+                y,
                 self._reader.get_attribute(self._x2, 'desc'),
                 self._reader.get_attribute(self._x2, 'unit'),
-                self._reader.get_data(varname),
+                # Some HA results depend only on the volume
+                np.broadcast_to(z, (len(x), len(y))),
                 self._reader.get_attribute(varname, 'desc'),
                 self._reader.get_attribute(varname, 'unit'),
                 self._reader.get_attribute(varname, 'desc')
diff --git a/quantas/IO/hdf5_reader.py b/quantas/IO/hdf5_reader.py
index b77784b..4f73653 100644
--- a/quantas/IO/hdf5_reader.py
+++ b/quantas/IO/hdf5_reader.py
@@ -55,7 +55,7 @@ class QuantasHDF5Reader(object):
             try:
                 with h5py.File(self.settings['input'],'r') as f:
                     return f[key][:,column]
-            except ValueError:
+            except (ValueError, IndexError):
                 return 'Index {0} not available'.format(column)
 
     def get_data_row(self, key, row):
@@ -65,13 +65,13 @@ class QuantasHDF5Reader(object):
             try:
                 with h5py.File(self.settings['input'],'r') as f:
                     return f[key][row]
-            except ValueError:
+            except (ValueError, IndexError):
                 return 'Index {0} not available'.format(row)
 
     def get_attribute(self, key, attribute):
-        if not self.__has_dataset(key):
+        if self.__has_dataset(key) != True:
             return self.__has_dataset(key)
-        elif not self.__has_attribute(key, attribute):
+        elif self.__has_attribute(key, attribute) != True:
             return self.__has_attribute(key, attribute)
         else:
             with h5py.File(self.settings['input'], 'r') as f:
-- 
2.43.0


From b7fc822c6b5c98e2e7ce4b04cd13a91c61e5c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 41/61] fix: seismic exporter and calculator keep their own
 data, never overwrite unasked

---
 quantas/seismic/seismic.py      |  3 +--
 quantas/seismic/utils/export.py | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/quantas/seismic/seismic.py b/quantas/seismic/seismic.py
index 4ef9055..072c7ba 100644
--- a/quantas/seismic/seismic.py
+++ b/quantas/seismic/seismic.py
@@ -67,11 +67,10 @@ class SeismicCalculator(BasicCalculator):
 
     """
 
-    _plotting = Flag()
-
     def __init__(self, settings):
         """ Constructor for the Seismic calculator """
         BasicCalculator.__init__(self)
+        self._plotting = Flag()
         self.silent = settings['silent']
         self.debug = settings['debug']
         self.log = settings['logfile']
diff --git a/quantas/seismic/utils/export.py b/quantas/seismic/utils/export.py
index 69329a2..e5c3a18 100644
--- a/quantas/seismic/utils/export.py
+++ b/quantas/seismic/utils/export.py
@@ -12,6 +12,7 @@ import h5py
 import os
 import click
 import numpy as np
+from quantas.cmdline.utils.general import select_outfile
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import confirm
 
@@ -25,19 +26,26 @@ dl += '{: >9.5f} {: >8.3f} {: >9.5f} {: >9.5f} {: >9.5f} {: >9.4f} {: >9.4f}\n'
 class QuantasSeismicExport(object):
     """
     """
-    data = {}
     error = None
 
     def __init__(self):
         """ Constructor method """
+        self.data = {}
         return
 
     def load(self, filename):
         """
 
         """
+        self.filename = filename
         self.basename = os.path.splitext(filename)[0]
-        with h5py.File(filename, 'r') as f:
+        try:
+            f = h5py.File(filename, 'r')
+        except OSError:
+            self.error = 'This does not appear to be a Quantas output file'
+            return
+
+        with f:
             try:
                 self.info = f.attrs['info']
             except KeyError:
@@ -74,11 +82,7 @@ class QuantasSeismicExport(object):
                 if selection in key:
                     data = self.data[key]['values']
 
-            if os.path.exists(outfile):
-                if confirm("File '{}' exists. Overwrite it?".format(outfile)):
-                    pass
-                else:
-                    outfile = click.prompt('Please, enter a file name')
+            outfile = select_outfile(outfile, self.filename)
 
             self.new_info = self.info.splitlines()
             self.new_info[9] = 'This file contains the following dataset:'
-- 
2.43.0


From 44487b5a733dca020f64104ba8cf25cd1ef2b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 42/61] fix: entropy of the Kieffer model, low temperature
 limits

The first addendum of the entropy had the denominator of the heat capacity and
the integral stopped before the end of the range, so that S was wrong by far at
every temperature; below some K the heat capacity was not a number.
---
 quantas/qha/utils/kieffer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/quantas/qha/utils/kieffer.py b/quantas/qha/utils/kieffer.py
index c4c38fe..1e5097c 100644
--- a/quantas/qha/utils/kieffer.py
+++ b/quantas/qha/utils/kieffer.py
@@ -97,7 +97,8 @@ class Kieffer(object):
         if temperature == 0.:
             return 0.
         wmin = 1.e-6
-        wmax = xnti/temperature
+        # nothing is left of the integrand beyond 50 k_B T
+        wmax = min(xnti/temperature, 50.)
         function  = lambda x: helmholtz_function(x, temperature, xnti)
         integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
         factor = 3 * temperature * NA * kb * np.power(2./np.pi, 3.)
@@ -158,7 +159,8 @@ class Kieffer(object):
         if temperature == 0.:
             return 0.
         wmin = 1.e-6
-        wmax = xnti/temperature
+        # nothing is left of the integrand beyond 50 k_B T
+        wmax = min(xnti/temperature, 50.)
         function  = lambda x: heat_capacity_function(x, temperature, xnti)
         integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
 
@@ -211,7 +213,7 @@ class Kieffer(object):
             # Calculate the first addendum
             num = np.power(np.arcsin(x/xi), 2.) *x
             den = np.power((np.power(xi, 2.) - np.power(x, 2.)), 0.5)
-            den *= np.power(np.exp(x) - 1., 2.)
+            den *= np.exp(x) - 1.
             first_term = num / den
 
             # Calculate the second addendum
@@ -225,9 +227,10 @@ class Kieffer(object):
         if temperature == 0.:
             return 0.
         wmin = 1.e-6
-        wmax = xnti/temperature
+        # nothing is left of the integrand beyond 50 k_B T
+        wmax = min(xnti/temperature, 50.)
         function  = lambda x: entropy_function(x, temperature, xnti)
-        integral, err = quad(function, wmin, 0.999*wmax, epsrel=self.cutoff)
+        integral, err = quad(function, wmin, wmax, epsrel=self.cutoff)
 
         return integral * 3 * NA * kb * np.power(2./np.pi, 3.)
 
-- 
2.43.0


From 366c4a06e45e0ea901f2335f089caf43feae3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 43/61] fix: qha -a reports missing acoustic frequencies
 instead of crashing

---
 quantas/qha/qha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 1183b5e..1f4954a 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -263,7 +263,7 @@ class QHACalculator(BasicCalculator):
         ndarray(dtype=float, ndim=2)
             Array containing the acoustic frequency values at each volume.
         """
-        return self.input.acoustic_kieffer
+        return getattr(self.input, 'acoustic_kieffer', None)
 
     @property
     def pressure(self):
-- 
2.43.0


From 78d51cf08c4420366ab8dbd1821f27b4f369722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 44/61] fix: cofactor() returns the matrix, interpolate() takes
 scalars for all shapes

---
 quantas/utils/math/fast_math.pyx  | 2 +-
 quantas/utils/math/polynomials.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantas/utils/math/fast_math.pyx b/quantas/utils/math/fast_math.pyx
index 8c259f3..38034d9 100644
--- a/quantas/utils/math/fast_math.pyx
+++ b/quantas/utils/math/fast_math.pyx
@@ -129,5 +129,5 @@ cpdef cofactor(double[:,::1] mat):
     c[2][0] = m[0][1]*m[1][2] - m[0][2]*m[1][1]
     c[2][1] = m[0][2]*m[1][0] - m[0][0]*m[1][2]
     c[2][2] = m[0][0]*m[1][1] - m[0][1]*m[1][0]
-    return
+    return cof
 
diff --git a/quantas/utils/math/polynomials.py b/quantas/utils/math/polynomials.py
index 7c6071e..2d19e77 100644
--- a/quantas/utils/math/polynomials.py
+++ b/quantas/utils/math/polynomials.py
@@ -48,8 +48,7 @@ def interpolate(X, pars):
     elif len(pars.shape) == 2:
         values = multi_interpolate(X, pars)
     elif len(pars.shape) == 3:
-        values = np.zeros( (pars.shape[0], pars.shape[1], X.shape[0]),
-                           dtype = np.float64)
+        values = np.zeros(pars.shape[:2] + np.shape(X), dtype=np.float64)
         for i in range(pars.shape[0]):
             values[i] = multi_interpolate(X, pars[i])
     return values
-- 
2.43.0


From 4349de9c88ae3bc4393e6e2f3ff2577eaa07457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 45/61] fix: azimuth of Cartesian and group directions, label
 of the enhancement factor

The angle was measured from y towards x, so that theta, phi and the vector of a
direction did not agree; the saved enhancement factor is not its logarithm.
---
 quantas/seismic/seismic.py           | 2 +-
 quantas/seismic/utils/seismic_obj.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantas/seismic/seismic.py b/quantas/seismic/seismic.py
index 072c7ba..9dd0df5 100644
--- a/quantas/seismic/seismic.py
+++ b/quantas/seismic/seismic.py
@@ -280,7 +280,7 @@ Each dataset contains the following results (measurement unit):
   - Column 9     : Relative group velocity (%)
   - Columns 10-12: x, y, and z coordinates of the ray surface
   - Column 13    : Powerflow angle (degree)
-  - Column 14    : Enhancement factor (log_10A)
+  - Column 14    : Enhancement factor
 """.format(self._punit, 'kg m^-3')
         with h5py.File(filename, 'w') as f:
             f.attrs['info'] = info
diff --git a/quantas/seismic/utils/seismic_obj.py b/quantas/seismic/utils/seismic_obj.py
index 6f444dc..36d7cc5 100644
--- a/quantas/seismic/utils/seismic_obj.py
+++ b/quantas/seismic/utils/seismic_obj.py
@@ -434,7 +434,7 @@ class Seismic(object):
         x = self.direction[0]
         y = self.direction[1]
         z = self.direction[2]
-        self.phi = np.arctan2(x, y)
+        self.phi = np.arctan2(y, x)
         self.theta = np.arctan2(np.sqrt(y ** 2 + x ** 2), z)
 
         # Set the new Christoffel matrix
@@ -553,7 +553,7 @@ class Seismic(object):
             x = gdir[i][0]
             y = gdir[i][1]
             z = gdir[i][2]
-            gphi[i] = np.arctan2(x, y)
+            gphi[i] = np.arctan2(y, x)
             gtheta[i] = np.arctan2(np.sqrt(y**2 + x**2), z)
 
         # Calculate the powerflow angle
-- 
2.43.0


From 63ff1e9d07dfa84df2c05b64491b05b40ac153f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 46/61] fix: inpgen never overwrites the vasprun.xml files it
 reads

---
 quantas/IO/qha_writer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 6dbe915..7351958 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -56,10 +56,12 @@ class QHAInputCreator(object):
         else:
             file_list = [filename]
 
-        # Files read by the interfaces, including those of displacements
+        # Files read by the interfaces, including those of displacements and
+        # the VASP runs
         self.files = [filename] + file_list
-        self.files += [os.path.splitext(file)[0] + '_disp.yaml'
-                       for file in file_list]
+        self.files += [os.path.splitext(file)[0] + suffix
+                       for file in file_list
+                       for suffix in ('_disp.yaml', '.xml')]
 
         for file in file_list:
 
-- 
2.43.0


From 2a6c2a3bd56afd6644ce93217053e4589948b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 47/61] fix: texts that begin with a digit and logical values
 are not numbers in (Q)HA inputs

---
 quantas/IO/qha_reader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 4652953..1b085bf 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -144,6 +144,9 @@ class QHAInputFileReader(BasicReader):
     def _check_array(label, item, shape):
         """ Check if an item is an array of finite numbers. """
         value = np.asarray(item, dtype=np.float64)
+        if any(isinstance(x, bool) for x in
+               np.ravel(np.asarray(item, dtype=object))):
+            raise ValueError('invalid numbers in {}'.format(label))
         if value.shape != shape:
             raise ValueError('wrong number of values in {}'.format(label))
         if not np.all(np.isfinite(value)):
@@ -152,10 +155,14 @@ class QHAInputFileReader(BasicReader):
 
     @staticmethod
     def _get_float(item):
+        if isinstance(item, bool) or \
+           (isinstance(item, list) and any(isinstance(x, bool) for x in item)):
+            raise ValueError('{} is not a number'.format(item))
         try:
             return np.float64(item)
         except ValueError:
-            return np.array(item[0].split(), dtype=np.float64)
+            text = item if isinstance(item, str) else item[0]
+            return np.array(text.split(), dtype=np.float64)
 
     def _get_array(self, item):
         return np.atleast_1d(self._get_float(item))
@@ -165,7 +172,8 @@ class QHAInputFileReader(BasicReader):
         try:
             return np.int64(item)
         except ValueError:
-            return np.array(item[0].split(), dtype=np.int64)
+            text = item if isinstance(item, str) else item[0]
+            return np.array(text.split(), dtype=np.int64)
 
     @staticmethod
     def _get_string(item):
-- 
2.43.0


From 24a7b28cba041fc4fae1812670d949dcedb23d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 48/61] fix: refuse EoS data that are not finite numbers

---
 quantas/IO/eos_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantas/IO/eos_reader.py b/quantas/IO/eos_reader.py
index de2964c..8db3270 100644
--- a/quantas/IO/eos_reader.py
+++ b/quantas/IO/eos_reader.py
@@ -303,6 +303,11 @@ class EoSInputFileReader(BasicReader):
             self.error = 'No data found after the DATA keyword'
             return idx
 
+        if not all(np.all(np.isfinite(data[quantity]))
+                   for quantity in self._format):
+            self.error = 'Invalid numbers found after the DATA keyword'
+            return idx
+
         for quantity in self._format:
             self._data[quantity] = np.asarray(data[quantity])
         return idx
-- 
2.43.0


From f668e61b06c86c01ba92890cd735d4397dc00cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 49/61] fix: null characters in the description of a SOEC input
 ended in a traceback

---
 quantas/IO/soec_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/soec_reader.py b/quantas/IO/soec_reader.py
index 48b9054..3877949 100644
--- a/quantas/IO/soec_reader.py
+++ b/quantas/IO/soec_reader.py
@@ -112,7 +112,7 @@ class SOECInputFileReader(BasicReader):
         start = 0
         if not (self.is_number(line.split()[0]) and
                 all(self.is_number(value) for value in line.split())):
-            job = line.rstrip()
+            job = line.replace('\x00', '').rstrip()
             start = 1
 
         # Collect the SOEC matrix...
-- 
2.43.0


From df377e2c1f00651d4082ed3085fb2df81ec445e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 50/61] fix: inpgen refuses outputs whose energy, cell or
 q-points are not numbers

---
 quantas/IO/qha_writer.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 7351958..32d8e14 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -76,6 +76,9 @@ class QHAInputCreator(object):
             if not data.completed:
                 return False, data.error
 
+            if not self.check_values(data):
+                return False, 'File {} is incomplete or damaged'.format(file)
+
             if self.interface_flag == 'crystal-qha':
                 self.phondata = data
             else:
@@ -103,6 +106,21 @@ class QHAInputCreator(object):
             files = f.readlines()
         return [file.strip() for file in files if file.strip()]
 
+    @staticmethod
+    def check_values(data):
+        """
+        Check that the values to be written are numbers.
+        """
+        items = [data.energy, data.volume, data.dim, data.shrinkf]
+        items += [data.qcoords[i] for i in range(data.qpoints)]
+        items += [data.weights[i] for i in range(data.qpoints)]
+        for item in items:
+            values = np.asarray(item)
+            if values.dtype.kind not in 'iuf' or \
+               not np.all(np.isfinite(values)):
+                return False
+        return np.array_equal(data.dim, np.around(data.dim))
+
     def check_consistency(self, data):
         """
         Check that the data were obtained on the same system and at the same
-- 
2.43.0


From 58585c8bed26b6843eb47f35af07cce1bea31633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 51/61] fix: export reports result files that are damaged or
 hold no results

---
 quantas/harmonic/utils/export.py | 28 +++++++++++++++++++++-----
 quantas/qha/utils/export.py      | 29 ++++++++++++++++++++++-----
 quantas/soec/utils/export.py     | 34 +++++++++++++++++++++++++-------
 3 files changed, 74 insertions(+), 17 deletions(-)

diff --git a/quantas/harmonic/utils/export.py b/quantas/harmonic/utils/export.py
index ea1ba01..356e3db 100644
--- a/quantas/harmonic/utils/export.py
+++ b/quantas/harmonic/utils/export.py
@@ -58,16 +58,34 @@ class QuantasHarmonicExport(object):
                 self.error = 'This does not appear to be a Quantas HA output '
                 self.error += 'file'
                 return
+            except (TypeError, ValueError, AttributeError):
+                self.error = 'The Quantas output file is damaged'
+                return
 
             self.keys = []
+            shape = self.x['values'].shape + self.y['values'].shape
+            if len(shape) != 2 or 0 in shape:
+                self.error = 'The Quantas output file is damaged'
+                return
+
             for key in f.keys():
                 if key == 'T' or key == 'V':
                     continue
-                else:
-                    self.keys.append(key)
-                    self.data[key] = {}
-                    self.data[key]['values'] = f[key][:]
-                    self.data[key]['unit'] = f[key].attrs['unit']
+                try:
+                    values = f[key][:]
+                    unit = f[key].attrs['unit']
+                    # Some results depend only on one of the variables
+                    np.broadcast_to(values.astype(np.float64), shape)
+                except (KeyError, TypeError, ValueError, AttributeError):
+                    self.error = "Data '{}' of the Quantas output file are "
+                    self.error += 'damaged'
+                    self.error = self.error.format(key)
+                    return
+                self.keys.append(key)
+                self.data[key] = {'values': values, 'unit': unit}
+
+            if len(self.keys) == 0:
+                self.error = 'No results in the Quantas output file'
         return
 
     def run(self):
diff --git a/quantas/qha/utils/export.py b/quantas/qha/utils/export.py
index c72915a..324e0ba 100644
--- a/quantas/qha/utils/export.py
+++ b/quantas/qha/utils/export.py
@@ -11,6 +11,7 @@
 import h5py
 import os
 import click
+import numpy as np
 from quantas.cmdline.utils.general import select_outfile
 from quantas.cmdline.utils.messages import echo
 from quantas.cmdline.utils.messages import confirm
@@ -57,16 +58,34 @@ class QuantasQHAExport(object):
                 self.error = 'This does not appear to be a Quantas HA output '
                 self.error += 'file'
                 return
+            except (TypeError, ValueError, AttributeError):
+                self.error = 'The Quantas output file is damaged'
+                return
 
             self.keys = []
+            shape = self.x['values'].shape + self.y['values'].shape
+            if len(shape) != 2 or 0 in shape:
+                self.error = 'The Quantas output file is damaged'
+                return
+
             for key in f.keys():
                 if key == 'T' or key == 'P':
                     continue
-                else:
-                    self.keys.append(key)
-                    self.data[key] = {}
-                    self.data[key]['values'] = f[key][:]
-                    self.data[key]['unit'] = f[key].attrs['unit']
+                try:
+                    values = f[key][:]
+                    unit = f[key].attrs['unit']
+                    # Some results depend only on one of the variables
+                    np.broadcast_to(values.astype(np.float64), shape)
+                except (KeyError, TypeError, ValueError, AttributeError):
+                    self.error = "Data '{}' of the Quantas output file are "
+                    self.error += 'damaged'
+                    self.error = self.error.format(key)
+                    return
+                self.keys.append(key)
+                self.data[key] = {'values': values, 'unit': unit}
+
+            if len(self.keys) == 0:
+                self.error = 'No results in the Quantas output file'
         return
 
     def run(self):
diff --git a/quantas/soec/utils/export.py b/quantas/soec/utils/export.py
index 708dafa..d007192 100644
--- a/quantas/soec/utils/export.py
+++ b/quantas/soec/utils/export.py
@@ -49,7 +49,7 @@ class QuantasSOECExport(object):
 
             try:
                 f['stiffness'][:]
-            except KeyError:
+            except (KeyError, TypeError, ValueError, AttributeError):
                 self.error = 'This does not appear to be a Quantas SOEC output'
                 self.error += ' file'
                 return
@@ -58,12 +58,32 @@ class QuantasSOECExport(object):
             for key in f.keys():
                 if not 'polar_' in key:
                     continue
-                else:
-                    if key.split('_')[1] not in self.keys:
-                        self.keys.append(key.split('_')[1])
-                    self.data[key] = {}
-                    self.data[key]['values'] = f[key][:]
-                    self.data[key]['unit'] = f[key].attrs['unit']
+                try:
+                    values = f[key][:].astype(np.float64)
+                    unit = f[key].attrs['unit']
+                    name = key.split('_')[1]
+                except (KeyError, TypeError, ValueError, AttributeError,
+                        IndexError):
+                    self.error = "Data '{}' of the Quantas output file are "
+                    self.error += 'damaged'
+                    self.error = self.error.format(key)
+                    return
+                if name not in self.keys:
+                    self.keys.append(name)
+                self.data[key] = {'values': values, 'unit': unit}
+
+            # Each property is tabled on the three planes
+            for name in self.keys:
+                shapes = [
+                    self.data['polar_{}_{}'.format(name, plane)]['values'].shape
+                    if 'polar_{}_{}'.format(name, plane) in self.data else None
+                    for plane in ['xy', 'xz', 'yz']]
+                if None in shapes or len(set(shapes)) != 1 or \
+                   len(shapes[0]) != 2:
+                    self.error = "Data of '{}' on the (xy), (xz) and (yz) "
+                    self.error += 'planes are incomplete'
+                    self.error = self.error.format(name)
+                    return
 
             if len(self.keys) == 0:
                 self.error = 'No elastic properties on the (xy), (xz) and (yz)'
-- 
2.43.0


From 68989c198665844fcfc2c9b67402170d622b3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 52/61] fix: a list of (Q)HA values with a text of several
 numbers among its items is refused

---
 quantas/IO/qha_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 1b085bf..6ae00e7 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -161,6 +161,8 @@ class QHAInputFileReader(BasicReader):
         try:
             return np.float64(item)
         except ValueError:
+            if isinstance(item, list) and len(item) > 1:
+                raise
             text = item if isinstance(item, str) else item[0]
             return np.array(text.split(), dtype=np.float64)
 
@@ -172,6 +174,8 @@ class QHAInputFileReader(BasicReader):
         try:
             return np.int64(item)
         except ValueError:
+            if isinstance(item, list) and len(item) > 1:
+                raise
             text = item if isinstance(item, str) else item[0]
             return np.array(text.split(), dtype=np.int64)
 
-- 
2.43.0


From 4b96bed8c6c79a088721478f7aa94c86eadad2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 53/61] fix: inpgen refuses q-points that do not have three
 coordinates

---
 quantas/IO/qha_writer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantas/IO/qha_writer.py b/quantas/IO/qha_writer.py
index 32d8e14..67be835 100644
--- a/quantas/IO/qha_writer.py
+++ b/quantas/IO/qha_writer.py
@@ -112,13 +112,18 @@ class QHAInputCreator(object):
         Check that the values to be written are numbers.
         """
         items = [data.energy, data.volume, data.dim, data.shrinkf]
-        items += [data.qcoords[i] for i in range(data.qpoints)]
+        qcoords = [data.qcoords[i] for i in range(data.qpoints)]
         items += [data.weights[i] for i in range(data.qpoints)]
-        for item in items:
-            values = np.asarray(item)
+        for item in items + qcoords:
+            try:
+                values = np.asarray(item)
+            except ValueError:
+                return False
             if values.dtype.kind not in 'iuf' or \
                not np.all(np.isfinite(values)):
                 return False
+        if any(np.shape(item) != (3,) for item in qcoords):
+            return False
         return np.array_equal(data.dim, np.around(data.dim))
 
     def check_consistency(self, data):
-- 
2.43.0


From 1540160d0993dcb4487ddd737bf4d92b4e501ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 54/61] fix: the log file reports that reading the input ended
 in an error

---
 quantas/eosfit/commands/cmd_eosfit.py   | 2 +-
 quantas/harmonic/commands/cmd_ha.py     | 2 +-
 quantas/qha/commands/cmd_qha.py         | 2 +-
 quantas/seismic/commands/cmd_seismic.py | 4 ++--
 quantas/soec/commands/cmd_soec.py       | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/eosfit/commands/cmd_eosfit.py b/quantas/eosfit/commands/cmd_eosfit.py
index 31ebd5f..819969a 100644
--- a/quantas/eosfit/commands/cmd_eosfit.py
+++ b/quantas/eosfit/commands/cmd_eosfit.py
@@ -84,7 +84,7 @@ def eos_calculation(filename, outfile, punit, vunit):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/harmonic/commands/cmd_ha.py b/quantas/harmonic/commands/cmd_ha.py
index f072cc9..225640a 100644
--- a/quantas/harmonic/commands/cmd_ha.py
+++ b/quantas/harmonic/commands/cmd_ha.py
@@ -109,7 +109,7 @@ def ha_calculation(filename, outfile, temperature, eunit, vunit, funit, tunit, s
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/qha/commands/cmd_qha.py b/quantas/qha/commands/cmd_qha.py
index 3b1716e..ee41a8a 100644
--- a/quantas/qha/commands/cmd_qha.py
+++ b/quantas/qha/commands/cmd_qha.py
@@ -163,7 +163,7 @@ def qha_calculation(filename, outfile, qha_scheme, minimization, kieffer,
 
     error = calculator.read_input(filename)
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
diff --git a/quantas/seismic/commands/cmd_seismic.py b/quantas/seismic/commands/cmd_seismic.py
index f0bd5ca..4e8cb68 100644
--- a/quantas/seismic/commands/cmd_seismic.py
+++ b/quantas/seismic/commands/cmd_seismic.py
@@ -112,7 +112,7 @@ def seismic_calculation(filename, outfile, ntheta, nphi, punit, plot, no_2d,
     if only_plot:
         error = calculator.plot(filename)
         if not isinstance(error, type(None)):
-            echo_error(quantas_error(), bold=True)
+            echo_error(quantas_error(), logfile, bold=True)
             echo_error(error, logfile)
             return
 
@@ -120,7 +120,7 @@ def seismic_calculation(filename, outfile, ntheta, nphi, punit, plot, no_2d,
         error = calculator.read_input(filename)
 
         if not isinstance(error, type(None)):
-            echo_error(quantas_error(), bold=True)
+            echo_error(quantas_error(), logfile, bold=True)
             echo_error(error, logfile)
             return
 
diff --git a/quantas/soec/commands/cmd_soec.py b/quantas/soec/commands/cmd_soec.py
index a6c804e..756f90e 100644
--- a/quantas/soec/commands/cmd_soec.py
+++ b/quantas/soec/commands/cmd_soec.py
@@ -103,7 +103,7 @@ def soec_calculation(filename, outfile, punit, polar, plot, dpi, silent, debug):
     error = calculator.read_input(filename)
 
     if not isinstance(error, type(None)):
-        echo_error(quantas_error(), bold=True)
+        echo_error(quantas_error(), logfile, bold=True)
         echo_error(error, logfile)
         return
 
-- 
2.43.0


From fe0ae2044b76e73cb8715f6e68e422068029ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 55/61] fix: uncertainties of the printed EoS parameters refer
 to the digits shown

---
 quantas/qha/qha.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 1f4954a..9ca088a 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -414,15 +414,17 @@ class QHACalculator(BasicCalculator):
                         magnitude = int(magnitude)
                     red_err = err*np.power(10., magnitude)
                     if np.log10(int(np.round(red_err,0))) >= 1.:
-                        magnitude -= 1
+                        magnitude = max(magnitude - 1, 0)
                         red_err = err*np.power(10., magnitude)
                     if magnitude > 0:
-                        red_val = np.round(val, magnitude)
+                        # Keep the trailing zeros, the uncertainty refers to
+                        # the last digits.
+                        red_val = '{:.{}f}'.format(val, magnitude)
                     else:
                         red_val = int(np.round(val, magnitude))
                     red_err = int(np.round(red_err,0))
                     self.echo('{} = {}({})'.format(label, red_val, red_err))
-                except OverflowError:
+                except (OverflowError, ValueError):
                     self.echo('{} = {}({})'.format(label, val, err))
         self.echo('')
         # Check if Kieffer's approach was requested, even in the case of
-- 
2.43.0


From 53a1c6e22cd21a61e8fbb64f7c75f6962d267a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 56/61] fix: a negative volume is not the equilibrium volume of
 the free energy polynomial

---
 quantas/qha/qha.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantas/qha/qha.py b/quantas/qha/qha.py
index 9ca088a..5127359 100644
--- a/quantas/qha/qha.py
+++ b/quantas/qha/qha.py
@@ -1067,6 +1067,7 @@ class QHACalculator(BasicCalculator):
                 parameters = polyfit(volume, free_energy, self._edeg)
             pressure = self.set_target_pressure(pressure)
             minima = find_polynomial_minimum(parameters, pressure)
+            minima = minima[minima > 0.]
             if len(minima) == 0:
                 raise MinimizationError(
                     'No minimum of the free energy polynomial')
-- 
2.43.0


From c8a8307988858348acb8e796be2d7eb6e037b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 57/61] fix: polar plots of linear compressibility and
 Poisson's ratio show their negative values too

---
 quantas/soec/utils/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantas/soec/utils/plotting.py b/quantas/soec/utils/plotting.py
index c10e6f9..0f8a151 100644
--- a/quantas/soec/utils/plotting.py
+++ b/quantas/soec/utils/plotting.py
@@ -135,17 +135,17 @@ def compressibility_polar_plot(xy, xz, yz):
     fig, ax1, ax2, ax3 = make_polar_figure()
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 1]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 1]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 1]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Positive", "Negative"), fontsize=12)
@@ -230,19 +230,19 @@ def poisson_polar_plot(xy, xz, yz):
     ax1.plot(np.radians(xy[:, 0]), xy[:, 1], "--", color='blue', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 2], color='#009010', lw=2)
     ax1.plot(np.radians(xy[:, 0]), xy[:, 3], color='red', lw=2)
-    ax1.set_rmax(1.1 * np.max(xy[:, 3]))
+    ax1.set_rmax(1.1 * np.max(xy[:, 1:]))
     add_description(ax1, title + " (xy)")
 
     ax2.plot(np.radians(xz[:, 0]), xz[:, 1], "--", color='blue', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 2], color='#009010', lw=2)
     ax2.plot(np.radians(xz[:, 0]), xz[:, 3], color='red', lw=2)
-    ax2.set_rmax(1.1 * np.max(xz[:, 3]))
+    ax2.set_rmax(1.1 * np.max(xz[:, 1:]))
     add_description(ax2, title + " (xz)")
 
     ax3.plot(np.radians(yz[:, 0]), yz[:, 1], "--", color='blue', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 2], color='#009010', lw=2)
     ax3.plot(np.radians(yz[:, 0]), yz[:, 3], color='red', lw=2)
-    ax3.set_rmax(1.1 * np.max(yz[:, 3]))
+    ax3.set_rmax(1.1 * np.max(yz[:, 1:]))
     add_description(ax3, title + " (yz)")
 
     fig.legend(("Negative", "Minimum", "Maximum"), fontsize=12)
-- 
2.43.0


From 0a1603e2251dc217f6b71818d34062d8a2908a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 58/61] fix: exported Poisson's ratio columns are labelled with
 what they hold

---
 quantas/soec/utils/table.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantas/soec/utils/table.py b/quantas/soec/utils/table.py
index 0e0ce89..5540842 100644
--- a/quantas/soec/utils/table.py
+++ b/quantas/soec/utils/table.py
@@ -83,9 +83,9 @@ class SOECTableFile():
             '(yz)': ['minimum', 'maximum'],
             }},
         'Nu': {'desc': "Poisson's ratio", 'label': {
-            '(xy)': ['negative', 'positive', 'measurement'],
-            '(xz)': ['negative', 'positive', 'measurement'],
-            '(yz)': ['negative', 'positive', 'measurement'],
+            '(xy)': ['negative', 'minimum', 'maximum'],
+            '(xz)': ['negative', 'minimum', 'maximum'],
+            '(yz)': ['negative', 'minimum', 'maximum'],
             }},
         'waves': {'desc': 'Seismic wave velocities', 'label': {
             '(xy)': ['v_s1', 'vs_2', 'v_l'],
-- 
2.43.0


From a1c93d2b494eb077c522b625286de718be8e3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 59/61] fix: phonopy outputs of nobelium are not refused

---
 quantas/interfaces/phonopy.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/quantas/interfaces/phonopy.py b/quantas/interfaces/phonopy.py
index b9cbabf..8a3c762 100644
--- a/quantas/interfaces/phonopy.py
+++ b/quantas/interfaces/phonopy.py
@@ -22,6 +22,16 @@ from quantas.utils.physics.units import convert_frequency as cf
 h = cs.Planck
 eV = cs.value(u'electron volt')
 
+class PhonopyLoader(yaml.SafeLoader):
+    """
+    YAML loader without booleans, since 'No' is the symbol of nobelium.
+    """
+    yaml_implicit_resolvers = {
+        key: [item for item in items if item[0] != 'tag:yaml.org,2002:bool']
+        for key, items in yaml.SafeLoader.yaml_implicit_resolvers.items()
+        }
+
+
 class PhonopyReader(BasicReader):
     """
     This class reads and stores phonon properties of crystals obtained
@@ -226,7 +236,7 @@ class PhonopyReader(BasicReader):
         exception = None
         with open(file, 'r') as stream:
             try:
-                idata = yaml.safe_load(stream)
+                idata = yaml.load(stream, Loader=PhonopyLoader)
             except yaml.YAMLError as exc:
                 error = True
                 exception = 'Error in parsing YAML file {}:\n{}'.format(
-- 
2.43.0


From f0a5aeecb46f979b755c9219bb48635ffb4b578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 60/61] fix: count the k-points of a supercell whichever the
 handedness of its matrix

---
 quantas/IO/qha_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/IO/qha_reader.py b/quantas/IO/qha_reader.py
index 6ae00e7..fed0528 100644
--- a/quantas/IO/qha_reader.py
+++ b/quantas/IO/qha_reader.py
@@ -201,7 +201,7 @@ class QHAInputFileReader(BasicReader):
     @property
     def kpoints(self):
         supercell = np.array(self._data['supercell'], dtype=np.float64)
-        return int(np.around(np.linalg.det(supercell),0))
+        return abs(int(np.around(np.linalg.det(supercell),0)))
 
     @property
     def qpoints(self):
-- 
2.43.0


From b1c1af560ce24e379aa06b6cd5500644b621ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 61/61] fix: read all the volumes of a CRYSTAL QHA output, also
 more than one hundred

---
 quantas/interfaces/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantas/interfaces/crystal.py b/quantas/interfaces/crystal.py
index 763e13a..1e630a5 100644
--- a/quantas/interfaces/crystal.py
+++ b/quantas/interfaces/crystal.py
@@ -1177,7 +1177,7 @@ class CrystalQHAReader(BasicReader):
             data = f.readlines()
 
         points = 0
-        for i in range(sline, sline+100):
+        for i in range(sline, len(data)):
             if len(data[i].split()) != 2:
                 break
             else:
-- 
2.43.0

