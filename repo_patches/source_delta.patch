From adac09c6770cb3aec7e10fefdb043799ddfc6556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 01/22] fix: bivariate_slice used the same shift coefficients
 for both chiralities and never terminated

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 40161ad..8c89eb5 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -75,7 +75,7 @@ class Particles_Slices:
             ys2 = sympy.symbols(f'y2_1:{len(self) + 1}')
             for i, oP in enumerate(self):
                 oP.r_sp_d = oP.r_sp_d + t1 * xs1[i] * oPShift1.r_sp_d + t2 * xs2[i] * oPShift2.r_sp_d
-                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * xs2[i] * oPShift2.l_sp_d
+                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * ys2[i] * oPShift2.l_sp_d
 
             equations = [sympy.poly(entry.expand(), modulus=self.field.characteristic ** self.field.digits) for entry in self.total_mom.flatten().tolist()]
             equations += [sympy.poly(self(constraint).expand(), modulus=self.field.characteristic ** self.field.digits) for constraint in extra_constraints]
-- 
2.43.0


From 00b3692215bc8630d29353361004eb0501b3f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 02/22] fix: unseeded slices crashed when the solver had to be
 retried

---
 lips/particles_slices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 8c89eb5..2f87c9a 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -43,7 +43,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':  # ring-agnostic algorithm, less efficient: ⟨ij⟩ is quadratic in t
@@ -89,7 +89,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':
-- 
2.43.0


From a657b5a83424d178bc8ca4568202949315115741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 03/22] fix: do not share the caller's internal mass container,
 draw masses in a reproducible order

---
 lips/particles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 2e6bf26..183e2be 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -65,8 +65,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             for internal_mass, value in internal_masses.items():
                 self.__setattr__(internal_mass, value)
         elif isinstance(internal_masses, (list, tuple, set)) and all(isinstance(internal_mass, str) for internal_mass in internal_masses):
-            self.internal_masses = internal_masses
-            for internal_mass in internal_masses:
+            self.internal_masses = set(internal_masses)
+            for internal_mass in sorted(self.internal_masses):
                 self.__setattr__(internal_mass, self.field.random())
         elif internal_masses is None:
             self.internal_masses = set()
-- 
2.43.0


From e1b2ef7f39f7d01991f77fb2c1f4718ed942f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 04/22] fix: phase space points of different multiplicity are
 not equal

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 183e2be..1ed8c87 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -89,7 +89,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def __eq__(self, other):
         """Checks equality of each particle in particles."""
         if isinstance(other, Particles):
-            return all(self[i] == other[i] for i in range(1, len(self) + 1))
+            return len(self) == len(other) and all(self[i] == other[i] for i in range(1, len(self) + 1))
         else:
             return False
 
-- 
2.43.0


From bbb9cff0bc09232c87d96fc5ef6a94583b056605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:17 +0000
Subject: [PATCH 05/22] fix: image of a phase space point in which two legs
 have equal momenta

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 1ed8c87..df59d1d 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -146,7 +146,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if type(permutation_or_rule) is str:
             if not permutation_or_rule.isdigit():
                 raise ValueError(f"Permutation to map phase space points should be a string of integers, got: {permutation_or_rule}.")
-            oResParticles = copy.deepcopy(Particles(sorted(self, key=lambda x: permutation_or_rule[self.index(x)]),
+            oResParticles = copy.deepcopy(Particles([self[i + 1] for i in sorted(range(len(self)), key=lambda i: permutation_or_rule[i])],
                                                     field=self.field, fix_mom_cons=False, internal_masses=self.internal_masses_dict))
             oResParticles.__dict__ = copy.deepcopy(self.__dict__)
             return oResParticles
-- 
2.43.0


From e1a03bc9bbc61423bf6b0bbb5bb640d43cf62b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 06/22] fix: copy of a phase space point with ten or more legs
 permuted the legs

---
 lips/particles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index df59d1d..0e58c21 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -158,8 +158,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             return oResParticles
 
     def copy(self):
-        from .symmetries import identity
-        return self.image(identity(len(self)))
+        return copy.deepcopy(self)
 
     def cluster(self, llIntegers, massive_fermions=None):
         """Returns clustered particle objects according to lists of lists of integers (e.g. corners of one loop diagram).
-- 
2.43.0


From 86920e414fa3cdc9ad31064d3b68deb35e0c0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 07/22] fix: clustering a point must not share kinematics with
 the original

---
 lips/particle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lips/particle.py b/lips/particle.py
index e513018..d5d1549 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -64,6 +64,12 @@ class Particle(object):
         else:
             return False
 
+    def __copy__(self):
+        """Copies do not share the kinematics, as arrays may be modified in place."""
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update({key: val.copy() if isinstance(val, numpy.ndarray) else val for key, val in self.__dict__.items()})
+        return new
+
     def __neg__(self):
         minus_self = Particle(field=self.field)
         minus_self.r2_sp = -1 * self.r2_sp
-- 
2.43.0


From 322d972159c1141a2b1d924b4b3f614960ab7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:42 +0000
Subject: [PATCH 08/22] fix: FurtherRestrict4Brackets=False subscripted a map
 iterator

---
 lips/invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index b208a10..b004885 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -454,7 +454,7 @@ def Purge4Brackets(n, invs_4, FurtherRestrict4Brackets):
         if minimal is False:
             continue
         bc = [entry.split("+") for entry in bc]
-        bc = [map(int, entry) for entry in bc]
+        bc = [list(map(int, entry)) for entry in bc]
         if FurtherRestrict4Brackets is False:                                   # check if it is neighbouring
             near = [a, a + 1, a - 1]
             if a == n:
-- 
2.43.0


From 20de6bb4a342b818189340dd8f773232b7d88c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:43 +0000
Subject: [PATCH 09/22] fix: invariants cache served or stored lists generated
 with other options

---
 lips/invariants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index b004885..a5cd082 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -27,7 +27,8 @@ class Invariants(object):
 
         self.multiplicity = n
 
-        if no_cached is False and self.pw_invariants is not None and Restrict3Brackets is True and Restrict4Brackets is True:
+        if (no_cached is False and no_hard_coded_ones is False and self.pw_invariants is not None and
+           Restrict3Brackets is True and Restrict4Brackets is True and FurtherRestrict4Brackets is True):
             try:
                 # Read From Cache
                 with shelve.open(self.pw_invariants, 'r') as sInvariants:
-- 
2.43.0


From 0413caf58bc9ba37a5bc64b38dbb26f194c21a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:07 +0000
Subject: [PATCH 10/22] fix: a crash or a race while the invariants cache is
 written left it unusable for good

---
 lips/invariants.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index a5cd082..a37c126 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -13,7 +13,8 @@ import os
 import re
 import itertools
 import shelve
-import dbm
+import tempfile
+import contextlib
 
 pA2 = re.compile(r'^(?:⟨)([0-9])(?:\|)([0-9])(?:⟩)$')
 pNB = re.compile(r'^(?:⟨|\[)(?P<start>\d)(?:\|)(?P<middle>(?:(?:\([\d[\+|-]{1,}]{,1}\))|(?:[\d[\+|-]{1,}]{,1}))*)(?:\|)(?P<end>\d)(?:⟩|\])$')
@@ -47,11 +48,11 @@ class Invariants(object):
                     else:
                         raise Exception("Missing piece - regenerate invariants.")
 
-            except dbm.error[0]:
+            except Exception:  # missing or unusable cache, e.g. left incomplete by a crash
                 if verbose:
                     print("Regenerating from scratch")
                 # Generate Them & Write To Cache
-                with shelve.open(self.pw_invariants, 'c') as sInvariants:
+                with self._new_cache() as sInvariants:
                     self.GenerateFromScratch(n, no_hard_coded_ones,
                                              Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
                     sInvariants[str("invs_2")] = self.invs_2
@@ -120,13 +121,22 @@ class Invariants(object):
         home = os.path.expanduser("~")
         pw_cache = home + "/.cache/lips/n={}".format(self.multiplicity)
         if not os.path.exists(pw_cache):
-            os.makedirs(pw_cache)
+            os.makedirs(pw_cache, exist_ok=True)
         return pw_cache
 
     @property
     def pw_invariants(self):
         return self.pw_cache + "/invariants"
 
+    @contextlib.contextmanager
+    def _new_cache(self):
+        """Opens an empty cache, which other processes can see only once it is complete."""
+        with tempfile.TemporaryDirectory(dir=self.pw_cache) as pw_temp:
+            with shelve.open(pw_temp + "/invariants", 'n') as sInvariants:
+                yield sInvariants
+            for file_name in sorted(os.listdir(pw_temp)):
+                os.replace(pw_temp + "/" + file_name, self.pw_cache + "/" + file_name)
+
 
 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ #
 
-- 
2.43.0


From 5ca78f6296ec7fffb3b72397a2c6a7707b54c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:42 +0000
Subject: [PATCH 11/22] fix: concurrent saves of phase space points could
 overwrite or mix each other's data

---
 lips/particles.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 0e58c21..daf2149 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -589,11 +589,16 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         PWD = os.getcwd()
         path = PWD + "/phase_space_cache/"
         if not os.path.exists(path):
-            os.makedirs(path)
+            os.makedirs(path, exist_ok=True)
         path += FileName
-        if os.path.exists(path):
+        try:
+            with open(path, "x") as oFile:  # never overwrite the first point, even if several processes are saving
+                oFile.write(self._r_sp_d_for_mathematica())
+                oFile.write(self._l_sp_d_for_mathematica())
+        except FileExistsError:
             FileName = FileName[:-2] + "2.m"
-        path = PWD + "/phase_space_cache/" + FileName
-        with open(path, "w") as oFile:
-            oFile.write(self._r_sp_d_for_mathematica())
-            oFile.write(self._l_sp_d_for_mathematica())
+            path = PWD + "/phase_space_cache/" + FileName
+            with open(f"{path}.{os.getpid()}", "w") as oFile:
+                oFile.write(self._r_sp_d_for_mathematica())
+                oFile.write(self._l_sp_d_for_mathematica())
+            os.replace(oFile.name, path)
-- 
2.43.0


From 5fa7e507ae03b3fba05b255d92c9ef35c612a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 12/22] fix: stray quotes in the spinors written by
 save_phase_space_point

---
 lips/particles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index daf2149..e8d441a 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -528,12 +528,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.r_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.r_sp_d[1, 0]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r'Subscript[\[Lambda], ' + str(i) + ',1] = ' + a + ";\n"
             msg += r'Subscript[\[Lambda], ' + str(i) + ',2] = ' + b + ";\n"
@@ -545,12 +545,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.l_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.l_sp_d[0, 1]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",1] = " + a + ";\n"
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",2] = " + b + ";\n"
-- 
2.43.0


From 82f858b2c7d1723b627bdc73822ce07a77e0c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:16 +0000
Subject: [PATCH 13/22] fix: seed ignored by the generic slice algorithm

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 2f87c9a..a81a36b 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -50,7 +50,7 @@ class Particles_Slices:
             multiplicity = len(self)
             I = LipsIdeal(multiplicity, extra_constraints)
             I.to_qring(I)
-            univariate_slice = I.ring.univariate_slice(self.field)
+            univariate_slice = I.ring.univariate_slice(self.field, seed=seed)
             update_particles(self, univariate_slice(t))
 
         else:
-- 
2.43.0


From e3e0a6de8fa5d4da8db183e283e018b680f3f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:01 +0000
Subject: [PATCH 14/22] fix: momenta without spinors in the asymmetric
 convention raised and left mixed spinors behind

---
 lips/particle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lips/particle.py b/lips/particle.py
index d5d1549..ffcd1be 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -391,6 +391,8 @@ class Particle(object):
         elif lips.spinor_convention == 'symmetric':
             lambda_one = self.field.sqrt(P0_plus_P3)
             lambda_two = P1_minus_iP2 / lambda_one
+        elif lips.spinor_convention == 'asymmetric' and not isinstance(P0_plus_P3, sympy.Basic) and abs(P0_plus_P3) <= self.field.tollerance:
+            raise ValueError("Encountered zero denominator in spinor.")
         elif lips.spinor_convention == 'asymmetric':
             lambda_one = self.field(1)
             lambda_two = P1_minus_iP2 / P0_plus_P3
-- 
2.43.0


From 5293c779f36459614bba163b27db52e0c1de8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:10 +0000
Subject: [PATCH 15/22] fix: spinor chains opened by an ASCII '<' were
 evaluated as if opened by '['

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 8875cfd..dc71919 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -79,7 +79,7 @@ class Particles_Compute:
         Available variables: ⟨a|b⟩, [a|b], ⟨a|b+c|d], ⟨a|b+c|d+e|f], ..., s_ijk, Δ_ijk, Ω_ijk, Π_ijk, tr5_ijkl"""
 
         # Consistency of string check is left to ast parser.
-        temp_string = rsubs_dict(original_temp_string, bold_digits)
+        temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩")
 
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
-- 
2.43.0


From c408b379a6c396c02b6fa677b82969c9076a032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:20 +0000
Subject: [PATCH 16/22] fix: composite expressions with leg labels of two
 digits raised AttributeError

The look-arounds that keep the open-index patterns away from already
substituted expressions only covered one-digit labels.
---
 lips/particles_eval.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 887104c..6a2ad80 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -28,11 +28,11 @@ operators = {ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul,
 
 pA2 = re.compile(r'(?:\u27e8)(\d+)(?:\|)(\d+)(?:\u27e9)')
 pA2bis = re.compile(r'(?:(?:\u27e8)(\d)(\d)(?:\u27e9))')
-pAu = re.compile(r'(?<!\(\')(?:⟨|<)(\d+)(?:\|)(?!\d[⟩|>])(?!\d[\+|-])(?!\(\d[\+|-])(?!\'\))')
-pAd = re.compile(r'(?<!\(\')(?<![⟨|<]\d)(?<![\+|-]\d\))(?<![\+|-]\d)(?:\|)(\d+)(?:⟩|>)(?!\'\))')
+pAu = re.compile(r'(?<!\(\')(?:⟨|<)(\d+)(?:\|)(?!\d+[⟩|>])(?!\d+[\+|-])(?!\(\d+[\+|-])(?!\'\))')
+pAd = re.compile(r'(?<!\(\')(?<![⟨|<]\d)(?<![⟨|<]\d\d)(?<![\+|-]\d\))(?<![\+|-]\d\d\))(?<![\+|-]\d)(?<![\+|-]\d\d)(?:\|)(\d+)(?:⟩|>)(?!\'\))')
 pS2 = re.compile(r'(?:\[)(\d+)(?:\|)(\d+)(?:\])')
-pSd = re.compile(r'(?<!\(\')(?:\[)(\d+)(?:\|)(?!\d\])(?!\d[\+|-])(?!\(\d[\+|-])(?!\'\))')
-pSu = re.compile(r'(?<!\(\')(?<!\[\d)(?<![\+|-]\d\))(?<![\+|-]\d)(?:\|)(\d+)(?:\])(?!\'\))')
+pSd = re.compile(r'(?<!\(\')(?:\[)(\d+)(?:\|)(?!\d+\])(?!\d+[\+|-])(?!\(\d+[\+|-])(?!\'\))')
+pSu = re.compile(r'(?<!\(\')(?<!\[\d)(?<!\[\d\d)(?<![\+|-]\d\))(?<![\+|-]\d\d\))(?<![\+|-]\d)(?<![\+|-]\d\d)(?:\|)(\d+)(?:\])(?!\'\))')
 pS2bis = re.compile(r'(?:\[)(\d)(\d)(?:\])')
 pSijk = re.compile(r'(?:s|S)(?:_){0,1}(\d+)')
 pMi = re.compile(r'(?:m|M)(?:_){0,1}(\d)')
@@ -46,7 +46,7 @@ pDijk_non_adjacent = re.compile(r'(?:Δ_(\d+(?:\|\d+)*))')
 pNB = re.compile(r'((?:<|⟨|\[)\d+\|(?:\(?(?:\d+[\+|-]?)+\)?\|?)+\|\d+(?:⟩|\]|>))')
 pNB_open_begin = re.compile(
     r'(?<!\(\')'  # negative lookbehind for already matched expression
-    r'(?<![\(\[⟨<]\d)(?<![\+|-]\d\))(?<![\+|-]\d)'  # negative lookbehind
+    r'(?<![\(\[⟨<]\d)(?<![\(\[⟨<]\d\d)(?<![\+|-]\d\))(?<![\+|-]\d\d\))(?<![\+|-]\d)(?<![\+|-]\d\d)'  # negative lookbehind
     r'(?<!_\d)(?<!_\d\d)(?<!_\d\d\d)(?<!_\d\d\d\d)'  # negative lookbehind for e.g. Δ_
     r'(\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|'  # capture
     r'\d+[⟩\]])'  # capture end
@@ -56,27 +56,27 @@ pNB_open_end = re.compile(
     r'(?<!\(\')'  # negative lookbehind for already matched expression
     r'([⟨<\[]\d+'  # capture beginning
     r'\|(?:(?:\([\d+|-]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
-    r'(?!\d[⟩>\]])(?!\d[\+|-])(?!\(\d[\+|-])'  # negative lookahead
+    r'(?!\d+[⟩>\]])(?!\d+[\+|-])(?!\(\d+[\+|-])'  # negative lookahead
     r'(?!\'\))'  # negative lookahead for already matched expression
 )
 pNB_double_open = re.compile(
     r'(?<!\(\')'  # negative lookbehind for already matched expression
     r'(?<!\'\[\d\|\'\)\]\]\)\)\[0:1, :\]@)'  # negative lookbehind to disambiguate open index position
-    r'(?<![\(\[⟨<]\d)(?<![\+|-]\d\))(?<![\+|-]\d)'  # negative lookbehind
+    r'(?<![\(\[⟨<]\d)(?<![\(\[⟨<]\d\d)(?<![\+|-]\d\))(?<![\+|-]\d\d\))(?<![\+|-]\d)(?<![\+|-]\d\d)'  # negative lookbehind
     r'(?<!_\d)(?<!_\d\d)(?<!_\d\d\d)(?<!_\d\d\d\d)'  # negative lookbehind for e.g. Δ_
     r'(?<!\|\d)(?<!\|\d\d)(?<!\|\d\d\d)(?<!\|\d\d\d\d)'  # negative lookbehind for e.g. Δ_12|
     r'(\|(?:(?:\([\d+|-]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
-    r'(?!\d[⟩>\]])(?!\d[\+|-])(?!\(\d[\+|-])'  # negative lookahead
+    r'(?!\d+[⟩>\]])(?!\d+[\+|-])(?!\(\d+[\+|-])'  # negative lookahead
     r'(?!\'\))'  # negative lookahead for already matched expression
 )
 pNB_double_open_disambiguate_alphadot = re.compile(  # DO NOT MODIFY HERE: COPY FROM ABOVE ONE
     r'(?<!\(\')'  # negative lookbehind for already matched expression
     r'(?<=\'\[\d\|\'\)\]\]\)\)\[0:1, :\]@)'  # positive lookbehind to disambiguate open index position
-    r'(?<![\(\[⟨<]\d)(?<![\+|-]\d\))(?<![\+|-]\d)'  # negative lookbehind
+    r'(?<![\(\[⟨<]\d)(?<![\(\[⟨<]\d\d)(?<![\+|-]\d\))(?<![\+|-]\d\d\))(?<![\+|-]\d)(?<![\+|-]\d\d)'  # negative lookbehind
     r'(?<!_\d)(?<!_\d\d)(?<!_\d\d\d)(?<!_\d\d\d\d)'  # negative lookbehind for e.g. Δ_
     r'(?<!\|\d)(?<!\|\d\d)(?<!\|\d\d\d)(?<!\|\d\d\d\d)'  # negative lookbehind for e.g. Δ_12|
     r'(\|(?:(?:\([\d+|-]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
-    r'(?!\d[⟩>\]])(?!\d[\+|-])(?!\(\d[\+|-])'  # negative lookahead
+    r'(?!\d+[⟩>\]])(?!\d+[\+|-])(?!\(\d+[\+|-])'  # negative lookahead
     r'(?!\'\))'  # negative lookahead for already matched expression
 )
 ptr5 = re.compile(r'tr5(_\d+|\([\d\|\+\-]+\))')
-- 
2.43.0


From 09af2145398053072ff61a3a4b1f4448ddf6985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:13 +0000
Subject: [PATCH 17/22] fix: clustering rewrote masses given as Mandelstam
 variables of legs that are not a corner

Substring replacement turned e.g. s_12 into s_62 when leg 1 became leg 6;
s_65 was not recognised as the mass of corner [5, 6].
---
 lips/particles.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index e8d441a..3d86606 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -21,7 +21,7 @@ from sympy import NotInvertible
 from syngular import Field
 from pyadic import PAdic, ModP
 
-from .tools import MinkowskiMetric, flatten, subs_dict, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
+from .tools import MinkowskiMetric, flatten, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
 from .particle import Particle
 from .particles_compute import Particles_Compute
 from .particles_eval import Particles_Eval
@@ -165,9 +165,13 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         Massive legs are by default massive scalars.
         Massive fermions can be specificed as e.g.: massive_fermions=((3, 'u', all), (4, 'd', all)))
         """
-        drule1 = dict(zip(["s" + "".join(map(str, entry)) for entry in llIntegers], [f"s{i}" for i in range(1, len(llIntegers) + 1)]))
-        drule2 = dict(zip(["s_" + "".join(map(str, entry)) for entry in llIntegers], [f"s_{i}" for i in range(1, len(llIntegers) + 1)]))
-        clustered_internal_masses = {key: (subs_dict(val, drule1 | drule2) if isinstance(val, str) else val)
+        def relabel(match):  # e.g. s_56 -> s_5 if legs 5 and 6 form the fifth corner; left as is if it can't be written in terms of the corners
+            labels = list(map(int, match.group(2)))
+            corners = [i for i, corner in enumerate(llIntegers, 1) if set(corner) <= set(labels)]
+            if sorted(sum([list(llIntegers[i - 1]) for i in corners], [])) != sorted(labels):
+                return match.group(0)
+            return match.group(1) + "".join(map(str, corners))
+        clustered_internal_masses = {key: (re.sub(r"(s_?)(\d+)", relabel, val) if isinstance(val, str) else val)
                                      for key, val in self.internal_masses_dict.items()}
         selfClustered = Particles([sum([self[i] for i in corner_as_integers]) for corner_as_integers in llIntegers],
                                   field=self.field, fix_mom_cons=False, internal_masses=clustered_internal_masses)
-- 
2.43.0


From 75799ef06c38aac668c8b6f91b9fea1d086d7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:58 +0000
Subject: [PATCH 18/22] fix: variety swallowed failures of the closed forms and
 could return a half-updated point

---
 lips/particles_variety.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lips/particles_variety.py b/lips/particles_variety.py
index f56132a..8fc3fa9 100644
--- a/lips/particles_variety.py
+++ b/lips/particles_variety.py
@@ -40,13 +40,15 @@ class Particles_Variety:
                 self._set_pair(invariants[0], _valuations[0], invariants[1], _valuations[1])
             else:
                 raise NotImplementedError
-        except Exception:
+        except Exception as e:
             if try_singular_variety_solver:
                 for i, iParticle in enumerate(self_backup):
                     self[i + 1] = iParticle
                 if verbose:
                     print("Trying singular variety solver...")
                 self._singular_variety(invariants, valuations, verbose=verbose)
+            elif not isinstance(e, myException):  # gave up half-way: nothing to check
+                raise
 
         if verbose:
             print("Checking result...")
-- 
2.43.0


From 5741d8441fe1b4231c871f424299b20c00fb6199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:58 +0000
Subject: [PATCH 19/22] fix: the generated 7- and 8-point invariants depended
 on the string hash seed of the process

---
 lips/invariants.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index a37c126..01e659a 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -307,9 +307,9 @@ def all_strings(n, temp_string):
             alt = [set(entry.split("+")) for entry in alt]
             if bc[0].issubset(alt[1]):
                 new_alt = alt[1] - bc[0]
-                new_alt = "+".join(new_alt)
+                new_alt = "+".join(sorted(new_alt))
                 new_bc = bc[0]
-                new_bc = "+".join(new_bc)
+                new_bc = "+".join(sorted(new_bc))
                 if iInv[0] == "⟨":
                     equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_bc, new_alt, d)
                 else:
@@ -319,14 +319,16 @@ def all_strings(n, temp_string):
                         if _result.index(equal_inv) > i:
                             result.remove(equal_inv)
                     elif Brackets4IsIndividuallyNeighbouring(n, equal_inv) is True and Brackets4IsIndividuallyNeighbouring(n, iInv) is False:
-                        result.remove(iInv)
+                        if iInv in result:
+                            result.remove(iInv)
                     elif Brackets4IsIndividuallyNeighbouring(n, equal_inv) is False and Brackets4IsIndividuallyNeighbouring(n, iInv) is False:
-                        result.remove(equal_inv)
+                        if _result.index(equal_inv) > i:
+                            result.remove(equal_inv)
             if bc[1].issubset(alt[0]):
                 new_alt = alt[0] - bc[1]
-                new_alt = "+".join(new_alt)
+                new_alt = "+".join(sorted(new_alt))
                 new_bc = bc[1]
-                new_bc = "+".join(new_bc)
+                new_bc = "+".join(sorted(new_bc))
                 if iInv[0] == "⟨":
                     equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_alt, new_bc, d)
                 else:
-- 
2.43.0


From a49ec1cfbe00dcf0c03c127d45bf698b9a284a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:40 +0000
Subject: [PATCH 20/22] fix: slices subject to constraints that force a spinor
 to vanish retried forever

---
 lips/particles_slices.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index a81a36b..5e309bc 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -43,6 +43,8 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
+                if counter > 100:  # e.g. if the constraints force a spinor to vanish
+                    raise Exception(f"Failed to find a slice that shifts all spinors, subject to {extra_constraints}.")
                 xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
@@ -89,6 +91,8 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
+                if counter > 100:  # e.g. if the constraints force a spinor to vanish
+                    raise Exception(f"Failed to find a slice that shifts all spinors, subject to {extra_constraints}.")
                 xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
-- 
2.43.0


From 361800fba4b375b4014d08e8d9bbd15ca1897c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 21/22] fix: substituting values in a symbolic point raised if
 a component came out as 1 or -1

---
 lips/particles.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 3d86606..5d4428a 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -241,34 +241,34 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
                 oP.r_sp_d[0, 0] = oP.r_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.r_sp_d[0, 0] = ModP(oP.r_sp_d[0, 0], self.field.characteristic)
+                    oP.r_sp_d[0, 0] = ModP(int(oP.r_sp_d[0, 0]), self.field.characteristic)
                 elif isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.r_sp_d[0, 0] = PAdic(oP.r_sp_d[0, 0], self.field.characteristic, self.field.digits)
+                    oP.r_sp_d[0, 0] = PAdic(int(oP.r_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[0, 0] = sympy.poly(oP.r_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
                 oP.r_sp_d[1, 0] = oP.r_sp_d[1, 0].subs(myDict)
                 if isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.r_sp_d[1, 0] = ModP(oP.r_sp_d[1, 0], self.field.characteristic)
+                    oP.r_sp_d[1, 0] = ModP(int(oP.r_sp_d[1, 0]), self.field.characteristic)
                 elif isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.r_sp_d[1, 0] = PAdic(oP.r_sp_d[1, 0], self.field.characteristic, self.field.digits)
+                    oP.r_sp_d[1, 0] = PAdic(int(oP.r_sp_d[1, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.r_sp_d[1, 0] = sympy.poly(oP.r_sp_d[1, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.r_sp_d = oP.r_sp_d  # trigger setter
             if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
                 oP.l_sp_d[0, 0] = oP.l_sp_d[0, 0].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.l_sp_d[0, 0] = ModP(oP.l_sp_d[0, 0], self.field.characteristic)
+                    oP.l_sp_d[0, 0] = ModP(int(oP.l_sp_d[0, 0]), self.field.characteristic)
                 elif isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.l_sp_d[0, 0] = PAdic(oP.l_sp_d[0, 0], self.field.characteristic, self.field.digits)
+                    oP.l_sp_d[0, 0] = PAdic(int(oP.l_sp_d[0, 0]), self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 0] = sympy.poly(oP.l_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
             if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Symbol)):
                 oP.l_sp_d[0, 1] = oP.l_sp_d[0, 1].subs(myDict)
                 if isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "finite field":
-                    oP.l_sp_d[0, 1] = ModP(oP.l_sp_d[0, 1], self.field.characteristic)
+                    oP.l_sp_d[0, 1] = ModP(int(oP.l_sp_d[0, 1]), self.field.characteristic)
                 elif isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "padic":
-                    oP.l_sp_d[0, 1] = PAdic(oP.l_sp_d[0, 1], self.field.characteristic, self.field.digits)
+                    oP.l_sp_d[0, 1] = PAdic(int(oP.l_sp_d[0, 1]), self.field.characteristic, self.field.digits)
                 else:
                     oP.l_sp_d[0, 1] = sympy.poly(oP.l_sp_d[0, 1], modulus=self.field.characteristic ** self.field.digits).as_expr()
             oP.l_sp_d = oP.l_sp_d  # trigger setter
@@ -276,8 +276,10 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Symbol)):
                 setattr(self, mass, getattr(self, mass).subs(myDict))
             if isinstance(getattr(self, mass), (sympy.Integer, ModP)) and self.field.name == "finite field":
-                setattr(self, mass, ModP(getattr(self, mass), self.field.characteristic))
-            elif isinstance(getattr(self, mass), (sympy.Integer, PAdic)) and self.field.name == "padic":
+                setattr(self, mass, ModP(int(getattr(self, mass)), self.field.characteristic))
+            elif isinstance(getattr(self, mass), sympy.Integer) and self.field.name == "padic":
+                setattr(self, mass, PAdic(int(getattr(self, mass)), self.field.characteristic, self.field.digits))
+            elif isinstance(getattr(self, mass), PAdic) and self.field.name == "padic":
                 setattr(self, mass, PAdic(getattr(self, mass), self.field.characteristic, self.field.digits))
             elif not isinstance(getattr(self, mass), str):
                 setattr(self, mass, sympy.poly(getattr(self, mass), modulus=self.field.characteristic ** self.field.digits).as_expr())
-- 
2.43.0


From 08752fa10b2b1b3d85310d6651d45c5deb3c4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 22/22] fix: strings beginning with a massive square spinor of
 leg 9 or more had the wrong index positions

---
 lips/particles_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 6a2ad80..5654a86 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -61,7 +61,7 @@ pNB_open_end = re.compile(
 )
 pNB_double_open = re.compile(
     r'(?<!\(\')'  # negative lookbehind for already matched expression
-    r'(?<!\'\[\d\|\'\)\]\]\)\)\[0:1, :\]@)'  # negative lookbehind to disambiguate open index position
+    r'(?<!\'\[\d\|\'\)\]\]\)\)\[0:1, :\]@)(?<!\'\[\d\d\|\'\)\]\]\)\)\[0:1, :\]@)'  # negative lookbehind to disambiguate open index position
     r'(?<![\(\[⟨<]\d)(?<![\(\[⟨<]\d\d)(?<![\+|-]\d\))(?<![\+|-]\d\d\))(?<![\+|-]\d)(?<![\+|-]\d\d)'  # negative lookbehind
     r'(?<!_\d)(?<!_\d\d)(?<!_\d\d\d)(?<!_\d\d\d\d)'  # negative lookbehind for e.g. Δ_
     r'(?<!\|\d)(?<!\|\d\d)(?<!\|\d\d\d)(?<!\|\d\d\d\d)'  # negative lookbehind for e.g. Δ_12|
@@ -71,7 +71,7 @@ pNB_double_open = re.compile(
 )
 pNB_double_open_disambiguate_alphadot = re.compile(  # DO NOT MODIFY HERE: COPY FROM ABOVE ONE
     r'(?<!\(\')'  # negative lookbehind for already matched expression
-    r'(?<=\'\[\d\|\'\)\]\]\)\)\[0:1, :\]@)'  # positive lookbehind to disambiguate open index position
+    r'(?:(?<=\'\[\d\|\'\)\]\]\)\)\[0:1, :\]@)|(?<=\'\[\d\d\|\'\)\]\]\)\)\[0:1, :\]@))'  # positive lookbehind to disambiguate open index position
     r'(?<![\(\[⟨<]\d)(?<![\(\[⟨<]\d\d)(?<![\+|-]\d\))(?<![\+|-]\d\d\))(?<![\+|-]\d)(?<![\+|-]\d\d)'  # negative lookbehind
     r'(?<!_\d)(?<!_\d\d)(?<!_\d\d\d)(?<!_\d\d\d\d)'  # negative lookbehind for e.g. Δ_
     r'(?<!\|\d)(?<!\|\d\d)(?<!\|\d\d\d)(?<!\|\d\d\d\d)'  # negative lookbehind for e.g. Δ_12|
-- 
2.43.0

