From 3be907dcb063706e7010eb60048df418f6283273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 01/18] fix: computeMachScalar used np.float, removed from
 numpy; user-defined drag curves raised AttributeError

---
 AMAT/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3aab595..45814ea 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2233,9 +2233,9 @@ class Vehicle:
 			Mach no.
 		
 		"""
-		stat_pres = np.float(self.planetObj.pressure_int(r - self.planetObj.RP))
-		stat_temp = np.float(self.planetObj.temp_int(r - self.planetObj.RP))
-		sonic_spd = np.float(self.planetObj.sonic_int(r - self.planetObj.RP))
+		stat_pres = float(self.planetObj.pressure_int(r - self.planetObj.RP))
+		stat_temp = float(self.planetObj.temp_int(r - self.planetObj.RP))
+		sonic_spd = float(self.planetObj.sonic_int(r - self.planetObj.RP))
 		mach = v/sonic_spd
 
 		return mach
-- 
2.43.0


From 7cb48ec86d41413d41bc0fa08725168a4a0140a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 02/18] fix: computeAccelerationLoad doubled the out-of-plane
 acceleration instead of squaring it

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 45814ea..a95d039 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2092,7 +2092,7 @@ class Vehicle:
 		acc_w = self.a_wvectorized(rc, thetac, phic, vc, delta)
 
 		acc_net = np.zeros(index)
-		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]*2.0)
+		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]**2.0)
 		acc_net_g = acc_net / self.planetObj.EARTHG
 
 		return acc_net_g
-- 
2.43.0


From 03bc2e765070e917064921c43ba1923750d4acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 03/18] fix: computeStagTemp read the specific heat ratio from
 the vehicle instead of its planet

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index a95d039..6ab76f5 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2263,7 +2263,7 @@ class Vehicle:
 		sonic_spd = self.planetObj.sonicvectorized(rc)
 		mach[:] = vc[:]/sonic_spd[:]
 		stag_temp = np.zeros(len(rc))
-		stag_temp[:] = stat_temp[:]*(1+0.5*(self.CPCV-1)*mach[:]**2.0)
+		stag_temp[:] = stat_temp[:]*(1+0.5*(self.planetObj.CPCV-1)*mach[:]**2.0)
 
 		return stag_temp
 
-- 
2.43.0


From ba3ca0edea37fe2bf9ad5e8d2185714884923f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:32 +0000
Subject: [PATCH 04/18] fix: add the initial heat load to the integrated heat
 load

The initial heat load was either ignored (odeint variants) or passed as
cumulative_trapezoid's initial argument, which current SciPy rejects for any
nonzero value, so multi-segment guided entries aborted or restarted at zero.
---
 AMAT/vehicle.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 6ab76f5..93669ac 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2512,7 +2512,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def propogateEntry2(self, t_sec, dt, delta_deg):
 		"""
@@ -2599,7 +2599,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=self.heatLoad0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def dummyVehicle(self, density_mes_int):
 		"""
@@ -2779,7 +2779,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total , tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -2936,7 +2936,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -6685,7 +6685,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total    = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload        = cumulative_trapezoid(q_stag_total , tc, \
+		heatload        = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, \
 			initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
@@ -6857,8 +6857,8 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, \
-							initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, \
+							initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 			   gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
-- 
2.43.0


From 5f55b46e6b0beb4ca2939e5d402cb024e561e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 05/18] fix: carry the heat load across the segments of the
 guided exit phase

Every exit segment restarted from the heat load at the switch point, so the
reported heat load history dropped back at each segment.
---
 AMAT/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 93669ac..2b72d0e 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5317,6 +5317,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]        # Entry heading angle
 			gamma0_deg = gamma_deg[-1]      # Entry flight path angle
 			drange0_km = drange_km[-1]      # Downrange
+			Ji = heatload[-1]                # Heat load accumulated so far
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -5506,6 +5507,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]  # Entry heading angle
 			gamma0_deg = gamma_deg[-1]  # Entry flight path angle
 			drange0_km = drange_km[-1]  # Downrange
+			Ji = heatload[-1]                # Heat load accumulated so far
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -6931,6 +6933,7 @@ class Vehicle:
 			psi0_deg    = psi_deg[-1]        # Entry heading angle 
 			gamma0_deg  = gamma_deg[-1]      # Entry flight path angle 
 			drange0_km  = drange_km[-1]      # Downrange
+			Ji = heatload[-1]                # Heat load accumulated so far
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -7124,6 +7127,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]  # Entry heading angle
 			gamma0_deg = gamma_deg[-1]  # Entry flight path angle
 			drange0_km = drange_km[-1]  # Downrange
+			Ji = heatload[-1]                # Heat load accumulated so far
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
-- 
2.43.0


From d1e50f6ba59d7f5a40b2e828e5cc143723ee7dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:47 +0000
Subject: [PATCH 06/18] fix: do not trap a trajectory that only touches the
 trap altitude

With the lowest sample exactly at the trap altitude and the highest exactly at
the skip altitude the trajectory was cut to nothing (index 0, flag -1) although
no sample is below the trap altitude.
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 2b72d0e..4b25a9e 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -1981,7 +1981,7 @@ class Vehicle:
 			index = len(h)
 			exitflag = 0.0
 
-		elif h_min <= self.planetObj.h_trap:
+		elif h_min < self.planetObj.h_trap:
 			# if trajectory descended below trap in altitude
 			# return the index of the first point after entering trap altiude
 			# set exitflag = -1 to indicate vehicle hit the surface
-- 
2.43.0


From 168a12ee1677229e45e1547cb1ee9acff8e55d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:53 +0000
Subject: [PATCH 07/18] fix: report the corridor limit when the initial bracket
 is already within tolerance

---
 AMAT/vehicle.py | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 4b25a9e..5f39032 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3311,10 +3311,10 @@ class Vehicle:
 				# print("EFPA = "+str(gamma0_deg_guess_high)+" deg. does not hit target
 				# apospasis but is captured.")
 				# print("")
-				# set overShootLimit to upper bound
-				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			# set overShootLimit to upper bound
+			# set exitflag to 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3413,10 +3413,10 @@ class Vehicle:
 				# print("EFPA = "+str(gamma0_deg_guess_low)+ " deg. exceeds target apoapsis altitude or is not captured.")
 				# print("EFPA = "+str(gamma0_deg_guess_high)+" deg. does not hit target apospasis but is captured.")
 				# print("")
-				# set overShootLimit to upper bound
-				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			# set overShootLimit to upper bound
+			# set exitflag to 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3516,10 +3516,10 @@ class Vehicle:
 				#print("EFPA = "+str(gamma0_deg_guess_high)+" deg. does not hit target \
 				#apoapsis but is captured.")
 				#print("")
-				# set overShootLimit to upper bound
-				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			# set overShootLimit to upper bound
+			# set exitflag to 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3619,10 +3619,10 @@ class Vehicle:
 				# print("EFPA = "+str(gamma0_deg_guess_high)+" deg. does not hit target \
 				# apoapsis but is captured.")
 				# print("")
-				# set overShootLimit to upper bound
-				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			# set overShootLimit to upper bound
+			# set exitflag to 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3839,10 +3839,10 @@ class Vehicle:
 				# apoapsis altitude.")
 				# print("")
 
-				# set overShootLimit to lower bound
-				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			# set overShootLimit to lower bound
+			# set exitflag to 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
@@ -3939,10 +3939,10 @@ class Vehicle:
 				# apoapsis altitude.")
 				# print("")
 
-				# set overShootLimit to lower bound
-				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			# set overShootLimit to lower bound
+			# set exitflag to 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
-- 
2.43.0


From 2144537bd5ff9f04f3f26f27e90dd4ac78d1cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:00 +0000
Subject: [PATCH 08/18] fix: fly the drag modulation corridor search without
 lift

---
 AMAT/vehicle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 5f39032..90e1c43 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3794,10 +3794,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3853,6 +3855,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
@@ -3894,10 +3897,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis2(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3953,6 +3958,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
-- 
2.43.0


From ee61318d9b5a7e9102dfd24687abdda5afd8342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:56 +0000
Subject: [PATCH 09/18] fix: roll to a reachable bank command at the rate that
 reaches it

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 90e1c43..ea57fe8 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4574,7 +4574,7 @@ class Vehicle:
 			# so as to achieve the desired bank angle at the 
 			# end of the guidance cycle.
 			bankRate = np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep
-			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*self.maxRollRate*timestep
+			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*bankRate*timestep
 			Delta_deg_ini = DeltaCMD_deg
 
 		return DeltaCMD_deg, Delta_deg_ini
-- 
2.43.0


From fce4d2f969f728c93303010d27da327887159397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:57 +0000
Subject: [PATCH 10/18] fix: end the guided entry phases below their switch
 speed

---
 AMAT/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ea57fe8..b8158b3 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4998,7 +4998,7 @@ class Vehicle:
 			counter+=1
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -5232,7 +5232,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6170,7 +6170,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6382,7 +6382,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
-- 
2.43.0


From 32d6229e14579698f57bfa6158406a54f231b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 11/18] fix: compute the scale height of the given density
 profile

---
 AMAT/planet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index 1e4b6e3..f61cb9e 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -835,13 +835,13 @@ class Planet:
 		# every 1 km
 		h_array = np.linspace(0, self.h_skip, int(self.h_skip/1000.0))
 		# compute the density at these altitudes using the
-		# vectorized density function
-		d_array = self.densityvectorized(h_array)
+		# given density function
+		d_array = density_int(h_array)
 
 		# Compute the density scale height using the formula in Hamel 2006
 		# AIAA. DOI = 10.2514/1.20126
 		integ = cumulative_trapezoid(d_array[int(h/1000.0):], h_array[int(h/1000.0):], initial=0)[-1]
-		ans = integ / (self.density(h) - self.density(self.h_skip))
+		ans = integ / (density_int(h) - density_int(self.h_skip))
 		return ans
 
 	def loadMonteCarloDensityFile2(self, atmfile, heightCol, densLowCol, densAvgCol, densHighCol, densTotalCol,
-- 
2.43.0


From a0400ffff016808908b6a0a453eec78e9686f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:48 +0000
Subject: [PATCH 12/18] fix: entry longitude in the quadrant of the entry
 position (approach)

---
 AMAT/approach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 0d897fd..6f75f42 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -266,9 +266,9 @@ class Approach:
 											  np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_bi_unit))
 
 			self.latitude_entry_bi = np.arcsin(self.r_vec_entry_bi_unit[2])
-			self.longitude_entry_bi = np.arctan(self.r_vec_entry_bi_unit[1] / self.r_vec_entry_bi_unit[0])
+			self.longitude_entry_bi = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 
-			self.xi_1 = np.arctan(self.r_vec_entry_bi_unit[1]/self.r_vec_entry_bi_unit[0])
+			self.xi_1 = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 			self.latitude_entry_bi_analytic = np.arctan(self.r_vec_entry_bi_unit[2]/
 														(self.r_vec_entry_bi_unit[0]*np.cos(self.xi_1) + self.r_vec_entry_bi_unit[1]*np.sin(self.xi_1)))
 
-- 
2.43.0


From 6f49998ee5f3238cd911633f22a5c771af76c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:48 +0000
Subject: [PATCH 13/18] fix: probe entry longitude in the quadrant of the entry
 position (orbiter)

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 5d9d944..a89b24e 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -737,7 +737,7 @@ class Orbiter:
 			self.gamma_inertial_probe_entry = -1 * np.arccos(self.h_probe_orbit / (self.r_EI * self.v_bi_mag_probe_entry))
 
 			self.latitude_probe_entry_bi = np.arcsin(self.r_vec_bi_probe_entry_unit[2])
-			self.longitude_probe_entry_bi = np.arctan(self.r_vec_bi_probe_entry_unit[1] / self.r_vec_bi_probe_entry_unit[0])
+			self.longitude_probe_entry_bi = np.arctan2(self.r_vec_bi_probe_entry_unit[1], self.r_vec_bi_probe_entry_unit[0])
 
 			self.v_vec_probe_entry_atm = self.vel_vec_probe_entry_atm()
 			self.v_mag_probe_entry_atm = np.linalg.norm(self.v_vec_probe_entry_atm)
-- 
2.43.0


From 67a3f08b1c2a9dc8b7246b1fb3e2d419b0b03078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 14/18] fix: a receiving dish's gain is computed from its own
 diameter, not the transmitter's

---
 AMAT/telecom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index 9e3ccaa..c10ed4e 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -142,7 +142,7 @@ class Link:
 		# if Dr and eta_r are provided, compute receiver gain using these values,
 		# else if Gr_dBi is provided, use this value directly for receiver gain
 		if Dr and eta_r:
-			self.Dr = Dt
+			self.Dr = Dr
 			self.Ar = 0.25 * np.pi * self.Dr * self.Dr
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
-- 
2.43.0


From 7a0d7c602bd4237c8fe99543b1f9141787832ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 15/18] fix: accept an antenna gain of exactly 0 dBi

---
 AMAT/telecom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index c10ed4e..afe07f4 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -133,7 +133,7 @@ class Link:
 			self.eta_t = eta_t
 			self.Gt = self.compute_antenna_gain(self.eta_t, self.Dt, self.wavelength)
 			self.Gt_dBi = self.compute_dB(self.Gt)
-		elif Gt_dBi:
+		elif Gt_dBi is not None:
 			self.Dt = None
 			self.At = None
 			self.eta_t = None
@@ -147,7 +147,7 @@ class Link:
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
 			self.Gr_dBi = self.compute_dB(self.Gr)
-		elif Gr_dBi:
+		elif Gr_dBi is not None:
 			self.Dr = None
 			self.Ar = None
 			self.eta_r = None
-- 
2.43.0


From cf0a9b82e0f473377b9d824a8d9bf481a010a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 16/18] fix: draw the deflected orbit with its own argument of
 periapsis

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index a89b24e..f6b2330 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -465,7 +465,7 @@ class Orbiter:
 		"""
 
 		r = (self.h_orbiter_defl**2 / self.vehicle.planetObj.GM) / (1 + self.e_orbiter_defl*np.cos(theta_star))
-		theta = theta_star + self.omega
+		theta = theta_star + self.omega_orbiter_defl
 
 		rx_unit = np.cos(self.OMEGA_orbiter_defl)*np.cos(theta) - np.sin(self.OMEGA_orbiter_defl)*np.cos(self.i_orbiter_defl)*np.sin(theta)
 		ry_unit = np.sin(self.OMEGA_orbiter_defl)*np.cos(theta) + np.cos(self.OMEGA_orbiter_defl)*np.cos(self.i_orbiter_defl)*np.sin(theta)
-- 
2.43.0


From f0108359f7f180dec5e87f01536e8537ae4476e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 17/18] fix: orbital velocity descends between apoapsis and
 periapsis and climbs from periapsis to apoapsis (orbiter)

---
 AMAT/orbiter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index f6b2330..157ab6f 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -493,7 +493,7 @@ class Orbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) < 0, -1, 1)*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -531,7 +531,7 @@ class Orbiter:
 		r_mag_bi = np.linalg.norm(self.pos_vec_bi_probe(theta_star))
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a_probe_orbit))
 
-		gamma = -1*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) > 0, 1, -1)*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -963,7 +963,7 @@ class PropulsiveOrbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.approach.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) < 0, -1, 1)*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 0206e29bc66d4f8015849b1c3451021337d82734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 18/18] fix: Monte Carlo campaigns fly the drawn L/D (drag
 modulation: the drawn beta1), not the nominal one

---
 AMAT/vehicle.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index b8158b3..09a1cd7 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5795,6 +5795,8 @@ class Vehicle:
 										 selected_profile)
 
 			
+			self.LD = selected_LD
+			self.CL = self.LD*self.CD
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, selected_efpa, drange0_km, heatLoad0)
 			self.propogateGuidedEntry(self.timeStep, self.dt, self.maxTimeSecs)
 
@@ -5847,6 +5849,9 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt', q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt', heatload_max_arr)
 
+		self.LD = self.vehicleCopy.LD
+		self.CL = self.vehicleCopy.CL
+
 	def runMonteCarlo2(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for lift modulation
@@ -5901,6 +5906,8 @@ class Vehicle:
 																			 self.NPOS, \
 																			 selected_profile)
 
+			self.LD = selected_LD
+			self.CL = self.LD*self.CD
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, \
 								 psi0_deg, selected_efpa, drange0_km, heatLoad0)
 			self.propogateGuidedEntry2(self.timeStep, self.dt, self.maxTimeSecs)
@@ -5957,7 +5964,8 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
 			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
-
+		self.LD = self.vehicleCopy.LD
+		self.CL = self.vehicleCopy.CL
 
 	def setDragEntryPhaseParams(self, v_switch_kms,\
 								lowAlt_km, numPoints_lowAlt, hdot_threshold):
@@ -7499,6 +7507,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0,1)
 
 			selected_LD       = 0.0
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(\
@@ -7511,6 +7520,7 @@ class Vehicle:
 										 selected_profile)
 
 			
+			self.beta1 = selected_beta1
 			self.setInitialState(h0_km,theta0_deg,phi0_deg,v0_kms,\
 						         psi0_deg,selected_efpa,drange0_km,heatLoad0)
 			self.propogateGuidedEntryD(self.timeStepEntry, self.timeStepExit,  self.dt, self.maxTimeSecs)
@@ -7544,6 +7554,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'efpa.txt',np.array([selected_efpa]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'atmSigma.txt',np.array([selected_atmSigma]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'LD.txt',np.array([selected_LD]))
+			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'beta1.txt',np.array([selected_beta1]))
 
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'terminal_apoapsis.txt',np.array([terminal_apoapsis]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_error.txt',np.array([apoapsis_error]))
@@ -7563,6 +7574,8 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
+		self.beta1 = self.vehicleCopy.beta1
+
 	def runMonteCarloD2(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for drag modulation
@@ -7605,6 +7618,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0, 1)
 
 			selected_LD = 0.0
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
@@ -7619,6 +7633,7 @@ class Vehicle:
 																			 self.NPOS, \
 																			 selected_profile)
 
+			self.beta1 = selected_beta1
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, \
 								 psi0_deg, selected_efpa, drange0_km, heatLoad0)
 			self.propogateGuidedEntryD2(self.timeStepEntry, self.timeStepExit, self.dt, self.maxTimeSecs)
@@ -7653,6 +7668,7 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'efpa.txt', np.array([selected_efpa]))
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'atmSigma.txt', np.array([selected_atmSigma]))
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'LD.txt', np.array([selected_LD]))
+			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'beta1.txt', np.array([selected_beta1]))
 
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'terminal_apoapsis.txt',
 					   np.array([terminal_apoapsis]))
@@ -7675,6 +7691,7 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
 			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
+		self.beta1 = self.vehicleCopy.beta1
 
 	def runMonteCarloD_Earth(self, N, mainFolder):
 		"""
@@ -7720,6 +7737,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0,1)
 
 			selected_LD       = 0.0
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile3(\
@@ -7733,6 +7751,7 @@ class Vehicle:
 										 selected_profile)
 
 			
+			self.beta1 = selected_beta1
 			self.setInitialState(h0_km,theta0_deg,phi0_deg,v0_kms,\
 						         psi0_deg,selected_efpa,drange0_km,heatLoad0)
 			self.propogateGuidedEntryD(self.timeStepEntry, self.timeStepExit,  self.dt, self.maxTimeSecs)
@@ -7766,6 +7785,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'efpa.txt',np.array([selected_efpa]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'atmSigma.txt',np.array([selected_atmSigma]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'LD.txt',np.array([selected_LD]))
+			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'beta1.txt',np.array([selected_beta1]))
 
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'terminal_apoapsis.txt',np.array([terminal_apoapsis]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_error.txt',np.array([apoapsis_error]))
@@ -7785,3 +7805,4 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
+		self.beta1 = self.vehicleCopy.beta1
-- 
2.43.0

