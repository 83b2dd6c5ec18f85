From d8491bf1da205d04d35806aa499f813e9483218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 01/80] fix: refresh the cached star orders whenever they no
 longer sort the current radii

---
 clustertools/cluster/cluster.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e08576f..25d9485 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1504,14 +1504,20 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
 
         """
-        if self. rorder is None or self.rorder_origin!=self.origin or len(self.r)!=len(self.rorder):
+        if self._order_is_stale(self.rorder, self.r) or self.rorder_origin!=self.origin:
 
             self.rorder = np.argsort(self.r)
             self.rorder_origin=self.origin
 
-        if (self. rproorder is None or self.rorder_origin!=self.origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
+        if self._order_is_stale(self.rproorder, self.rpro) and (projected or self.projected):
             self.rproorder = np.argsort(self.rpro)
 
+    def _order_is_stale(self, order, radii):
+        # A stored order only describes the current stars if it has one entry per star and sorts the current radii
+        if order is None or len(order)!=len(radii): return True
+        sorted_radii=radii[order]
+        return bool(np.any(sorted_radii[1:] < sorted_radii[:-1]))
+
     def _analysis_check(self,sortstars=True,projected=False):
         if self.units!=self.analyze_units or self.analyze_units!=self.units:
             self.analyze(sortstars=sortstars,projected=projected)
-- 
2.43.0


From 32d5debc6f5936e187d0c229f349f7e202b03e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 02/80] fix: to_units('radec') leaves orders and characteristic
 radii of the new frame

---
 clustertools/cluster/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index db30073..86766f6 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -840,7 +840,7 @@ def to_units(cluster, units):
         elif units == "kpckms":
             cluster.to_kpckms()
         elif units == "radec":
-            cluster.to_radec(sortstars=False,)
+            cluster.to_radec()
         elif units == "WDunits":
             cluster.to_WDunits()
         elif units == "pcmyr":
-- 
2.43.0


From 1bfa4e9178c812524cea86c25fe78a042867a6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 03/80] fix: convert to and from sky coordinates from the
 current positions, orbit and centre

Orbits initialized earlier were reused after the stars or the orbit had changed, and from_radec
stored the galactocentric position of the centre where its offset from the orbit belongs.
---
 clustertools/cluster/operations.py | 110 +++++++++++++++++------------
 1 file changed, 65 insertions(+), 45 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 86766f6..4b4a5e0 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -469,8 +469,21 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
             cluster.to_kpckms(analyze=False)
             cluster.to_galaxy()
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            # Always derive the sky coordinates from the current positions and velocities, as orbits that were
+            # initialized earlier may no longer describe the cluster and its stars
+            R, phi, z = coords.rect_to_cyl(cluster.xgc, cluster.ygc, cluster.zgc)
+            vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc, cluster.vygc, cluster.vzgc, cluster.xgc, cluster.ygc, cluster.zgc)
+
+            orbit = Orbit(
+                [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
+
+            R, phi, z = coords.rect_to_cyl(cluster.x, cluster.y, cluster.z)
+            vR, vT, vz = coords.rect_to_cyl_vec(cluster.vx, cluster.vy, cluster.vz, cluster.x, cluster.y, cluster.z)
+
+            orbits = Orbit(
+                np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi]), ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
 
             R, phi, z = coords.rect_to_cyl(cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
             vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc+cluster.vxc, cluster.vygc+cluster.vyc, cluster.vzgc+cluster.vzc,cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
@@ -479,19 +492,22 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
                 [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
             )
 
-            cluster.ra=cluster.orbits.ra()
-            cluster.dec=cluster.orbits.dec()
-            cluster.dist=cluster.orbits.dist()
-            cluster.pmra=cluster.orbits.pmra()
-            cluster.pmdec=cluster.orbits.pmdec()
-            cluster.vlos=cluster.orbits.vlos()
+            if cluster.orbit is None: cluster.orbit=orbit
+            cluster.orbits=orbits
+
+            cluster.ra=orbits.ra()
+            cluster.dec=orbits.dec()
+            cluster.dist=orbits.dist()
+            cluster.pmra=orbits.pmra()
+            cluster.pmdec=orbits.pmdec()
+            cluster.vlos=orbits.vlos()
 
-            cluster.ra_gc=cluster.orbit.ra()
-            cluster.dec_gc=cluster.orbit.dec()
-            cluster.dist_gc=cluster.orbit.dist()
-            cluster.pmra_gc=cluster.orbit.pmra()
-            cluster.pmdec_gc=cluster.orbit.pmdec()
-            cluster.vlos_gc=cluster.orbit.vlos()
+            cluster.ra_gc=orbit.ra()
+            cluster.dec_gc=orbit.dec()
+            cluster.dist_gc=orbit.dist()
+            cluster.pmra_gc=orbit.pmra()
+            cluster.pmdec_gc=orbit.pmdec()
+            cluster.vlos_gc=orbit.vlos()
 
             cluster.ra_c=oc.ra()
             cluster.dec_c=oc.dec()
@@ -561,44 +577,48 @@ def from_radec(cluster, sortstars=True):
 
         if cluster.units == "radec" and cluster.origin == "sky":
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-
+            # Always derive the galactocentric coordinates from the current sky coordinates, as orbits that were
+            # initialized earlier may no longer describe the cluster and its stars
+            orbit = Orbit(
+                [cluster.ra_gc,cluster.dec_gc,cluster.dist_gc,cluster.pmra_gc,cluster.pmdec_gc,cluster.vlos_gc], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
 
-            if cluster.xcn is not None:
-                cluster.xc,cluster.yc,cluster.zc=cluster.xcn,cluster.ycn,cluster.zcn
-                cluster.xc*=cluster.rbar/1000.
-                cluster.yc*=cluster.rbar/1000.
-                cluster.zc*=cluster.rbar/1000.
-                cluster.vxc=0.
-                cluster.vyc=0.
-                cluster.vzc=0.
+            orbits = Orbit(
+                np.column_stack([cluster.ra,cluster.dec,cluster.dist,cluster.pmra,cluster.pmdec,cluster.vlos]), radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
 
+            # The sky position of the centre is zero when no centre has been set
+            if cluster.dist_c == 0.0:
+                oc = orbit
             else:
                 oc = Orbit(
                     [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
                 )
 
-                cluster.xc=oc.x()
-                cluster.yc=oc.y()
-                cluster.zc=oc.z()
-                cluster.vxc=oc.vx()
-                cluster.vyc=oc.vy()
-                cluster.vzc=oc.vz()
-
-            cluster.x = cluster.orbits.x()
-            cluster.y = cluster.orbits.y()
-            cluster.z = cluster.orbits.z()
-            cluster.vx = cluster.orbits.vx()
-            cluster.vy = cluster.orbits.vy()
-            cluster.vz = cluster.orbits.vz()
-
-            cluster.xgc = cluster.orbit.x()
-            cluster.ygc = cluster.orbit.y()
-            cluster.zgc = cluster.orbit.z()
-            cluster.vxgc = cluster.orbit.vx()
-            cluster.vygc = cluster.orbit.vy()
-            cluster.vzgc = cluster.orbit.vz()
+            if cluster.orbit is None: cluster.orbit=orbit
+            cluster.orbits=orbits
+
+            # The centre is stored with respect to the cluster's orbit
+            cluster.xc=oc.x()-orbit.x()
+            cluster.yc=oc.y()-orbit.y()
+            cluster.zc=oc.z()-orbit.z()
+            cluster.vxc=oc.vx()-orbit.vx()
+            cluster.vyc=oc.vy()-orbit.vy()
+            cluster.vzc=oc.vz()-orbit.vz()
+
+            cluster.x = orbits.x()
+            cluster.y = orbits.y()
+            cluster.z = orbits.z()
+            cluster.vx = orbits.vx()
+            cluster.vy = orbits.vy()
+            cluster.vz = orbits.vz()
+
+            cluster.xgc = orbit.x()
+            cluster.ygc = orbit.y()
+            cluster.zgc = orbit.z()
+            cluster.vxgc = orbit.vx()
+            cluster.vygc = orbit.vy()
+            cluster.vzgc = orbit.vz()
 
             cluster.origin = "galaxy"
             cluster.units = "kpckms"
-- 
2.43.0


From 49358d01ad864e886d85d8a9b22820deb0a2e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 04/80] fix: coming back from sky units keeps the origin the
 sky coordinates were measured from

---
 clustertools/cluster/operations.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 4b4a5e0..dc0fbe0 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -572,6 +572,9 @@ def from_radec(cluster, sortstars=True):
     if cluster.units is None:
         print('NO UNITS SPECIFIED')
     else:
+
+        origin0=cluster.origin
+
         if cluster.units=='radec' and cluster.origin!='sky':
             cluster.to_sky()
 
@@ -623,6 +626,12 @@ def from_radec(cluster, sortstars=True):
             cluster.origin = "galaxy"
             cluster.units = "kpckms"
 
+            # Keep the origin that the sky coordinates were measured from
+            if origin0=='cluster':
+                cluster.to_cluster(sortstars=sortstars)
+            elif origin0=='centre':
+                cluster.to_centre(sortstars=sortstars)
+
 def to_galpy(cluster,analyze=True):
     """ Convert stellar positions/velocities, centre of mass, and orbital position and velocity to galpy units
     
-- 
2.43.0


From c348d9654ce6f9da39fe84939f6f4eed03974690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 05/80] fix: to_centre/to_cluster honour another centre_method
 when already in that sky frame

---
 clustertools/cluster/operations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index dc0fbe0..2681ce1 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -974,6 +974,9 @@ def to_centre(cluster, sortstars=True, centre_method=None):
     else:
 
         if centre_method is not None:
+            if cluster.units=='radec' and cluster.origin=='centre' and cluster.centre_method!=centre_method:
+                cluster.to_sky(sortstars=False)
+
             cluster.centre_method = centre_method
 
         if cluster.origin != 'centre':
@@ -1074,6 +1077,9 @@ def to_cluster(cluster, sortstars=True, centre_method=None):
     else:
 
         if centre_method is not None:
+            if cluster.units=='radec' and cluster.origin=='cluster' and cluster.centre_method!=centre_method:
+                cluster.to_sky(sortstars=False)
+
             cluster.centre_method = centre_method
 
         if cluster.origin != "cluster":
-- 
2.43.0


From 8233e22f6359cb70921fd7160bb4d102f48b12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 06/80] fix: spherical/cylindrical coordinates and closest_star
 answer for clusters in sky units

---
 clustertools/analysis/functions.py | 12 +++++-------
 clustertools/util/coordinates.py   |  4 ++--
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a40b6fd..5e69f50 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -956,9 +956,7 @@ def closest_star(cluster, projected=False, argument=False):
 
         x=np.column_stack([cluster.x,cluster.y])
         tree=cKDTree(x)
-        dist, arg = tree.query(x, k=5)
-
-        
+        dist, arg = tree.query(x, k=2)
 
     else:
 
@@ -970,10 +968,10 @@ def closest_star(cluster, projected=False, argument=False):
         tree=cKDTree(x)
         dist, arg = tree.query(x, k=2)
 
-        if argument:
-            return dist[:,1],arg[:,1]
-        else:
-            return dist[:,1]
+    if argument:
+        return dist[:,1],arg[:,1]
+    else:
+        return dist[:,1]
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index ea2d779..d772c60 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -51,7 +51,7 @@ def sphere_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -166,7 +166,7 @@ def cyl_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-- 
2.43.0


From 020a61f1f9d38ac7100ef832d26230e05eceddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 07/80] fix: starplot leaves clusters in amuse units as it
 found them

---
 clustertools/util/plots.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index ffe9f55..c29fbef 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -652,6 +652,8 @@ def starplot(
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
         if overplot:
+            if units0=='amuse':
+                cluster.to_amuse()
             return out
         else:
             if do_centre:
@@ -694,6 +696,9 @@ def starplot(
 
             plt.tight_layout()
 
+            if units0=='amuse':
+                cluster.to_amuse()
+
             if filename != None:
                 plt.savefig(filename)
 
-- 
2.43.0


From 4ab6e0698d49d5cff7d4ae3c905a9a2236f3c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 08/80] fix: rcore can plot in galpy and amuse units

---
 clustertools/analysis/functions.py | 58 +++++++++++++-----------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 5e69f50..603d3b8 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2154,9 +2154,6 @@ def rcore(
 
     else:
 
-        mo=conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
-        dens_in_msolpc2=(mo/cluster._ro**2.)/(1000.0**2.)
-
         cluster.to_pckms()
 
         if projected:
@@ -2206,42 +2203,26 @@ def rcore(
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
 
+        # method='casertano' calculates the profile in cluster.units, method='isothermal' in pckms
+        rconv, dconv = 1.0, 1.0
+
         if cluster.units == "nbody":
-            rprof /= cluster.rbar
+            rconv = 1.0 / cluster.rbar
 
             if projected:
-                pprof *= (
-                    (cluster.rbar ** 2.0)
-                    / cluster.zmbar
-                )
-
-                rho_c *= (
-                    (cluster.rbar ** 2.0)
-                    / cluster.zmbar
-                )
-
+                dconv = (cluster.rbar ** 2.0) / cluster.zmbar
             else:
-                pprof *= (
-                    (cluster.rbar ** 3.0)
-                    / cluster.zmbar
-                )
-
-                rho_c *= (
-                    (cluster.rbar ** 3.0)
-                    / cluster.zmbar
-                )
+                dconv = (cluster.rbar ** 3.0) / cluster.zmbar
 
             xunits = " (NBODY)"
             yunits = " (NBODY)"
 
         elif cluster.units == "kpckms" or cluster.units=='kpcgyr':
-            rprof /=1000.0
+            rconv = 1.0 / 1000.0
             if projected:
-                pprof *= (1000.0 ** 2.0)
-                rho_c *= (1000.0 ** 2.0)
+                dconv = 1000.0 ** 2.0
             else:
-                pprof *= (1000.0 ** 3.0)
-                rho_c *= (1000.0 ** 3.0)
+                dconv = 1000.0 ** 3.0
 
             xunits = " (kpc)"
             if projected:
@@ -2250,14 +2231,13 @@ def rcore(
                 yunits = " Msun/kpc^3"
 
         elif cluster.units=='galpy':
-            rprof /=(1000.0*ro)
+            rconv = 1.0 / (1000.0*cluster._ro)
 
             if projected:
-                pprof /= dens_in_msolpc2
-                rho_c /= dens_in_msolpc2
+                mo=conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                dconv = 1.0 / ((mo/cluster._ro**2.)/(1000.0**2.))
             else:
-                pprof /= conversion.dens_in_msolpc3(ro=ro, vo=vo) 
-                rho_c /= conversion.dens_in_msolpc3(ro=ro, vo=vo)               
+                dconv = 1.0 / conversion.dens_in_msolpc3(ro=cluster._ro, vo=cluster._vo)
 
             xunits = "(GALPY)"
             yunits = "(GALPY)"
@@ -2279,6 +2259,16 @@ def rcore(
             xunits = ""
             yunits = ""
 
+        if method != 'casertano':
+            rprof = rprof * rconv
+            pprof = pprof * dconv
+            rho_c = rho_c * dconv
+
+        if cluster.units == 'amuse':
+            rplot = rc.value_in(u.parsec)
+        else:
+            rplot = rc
+
         x, y, n = rprof, pprof, nprof
         _lplot(
             x,
@@ -2291,7 +2281,7 @@ def rcore(
             filename=filename,
         )
         _lplot(x, np.ones(len(x)) * rho_c, "--", overplot=True)
-        _lplot(np.ones(len(y)) * rc, y, "--", overplot=True)
+        _lplot(np.ones(len(y)) * rplot, y, "--", overplot=True)
 
         if filename != None:
             plt.savefig(filename)
-- 
2.43.0


From ffc7387af8386864a2af0f36d448547389f44b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 09/80] fix: velocity profiles accept every documented
 coordinate, plotted or not

---
 clustertools/analysis/profiles.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8dc491c..12b0ef2 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -779,8 +779,10 @@ def sigv_prof(
         elif coord=='v':
             if projected:
                 v=cluster.vpro
+                ylabel=r"$\sigma_{v_{pro}}$"
             else:
                 v=cluster.v
+                ylabel=r"$\sigma_v$"
     else:
         if projected:
             ylabel=r"$\sigma_{v_{pro}}$"
@@ -1187,6 +1189,7 @@ def v_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz=cluster.vz
 
         if coord =='r':
             v=vr
@@ -1209,8 +1212,10 @@ def v_prof(
         elif coord=='v':
             if projected:
                 v=cluster.vpro
+                ylabel=r"$<v_{pro}>$"
             else:
                 v=cluster.v
+                ylabel=r"$<v>$"
     else:
         if projected:
             ylabel=r"$<v_{pro}>$"
@@ -1415,6 +1420,7 @@ def v2_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz=cluster.vz
 
         if coord =='r':
             v=vr
@@ -1425,9 +1431,22 @@ def v2_prof(
         elif coord=='theta':
             v=vt
             ylabel=r"$<v_t^2>$"
-        elif coord=='z':
+        elif coord=='x' or coord=='vx':
+            v=cluster.vx
+            ylabel=r"$<v_x^2>$"
+        elif coord=='y' or coord=='vy':
+            v=cluster.vy
+            ylabel=r"$<v_y^2>$"
+        elif coord=='z' or coord=='vz':
             v=vz
             ylabel=r"$<v_z^2>$"
+        elif coord=='v':
+            if projected:
+                v=cluster.vpro
+                ylabel=r"$<v_{pro}^2>$"
+            else:
+                v=cluster.v
+                ylabel=r"$<v^2>$"
     else:
         if projected:
             ylabel=r"$<v_{pro}^2>$"
-- 
2.43.0


From 30e292f0e179ce41ddeb3b4807452d3a773a376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 10/80] fix: StarCluster.tapered_mass_function raised
 NameError, and returned too few values for few stars

---
 clustertools/analysis/functions.py | 4 ++++
 clustertools/cluster/cluster.py    | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 603d3b8..8feede9 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1664,6 +1664,10 @@ def tapered_mass_function(
             -1000.0,
             -1000.0,
             -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
         )
 
 
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 25d9485..38897e7 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2781,7 +2781,7 @@ class StarCluster(object):
         return self.alpha
 
     def tapered_mass_function(
-        cluster,
+        self,
         mmin=None,
         mmax=None,
         nmass=10,
@@ -2854,7 +2854,7 @@ class StarCluster(object):
             projected=self.projected
 
         m_mean, m_hist, dm, A, eA, alpha, ealpha, mc, emc, beta, ebeta= tapered_mass_function(
-            cluster,
+            self,
             mmin=mmin,
             mmax=mmax,
             nmass=nmass,
-- 
2.43.0


From 0a468e4199de58b5d482d114458237b8580f2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 11/80] fix: sky_coords works and returns the sky coordinates
 of every star from any frame

---
 clustertools/util/coordinates.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index d772c60..1920f8f 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -244,9 +244,11 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     cluster.save_cluster()
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-    cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
+    # the solar parameters of the cluster are the ones that apply to its sky coordinates
+    cluster.to_sky()
 
-    ra,dec,d0,pmra,pmdec,vr0=cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz
+    ra,dec,d0=copy.copy(cluster.x),copy.copy(cluster.y),copy.copy(cluster.z)
+    pmra,pmdec,vr0=copy.copy(cluster.vx),copy.copy(cluster.vy),copy.copy(cluster.vz)
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-- 
2.43.0


From a5bbd015715ad8f9dbab4724ede083bf71e6353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 12/80] fix: add_rotation rotates about the centre from any
 origin instead of overwriting the stars with centred positions

---
 clustertools/cluster/cluster.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 38897e7..274e9d1 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2073,7 +2073,20 @@ class StarCluster(object):
         -------
         2019 - Written - Webb (UofT)
         """
+        self.save_cluster()
+        units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
+
+        # Stars are rotated with respect to the centre, in cartesian coordinates
+        if self.units=='radec':
+            self.to_galaxy(sortstars=False)
+
+        if self.origin != 'cluster' and self.origin != 'centre':
+            self.to_centre(sortstars=False)
+
         self.x,self.y,self.z,self.vx,self.vy,self.vz=add_rotation(self, qrot)
+        self.analyze(sortstars=False)
+
+        self.return_cluster(units0,origin0, rorder0, rorder_origin0)
         self.qrot=qrot
 
     def virialize(self, qvir=0.5,specific=True, full=True, projected=None, softening=0.0):
-- 
2.43.0


From b8a66f9f73a360ff89358bf341555411e1c7651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 13/80] fix: interpolate_orbit moves the stars along with the
 orbit in sky units too

---
 clustertools/cluster/cluster.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 274e9d1..f31f4f0 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3426,13 +3426,16 @@ class StarCluster(object):
         xgc,ygc,zgc,vxgc,vygc,vzgc=interpolate_orbit(self,pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre, ro=ro,vo=vo, zo=zo, solarmotion=solarmotion)
 
         origin0=self.origin
-        self.to_cluster()
 
-        self.add_orbit(xgc,ygc,zgc,vxgc,vygc,vzgc)
-
-        if self.units=='radec' and self.origin=='sky':
-            self.ra_gc,self.dec_gc,self.dist_gc=xgc,ygc,zgc
-            self.pmra_gc,self.pmdec_gc,self.vlos_gc=vxgc,vygc,vzgc
+        if self.units=='radec':
+            # Stars move along with the orbit, which requires cartesian coordinates
+            self.to_galaxy(sortstars=False)
+            self.to_cluster(sortstars=False)
+            self.add_orbit(xgc,ygc,zgc,vxgc,vygc,vzgc,ounits='radec')
+            self.to_sky(sortstars=False)
+        else:
+            self.to_cluster()
+            self.add_orbit(xgc,ygc,zgc,vxgc,vygc,vzgc)
 
         self.to_origin(origin0)
 
-- 
2.43.0


From 32fb2741d68c37da93ae8b65a4e7b5ac97b4c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 14/80] fix: radii and speeds are updated after
 interpolate_orbits moved the stars

---
 clustertools/cluster/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index f31f4f0..3f3ee53 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3551,6 +3551,8 @@ class StarCluster(object):
                 self.ra_gc,self.dec_gc,self.dist_gc=xgc,ygc,zgc
                 self.pmra_gc,self.pmdec_gc,self.vlos_gc=vxgc,vygc,vzgc
 
+        self.analyze()
+
         return self.x,self.y,self.z,self.vx,self.vy,self.vz
 
 
-- 
2.43.0


From 015dbc262226cc3f0658c31f254f2510bccb0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 15/80] fix: virialize scales from the energies of the current
 stars and updates speeds and energies

---
 clustertools/cluster/cluster.py    | 2 ++
 clustertools/cluster/operations.py | 9 +++------
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 3f3ee53..0a97c47 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2130,6 +2130,8 @@ class StarCluster(object):
         self.vx *= self.qv
         self.vy *= self.qv
         self.vz *= self.qv
+        self.add_energies(self.kin*self.qv**2.,self.pot)
+        self.analyze(sortstars=False)
 
         self.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 2681ce1..03b4d1a 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1513,12 +1513,9 @@ def virialize(cluster, qvir=0.5, specific=True, full=full_default, projected=Fal
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
 
-    try:
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
-    except:
-        print("NEED TO CALCULATE ENERGIES FIRST")
-        cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
+    #Energies stored earlier may belong to other positions, velocities or options
+    cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
+    qv = np.sqrt(np.abs(qvir / cluster.qvir))
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
-- 
2.43.0


From 6991a5f920277b021d06267e1289b443fab01494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 16/80] fix: reset_nbody_scale keeps N-body unit data and
 binary conversions consistent with the new scales

---
 clustertools/cluster/cluster.py    | 23 +++++++++++++++++++++++
 clustertools/cluster/operations.py | 14 +++++++-------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 0a97c47..1262373 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1094,6 +1094,11 @@ class StarCluster(object):
         # Number of particles (from NBODY6 when tidal tail is being integrated)
         self.n_p = n_p
 
+        self._set_binary_scale()
+
+    def _set_binary_scale(self):
+        """ Set conversions between N-body units and days, solar radii and AU from rbar and zmbar
+        """
         au_to_cm = 1.49597870700e13
         pc_to_cm = 1296000.0/(2.0*np.pi)*au_to_cm
 
@@ -2052,8 +2057,26 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
+        # Values in N-body units have to be expressed with the new conversions
+        units0=self.units
+        if units0=='nbody':
+            self.to_pckms(analyze=False)
+
+        zmbar0,rbar_au0,tbar_days0=self.zmbar,self.rbar_au,self.tbar_days
+
         self.zmbar,self.rbar,self.vbar,self.tbar=reset_nbody_scale(self, mass=mass, radii=radii, rvirial=rvirial,projected=projected,**kwargs)
 
+        self._set_binary_scale()
+
+        if self.bunits=='nbody' and len(self.semi)>0:
+            self.semi=self.semi*(rbar_au0/self.rbar_au)
+            self.pb=self.pb*(tbar_days0/self.tbar_days)
+            self.m1=self.m1*(zmbar0/self.zmbar)
+            self.m2=self.m2*(zmbar0/self.zmbar)
+
+        if units0=='nbody':
+            self.to_nbody()
+
     def add_rotation(self, qrot):
         """Add a degree of rotation to an already generated StarCluster
 
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 03b4d1a..edc14fe 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1456,13 +1456,13 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
     if radii:
         if rvirial:
 
-            method=kwargs.get("method", 'inverse_distance')
-            full=kwargs.get("full", True)
-            H = kwargs.get("H", 70.0)
-            Om = kwargs.get("Om", 0.3)
-            overdens = kwargs.get("overdens", 200.0)
-            nrad = kwargs.get("nrad", 20.0)
-            plot = kwargs.get("plot", False)
+            method=kwargs.pop("method", 'inverse_distance')
+            full=kwargs.pop("full", True)
+            H = kwargs.pop("H", 70.0)
+            Om = kwargs.pop("Om", 0.3)
+            overdens = kwargs.pop("overdens", 200.0)
+            nrad = kwargs.pop("nrad", 20)
+            plot = kwargs.pop("plot", False)
 
             cluster.virial_radius(method=method,full=full,
                 H=H,Om=Om,overdens=overdens,nrad=nrad,projected=projected,
-- 
2.43.0


From 778d9120bba7bfaa5c93c60092d93e88a434b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 17/80] fix: sub_cluster keeps binary units, sky centre and
 frame, counts its own stars, and rescales only what is asked

---
 clustertools/cluster/cluster.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 1262373..df3b407 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4128,8 +4128,14 @@ def sub_cluster(
             cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale,
             cluster.ns,cluster.nb,cluster.n_p)
 
+        if cluster.ns+cluster.nb==cluster.ntot:
+            #Numbers of single and binary stars are those of the subset
+            subcluster.nb=int(np.sum(np.logical_or(np.isin(cluster.id1,cluster.id[indx]),np.isin(cluster.id2,cluster.id[indx]))))
+            subcluster.ns=subcluster.ntot-subcluster.nb
+
         subcluster.projected = cluster.projected
         subcluster.centre_method = cluster.centre_method
+        subcluster.bunits = cluster.bunits
 
         if len(cluster.logl) > 0:
             if len(cluster.ep) !=0 and len(cluster.ospin) != 0:
@@ -4255,17 +4261,33 @@ def sub_cluster(
                 cluster.vlos_gc,
             )
 
+            subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
+            subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = (
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            )
+
         if reset_nbody:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=True,radius=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=True,radii=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
         elif reset_nbody_mass or reset_nbody_radii:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radius=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radii=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
 
     else:
-        subcluster = StarCluster(cluster.tphys)
+        subcluster = StarCluster(
+            cluster.tphys,
+            units=cluster.units,
+            origin=cluster.origin,
+            ctype=cluster.ctype,
+            ro=cluster._ro,
+            vo=cluster._vo,
+            zo=cluster._zo,
+            solarmotion=cluster._solarmotion,
+        )
 
     if subcluster.ntot > 0:
         if subcluster.units!=units0: subcluster.to_units(units0)
-- 
2.43.0


From 4c7f8580313a87f8379a805bab5c18ad7a8a89c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 18/80] fix: convert velocities to and from pcmyr, kpcgyr and
 WD units with their velocity scale, masses to galpy units

---
 clustertools/util/units.py | 173 ++++++++++---------------------------
 1 file changed, 46 insertions(+), 127 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b4a7d48..4499fca 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -113,6 +113,33 @@ def _convert_length(x,units,cluster):
 
     return x
 
+def _velocity_in_kms(units,cluster):
+    """ Get one unit of velocity in km/s
+
+    Parameters
+    ----------
+    units : str
+        units to get velocity of
+    cluster : class
+        StarCluster
+
+    Returns
+    -------
+    v : float
+        velocity in km/s
+    """
+
+    if units=='nbody':
+        return cluster.vbar
+    elif units=='galpy':
+        return cluster._vo
+    elif units=='pcmyr' or units=='kpcgyr':
+        return 1./1.022712165045695
+    elif units=='WDunits':
+        return cluster._vo/conversion.velocity_in_kpcGyr(vo=cluster._vo,ro=cluster._ro)
+    else:
+        return 1.
+
 def _convert_velocity(x,units,cluster):
     """Convert x from units to cluster.units
 
@@ -134,69 +161,19 @@ def _convert_velocity(x,units,cluster):
     -------
     2022 - Written - Webb (UofT)
     """
-    if units!=cluster.units:
-
-        if units=='nbody':
-            if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x*=cluster.vbar
-                if cluster.units=='amuse':
-                    x= x | u.kms
-                elif cluster.units=='pcmyr':
-                    x*=1.022712165045695
-            elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-                x*=cluster.vbar
-                if cluster.units=='kpcgyr':
-                    x*=1.022712165045695
-            elif cluster.units=='galpy':
-                x*=cluster.vbar/cluster._vo
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
 
+    if units!=cluster.units:
 
-        elif units=='pckms' or units=='pcmyr' or units=='amuse':
-            if units=='pcmyr': 
-                x/=1.022712165045695
-            elif units=='amuse':
+        if units=='radec' or cluster.units=='radec':
+            print('NO DIRECT CONVERSION AVAILABLE')
+        else:
+            if units=='amuse':
                 x=x.value_in(u.kms)
 
-            if cluster.units=='nbody':
-                x/=cluster.vbar
-            elif cluster.units=='galpy':
-                x/=cluster._vo
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-            elif cluster.units=='amuse':
-                x=x | u.kms
-
-        elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
-            if units=='kpcgyr': 
-                x/=1.022712165045695
-            if cluster.units=='nbody':
-                x/=cluster.vbar
-            elif cluster.units=='amuse':
-                x= x | u.kms
-            elif cluster.units=='galpy':
-                x/=cluster._vo
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
-        elif units=='galpy':
-            if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x*=cluster._vo
-                if cluster.units=='amuse':
-                    x= x | u.kms
-                elif cluster.units=='pcmyr':
-                    x*=1.022712165045695
-            elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-                x*=cluster._vo
-            elif cluster.units=='nbody':
-                x*=(cluster._vo/cluster.vbar)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
-        elif units=='radec':
-            print('NO DIRECT CONVERSION AVAILABLE')
+            x=x*(_velocity_in_kms(units,cluster)/_velocity_in_kms(cluster.units,cluster))
 
+            if cluster.units=='amuse':
+                x=x | u.kms
 
     return x
 
@@ -224,74 +201,16 @@ def _convert_square_velocity(x,units,cluster):
 
     if units!=cluster.units:
 
-
-        if units=='nbody':
-            if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x*=(cluster.vbar**2.0)
-                if cluster.units=='amuse':
-                    x= x | (u.kms*u.kms)
-                elif cluster.units=='pcmyr':
-                    x*=(1.022712165045695**2.0)
-            elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-                x*=(cluster.vbar**2.)
-                if cluster.units=='kpcgyr':
-                    x*=(1.022712165045695**2.0)
-            elif cluster.units=='galpy':
-                x*=((cluster.vbar/cluster._vo)**2.)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
-
-        elif units=='pckms' or units=='pcmyr' or units=='amuse':
-
-            if units=='pcmyr':
-                x/=(1.022712165045695**2.0)
-
+        if units=='radec' or cluster.units=='radec':
+            print('NO DIRECT CONVERSION AVAILABLE')
+        else:
             if units=='amuse':
-                x=x.value_in(u.kms*u.kms)
+                x=x.value_in((u.kms*u.kms))
 
-            if cluster.units=='nbody':
-                x/=(cluster.vbar**2.)
-            elif cluster.units=='galpy':
-                x/=(cluster._vo**2.)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-            elif cluster.units=='amuse':
-                x=x | (u.kms*u.kms)
-
-        elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
-
-            if units=='kpcgyr':
-                x/=(1.022712165045695**2.0)
-
-            if cluster.units=='nbody':
-                x/=(cluster.vbar**2.)
-            elif cluster.units=='amuse':
-                x= x | (u.kms*u.kms)
-            elif cluster.units=='galpy':
-                x/=(cluster._vo**2.)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
-        elif units=='galpy':
-            if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x*=(cluster._vo**2.)
-                if cluster.units=='amuse':
-                    x= x | (u.kms*u.kms)
-                elif units=='pcmyr':
-                    x/=(1.022712165045695**2.0)
-            elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-                x*=(cluster._vo**2.)
-                if units=='kpcgyr':
-                    x/=(1.022712165045695**2.0)
-            elif cluster.units=='nbody':
-                x*=((cluster._vo/cluster.vbar)**2.)
-            elif cluster.units=='radec':
-                print('NO DIRECT CONVERSION AVAILABLE')
-
-        elif units=='radec':
-            print('NO DIRECT CONVERSION AVAILABLE')
+            x=x*((_velocity_in_kms(units,cluster)/_velocity_in_kms(cluster.units,cluster))**2.)
 
+            if cluster.units=='amuse':
+                x=x | (u.kms*u.kms)
 
     return x
 
@@ -413,12 +332,12 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
 
         elif units=='galpy':
-            x *= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+            x *= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
             if cluster.units=='amuse':
                 x= x | u.MSun
@@ -435,7 +354,7 @@ def _convert_mass(x,units,cluster):
             elif cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
         else:
             if units=='amuse':
@@ -444,7 +363,7 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='nbody':
                 x/=cluster.zmbar
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
             elif cluster.units=='amuse':
-- 
2.43.0


From 8601fbbbfe20421f0470d91c4e4c7e1d2d55a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 19/80] fix: unit converters leave the caller's values alone
 and convert projected densities by area

---
 clustertools/util/units.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 4499fca..77ee409 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -4,6 +4,7 @@
 __author__ = "Jeremy J Webb"
 
 
+import copy
 import numpy as np
 from ..util.constants import *
 
@@ -43,6 +44,9 @@ def _convert_length(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Leave values held by the caller as they are
+        x=copy.copy(x)
+
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x*=cluster.rbar
@@ -238,6 +242,9 @@ def _convert_time(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Leave values held by the caller as they are
+        x=copy.copy(x)
+
 
         to=conversion.time_in_Gyr(ro=cluster._ro,vo=cluster._vo)
 
@@ -326,6 +333,9 @@ def _convert_mass(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Leave values held by the caller as they are
+        x=copy.copy(x)
+
 
         if units=='nbody':
             x*=cluster.zmbar
@@ -441,7 +451,7 @@ def _convert_density(x,units,cluster,projected=False):
             elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x/=(1000.0**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='galpy':
                 x*=(cluster._ro**power)
             elif cluster.units=='radec':
@@ -450,15 +460,15 @@ def _convert_density(x,units,cluster,projected=False):
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x/=((1000.0*cluster._ro)**3.0)
+                x/=((1000.0*cluster._ro)**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x/=(cluster._ro**power)
             elif cluster.units=='nbody':
                 x/=((cluster._ro*1000.0/cluster.rbar)**power)
             elif cluster.units=='radec':
-                x/=(cluster._ro**3.0)
+                x/=(cluster._ro**power)
                 kpc_deg=np.degrees(np.arctan2(1.0,cluster.zgc))
                 x/=(kpc_deg**power)
 
@@ -473,7 +483,7 @@ def _convert_density(x,units,cluster,projected=False):
                 elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                     x/=(1000.0**power)
                     if cluster.units=='amuse':
-                        x/= 1 | (u.parsec*u.parsec*u.parsec)
+                        x/= (1 | u.parsec)**power
                 elif cluster.units=='galpy':
                     x*=(cluster._ro**power)
 
-- 
2.43.0


From e84d08c3a150bf9f0e8b938f7923ab7b89737b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 20/80] fix: orbit integration does not rescale the caller's
 tfinal array

---
 clustertools/analysis/orbits.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b7bbecc..538f7eb 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -240,13 +240,13 @@ def _integrate_orbit(
     if tfinal is None:
         tfinal=12./conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='pckms' or cluster.units=='pcmyr':
-        tfinal/=(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='amuse':
         tfinal=tfinal.value_in(u.Gyr)/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='kpckms' or cluster.units=='radec' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-        tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
+        tfinal=tfinal/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
-        tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal*((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
 
     ts = np.linspace(0, tfinal, nt)
     o.integrate(ts, pot)
@@ -303,13 +303,13 @@ def _integrate_orbits(
     if tfinal is None:
         tfinal=12./conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='pckms' or cluster.units=='pcmyr':
-        tfinal/=(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='amuse':
         tfinal=tfinal.value_in(u.Gyr)/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='kpckms' or cluster.units=='radec' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-        tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
+        tfinal=tfinal/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
-        tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal*((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
 
     os = initialize_orbits(cluster, ro=ro,vo=vo, zo=zo, solarmotion=solarmotion)
     ts = np.linspace(0, tfinal, nt)
@@ -668,13 +668,13 @@ def orbital_path(
     if tfinal is None:
         tfinal=0.1/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='pckms' or cluster.units=='pcmyr':
-        tfinal/=(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='amuse':
         tfinal=tfinal.value_in(u.Myr)/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='kpckms' or cluster.units=='radec' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-        tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
+        tfinal=tfinal/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
-        tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal*((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
 
     o = initialize_orbit(cluster, from_centre=from_centre, ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
-- 
2.43.0


From 403a1fc6ab49132d9f4cffad101e30da56cfd34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 21/80] fix: orbital_path_match reads a path in the cluster's
 units and leaves sky distances in degrees; tail_path uses the cluster's
 galactic reference for sky paths

---
 clustertools/analysis/orbits.py  | 18 ++++++++++++++++--
 clustertools/tidaltail/tails.py  |  4 +++-
 clustertools/util/coordinates.py |  6 +++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 538f7eb..5f7f2e1 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -869,6 +869,17 @@ def orbital_path_match(
     else:
         ts, x, y, z, vx, vy, vz = path
 
+        #Path is given in the same units as the cluster
+        ts=_convert_time(np.array(ts,dtype=float),units0,cluster)
+
+        if not skypath:
+            x=_convert_length(np.array(x,dtype=float),units0,cluster)
+            y=_convert_length(np.array(y,dtype=float),units0,cluster)
+            z=_convert_length(np.array(z,dtype=float),units0,cluster)
+            vx=_convert_velocity(np.array(vx,dtype=float),units0,cluster)
+            vy=_convert_velocity(np.array(vy,dtype=float),units0,cluster)
+            vz=_convert_velocity(np.array(vz,dtype=float),units0,cluster)
+
     pindx = np.argmin(np.fabs(ts))
 
     dx = np.tile(np.array(x), cluster.ntot).reshape(
@@ -1007,7 +1018,10 @@ def orbital_path_match(
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     tstar=_convert_time(tstar,'kpckms',cluster)
-    dprog=_convert_length(dprog,'kpckms',cluster)
-    dpath=_convert_length(dpath,'kpckms',cluster)
+
+    #Distances along and from a path on the sky are in degrees
+    if not skypath:
+        dprog=_convert_length(dprog,'kpckms',cluster)
+        dpath=_convert_length(dpath,'kpckms',cluster)
 
     return np.array(tstar), np.array(dprog), np.array(dpath)
\ No newline at end of file
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 93604a7..2c4cdff 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -228,7 +228,9 @@ def tail_path(
 
 
     if skypath:
-        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail)
+        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail,
+            ro=cluster._ro if ro is None else ro,vo=cluster._vo if vo is None else vo,
+            zo=cluster._zo if zo is None else zo,solarmotion=cluster._solarmotion if solarmotion is None else solarmotion)
 
 
     if plot:
diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index 1920f8f..13dbd22 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -254,7 +254,7 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
 
     return ra, dec, d0, pmra, pmdec, vr0
 
-def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion):
+def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar_zo):
     """Convert cartesian coordinates to sky coordinates
 
     Parameters
@@ -277,14 +277,14 @@ def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion)
 
     if isinstance(R,float):
         o = Orbit(
-            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, solarmotion=solarmotion
+            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
     else:
 
         vxvv=np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi])
 
         o = Orbit(
-            vxvv, ro=ro, vo=vo, solarmotion=solarmotion
+            vxvv, ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
 
     return o.ra(),o.dec(),o.dist(),o.pmra(),o.pmdec(),o.vlos()
-- 
2.43.0


From a0cf68fef70c80448c469d6597af382c4282e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 22/80] fix: orbit_interpolate and orbits_interpolate call the
 functions they stand for

---
 clustertools/analysis/orbits.py | 4 ++--
 clustertools/cluster/cluster.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 5f7f2e1..faaedfb 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -546,7 +546,7 @@ def orbit_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 def orbits_interpolate(
     cluster,
@@ -594,7 +594,7 @@ def orbits_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbits(cluster, cluster_pot=cluster_pot, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 
 def orbital_path(
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index df3b407..4b2116d 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3507,7 +3507,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbit(self,pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        self.interpolate_orbit(pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     def interpolate_orbits(self,pot=None,tfinal=None,nt=1000,ro=None,vo=None,zo=None,solarmotion=None):
@@ -3618,7 +3618,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbits(self,pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
     def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
-- 
2.43.0


From 5e5e8398d5aed7e205a3201bc2169fad64133440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 23/80] fix: profiles normalise radii once and in the profile's
 own frame; vcirc_prof sorts before summing and selects the stars it was asked
 for

---
 clustertools/analysis/profiles.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 12b0ef2..5f4e23c 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -148,6 +148,9 @@ def rho_prof(
         pprof[i] = np.sum(cluster.m[rindx] / vol)
         nprof[i] = np.sum(rindx)
 
+    if normalize:
+        rprof=r_mean/cluster.rm
+
     if plot:
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
@@ -185,9 +188,6 @@ def rho_prof(
 
         x, y, n = rprof, pprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -207,12 +207,9 @@ def rho_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     pprof=_convert_density(pprof,units,cluster,projected=projected)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, pprof, nprof
 
 
@@ -336,6 +333,9 @@ def m_prof(
         mprof[i]=np.sum(cluster.m[rindx])
         nprof[i]=np.sum(rindx)
 
+    if normalize:
+        rprof=r_mean/cluster.rm
+
     if plot:
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
@@ -358,9 +358,6 @@ def m_prof(
 
         x, y, n = rprof, mprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -379,12 +376,9 @@ def m_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     mprof=_convert_mass(mprof,units,cluster)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, mprof, nprof
 
 def alpha_prof(
@@ -491,8 +485,8 @@ def alpha_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre(sortstars=True)
+    else:
         cluster.sortstars()
 
 
@@ -611,7 +605,7 @@ def alpha_prof(
 
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
 
 
     if aerror:
@@ -846,7 +840,7 @@ def sigv_prof(
         if filename != None:
             plt.savefig(filename)
 
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
     sigvprof=_convert_velocity(sigvprof,units,cluster)
 
     return rprofn, sigvprof
@@ -1598,8 +1592,8 @@ def eta_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
-    elif normalize:
+        cluster.to_centre(sortstars=True)
+    else:
         cluster.sortstars()
 
     if projected:
@@ -1941,7 +1935,7 @@ def vcirc_prof(
         cluster.to_pckms()
 
     if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
+        cluster.to_centre(sortstars=True)
     else:
         cluster.sortstars()
 
@@ -1995,9 +1989,15 @@ def vcirc_prof(
 
     indx=cluster.subset(rmin=rmin,rmax=rmax,vmin=vmin,vmax=vmax,mmin=mmin,mmax=mmax,emin=emin,emax=emax,kwmin=kwmin,kwmax=kwmax,npop=npop,indx=indx,projected=projected)
 
-    r = r[indx]
-    v = v[indx]
-    m = m[indx]
+    #Radii, velocities and masses have been sorted by radius
+    if projected:
+        sindx=indx[cluster.rproorder]
+    else:
+        sindx=indx[cluster.rorder]
+
+    r = r[sindx]
+    v = v[sindx]
+    m = m[sindx]
 
     msum = np.cumsum(m)
     vcirc = np.sqrt(grav * msum / r)
-- 
2.43.0


From 8504e5b763a6b90eb892ab3bb45eea8cd1ca67b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 24/80] fix: add_orbit converts to and from every unit system
 and leaves the caller's values alone

---
 clustertools/cluster/cluster.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 4b2116d..aea2ed7 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -24,6 +24,7 @@ from ..tidaltail.tails import *
 from copy import copy
 from galpy.orbit import Orbit
 from ..util.constants import *
+from ..util.coordinates import cart_to_sky
 
 try:
     import amuse.units.units as u
@@ -885,6 +886,9 @@ class StarCluster(object):
             tphys=0.
             otime=False
 
+        # Conversions below are done in place, so work on copies of what the user provided
+        xgc,ygc,zgc,vxgc,vygc,vzgc=copy(xgc),copy(ygc),copy(zgc),copy(vxgc),copy(vygc),copy(vzgc)
+
         if ounits != None and ounits != self.units:
             # First convert to kpckms
             if ounits != "kpckms":
@@ -923,6 +927,12 @@ class StarCluster(object):
                     vzgc/=1.022712165045695
 
 
+                elif ounits == 'WDunits':
+                    vcon=vo/conversion.velocity_in_kpcGyr(vo=vo,ro=ro)
+                    vxgc*=vcon
+                    vygc*=vcon
+                    vzgc*=vcon
+
                 elif ounits == 'radec':
                     o=Orbit([xgc,ygc,zgc,vxgc,vygc,vzgc],radec=True,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
                     xgc=o.x()
@@ -955,6 +965,25 @@ class StarCluster(object):
                 vygc /= vo
                 vzgc /= vo
                 tphys /= conversion.time_in_Gyr(ro=ro,vo=vo)
+            elif self.units == "pcmyr":
+                xgc *= 1000.0
+                ygc *= 1000.0
+                zgc *= 1000.0
+                vxgc *= 1.022712165045695
+                vygc *= 1.022712165045695
+                vzgc *= 1.022712165045695
+                tphys *= 1000.0
+            elif self.units == "kpcgyr":
+                vxgc *= 1.022712165045695
+                vygc *= 1.022712165045695
+                vzgc *= 1.022712165045695
+            elif self.units == "WDunits":
+                vcon=vo/conversion.velocity_in_kpcGyr(vo=vo,ro=ro)
+                vxgc /= vcon
+                vygc /= vcon
+                vzgc /= vcon
+            elif self.units == "radec":
+                xgc,ygc,zgc,vxgc,vygc,vzgc=cart_to_sky(xgc,ygc,zgc,vxgc,vygc,vzgc,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
         self.xgc = xgc
@@ -3981,7 +4010,7 @@ def _get_subset(
 
     try:
 
-        indx *= (
+        indx = indx * (
             (r >= rmin)
             * (r <= rmax)
             * (cluster.m >= mmin)
-- 
2.43.0


From 3db4b3f541028adeadeb83684d5c6166037eb96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 25/80] fix: selections and table readers do not edit the
 arrays and mappings they are given

---
 clustertools/analysis/functions.py | 2 +-
 clustertools/io/astropy_table.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 8feede9..d9b2e8f 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2392,7 +2392,7 @@ def rtidal(
     for i in range(0, rtiterate):
         msum = 0.0
 
-        indx *= cluster.r < rt
+        indx = indx * (cluster.r < rt)
         msum = np.sum(cluster.m[indx])
 
         rtnew = rtide(pot, R, z, M=msum,use_physical=False)
diff --git a/clustertools/io/astropy_table.py b/clustertools/io/astropy_table.py
index e9df60f..c8631aa 100644
--- a/clustertools/io/astropy_table.py
+++ b/clustertools/io/astropy_table.py
@@ -70,7 +70,7 @@ def _get_astropy_table(
     2020 - Written - Starkman (UofT)
     """
 
-    cm = column_mapper or {}  # None -> {}
+    cm = dict(column_mapper or {})  # None -> {}
 
     if column_mapper is None:
         # lower-case colum names
-- 
2.43.0


From 061945359c26e9c685061b79d80af59892355780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 26/80] fix: adding binaries or stellar evolution data twice
 keeps every star's own values

---
 clustertools/cluster/cluster.py | 93 ++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 42 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index aea2ed7..a2fe8e7 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -672,12 +672,21 @@ class StarCluster(object):
             print(len(self.id),len(self.m),len(self.x),len(self.y),len(self.z),len(self.x),len(self.y),len(self.z),len(self.m0),len(self.npop))
 
         if self.units == "radec" and self.origin == "sky":
-            self.ra = np.append(self.ra, x)
-            self.dec = np.append(self.dec, y)
-            self.dist = np.append(self.dist, z)
-            self.pmra = np.append(self.pmra, vx)
-            self.pmdec = np.append(self.pmdec, vy)
-            self.vlos = np.append(self.vlos, vz)
+            if nb>0:
+                # Centres of mass of binary stars are at the front of the arrays
+                self.ra = np.append(xcom, self.ra)
+                self.dec = np.append(ycom, self.dec)
+                self.dist = np.append(zcom, self.dist)
+                self.pmra = np.append(vxcom, self.pmra)
+                self.pmdec = np.append(vycom, self.pmdec)
+                self.vlos = np.append(vzcom, self.vlos)
+
+            self.ra = np.append(self.ra, x[args:])
+            self.dec = np.append(self.dec, y[args:])
+            self.dist = np.append(self.dist, z[args:])
+            self.pmra = np.append(self.pmra, vx[args:])
+            self.pmdec = np.append(self.pmdec, vy[args:])
+            self.vlos = np.append(self.vlos, vz[args:])
 
 
         if isamuse and (self.units_init is None or self.units_init == 'amuse'):
@@ -748,23 +757,19 @@ class StarCluster(object):
         self.vyb2=np.append(self.vyb2,vyb2)
         self.vzb2=np.append(self.vzb2,vzb2)
 
-        if mb1 is not None:
-            self.mb1=np.append(self.mb1,mb1)
-        else:
-            self.mb1=np.append(self.mb1,np.ones(len(xb1)))
-        if mb2 is not None:
-            self.mb2=np.append(self.mb2,mb2)
-        else:
-            self.mb2=np.append(self.mb2,np.ones(len(xb2)))
+        if mb1 is None: mb1=np.ones(len(np.atleast_1d(xb1)))
+        if mb2 is None: mb2=np.ones(len(np.atleast_1d(xb2)))
 
+        self.mb1=np.append(self.mb1,mb1)
+        self.mb2=np.append(self.mb2,mb2)
         if set_com and not return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=mb1+mb2
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             self.x = np.append(xcom,self.x)
             self.y = np.append(ycom,self.y)
@@ -780,7 +785,7 @@ class StarCluster(object):
                 else:
                     idstart=0
 
-                ids=idstart+np.linspace(0,len(xcom)-1,len(xcom))*2
+                ids=idstart+np.arange(0,len(np.atleast_1d(xcom)),dtype=int)*2
             else:
                 ids=id1
                 self.id1=np.append(self.id1,id1)
@@ -804,7 +809,10 @@ class StarCluster(object):
 
             if npop1 is not None and npop2 is not None:
                 npopb=np.maximum(npop1,npop2)
-                self.npop=np.append(npopb,self.npop).astype(int)
+            else:
+                npopb=np.ones(len(np.atleast_1d(xcom)))
+
+            self.npop=np.append(npopb,self.npop).astype(int)
 
             if npop1 is None:
                 self.npop1=np.append(np.ones(len(xcom)),self.npop1)
@@ -824,13 +832,13 @@ class StarCluster(object):
             self.ns=self.ntot-self.nb
 
         elif return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=mb1+mb2
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             return xcom,ycom,zcom,vxcom,vycom,vzcom,mcom
 
@@ -1195,26 +1203,26 @@ class StarCluster(object):
             self.kw[nstart+arg.astype(int)] = np.asarray(kw)
             self.logl[nstart+arg.astype(int)] = np.asarray(logl)
             self.logr[nstart+arg.astype(int)] = np.asarray(logr)
-            self.ep[nstart+arg.astype(int)]= np.array(ep)
-            self.ospin[nstart+arg.astype(int)] = np.array(ospin)
+            if ep is not None: self.ep[nstart+arg.astype(int)]= np.array(ep)
+            if ospin is not None: self.ospin[nstart+arg.astype(int)] = np.array(ospin)
 
         else:
             self.kw = np.append(self.kw,kw)
             self.logl = np.append(self.logl,logl)
             self.logr = np.append(self.logr,logr)
 
-        self.lum = 10.0 ** self.logl
-        self.ltot = np.sum(self.lum)
+            if ep is not None:
+                self.ep= np.append(self.ep,np.array(ep))
+            else:
+                self.ep= np.append(self.ep,np.zeros(len(kw)))
 
-        if ep is not None: 
-            self.ep= np.append(self.ep,np.array(ep))
-        else:
-            self.ep= np.append(self.ep,np.zeros(len(kw)))
+            if ospin is not None:
+                self.ospin = np.append(self.ospin,np.array(ospin))
+            else:
+                self.ospin = np.append(self.ospin,np.zeros(len(kw)))
 
-        if ospin is not None: 
-            self.ospin = np.append(self.ospin,np.array(ospin))
-        else:
-            self.ospin = np.append(self.ospin,np.zeros(len(kw)))
+        self.lum = 10.0 ** self.logl
+        self.ltot = np.sum(self.lum)
 
     def add_bse(
         self,
@@ -1302,6 +1310,7 @@ class StarCluster(object):
         self.eb=0.5*self.m1*self.m2/self.semi
 
         self.nb=len(self.id1)
+        if self.ntot>0: self.ns=self.ntot-self.nb
 
     def add_energies(self, kin, pot, etot=None):
         """ Add energy information for stars 
-- 
2.43.0


From 693f12affea0a2c73d95d713d0361e9977a5a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 27/80] fix: closest_star accepts amuse units; a sky path is
 matched to sky positions whatever the origin

---
 clustertools/analysis/functions.py | 16 ++++++++++++++--
 clustertools/analysis/orbits.py    |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index d9b2e8f..59547b7 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -952,6 +952,12 @@ def closest_star(cluster, projected=False, argument=False):
        2019 - Written - Webb (UofT)
     """
 
+    cluster.save_cluster()
+    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+
+    if cluster.units=='amuse':
+        cluster.to_pckms()
+
     if cluster.units=='radec' and cluster.origin=='sky':
 
         x=np.column_stack([cluster.x,cluster.y])
@@ -968,10 +974,16 @@ def closest_star(cluster, projected=False, argument=False):
         tree=cKDTree(x)
         dist, arg = tree.query(x, k=2)
 
+    dmin=dist[:,1]
+
+    if units0=='amuse':
+        cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        dmin=_convert_length(dmin,'pckms',cluster)
+
     if argument:
-        return dist[:,1],arg[:,1]
+        return dmin,arg[:,1]
     else:
-        return dist[:,1]
+        return dmin
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index faaedfb..0b42d62 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -846,7 +846,7 @@ def orbital_path_match(
     units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
     if skypath:
-        cluster.to_radec()
+        cluster.to_sky(sortstars=False)
         projected=True
     else:
         cluster.to_galaxy(sortstars=False)
-- 
2.43.0


From 266fe1c1aa8f69ca8ef822b50bd7e0e14dfe25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 28/80] fix: amuse sky path distances keep the unit they have
 always carried

---
 clustertools/analysis/orbits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 0b42d62..9fd86c9 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -1019,8 +1019,8 @@ def orbital_path_match(
 
     tstar=_convert_time(tstar,'kpckms',cluster)
 
-    #Distances along and from a path on the sky are in degrees
-    if not skypath:
+    #Distances along and from a path on the sky are in degrees, which amuse arrays carry as if they were kpc
+    if not skypath or cluster.units=='amuse':
         dprog=_convert_length(dprog,'kpckms',cluster)
         dpath=_convert_length(dpath,'kpckms',cluster)
 
-- 
2.43.0


From 81e07bd6ab8837a1031e3621f75e107708c6c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 29/80] fix: a plain path given with an amuse cluster keeps its
 default units

---
 clustertools/analysis/orbits.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 9fd86c9..0b4acce 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -766,6 +766,19 @@ def orbital_path(
         else:
             return t, x, y, z, vx, vy, vz
 
+def _path_values(values,convert,units,cluster):
+    """Express one coordinate of a path, given in units, in the units of the cluster as an array of floats"""
+
+    if units=='amuse':
+        if hasattr(values,'value_in'):
+            values=convert(values,units,cluster)
+        elif len(values)>0 and hasattr(values[0],'value_in'):
+            values=[convert(value,units,cluster) for value in values]
+
+        return np.array(values,dtype=float)
+
+    return convert(np.array(values,dtype=float),units,cluster)
+
 def orbital_path_match(
     cluster,
     tfinal=0.1,
@@ -869,16 +882,17 @@ def orbital_path_match(
     else:
         ts, x, y, z, vx, vy, vz = path
 
-        #Path is given in the same units as the cluster
-        ts=_convert_time(np.array(ts,dtype=float),units0,cluster)
+        #Path is given in the same units as the cluster, except that plain numbers
+        #given along with an amuse cluster are in Gyr, kpc and km/s
+        ts=_path_values(ts,_convert_time,units0,cluster)
 
         if not skypath:
-            x=_convert_length(np.array(x,dtype=float),units0,cluster)
-            y=_convert_length(np.array(y,dtype=float),units0,cluster)
-            z=_convert_length(np.array(z,dtype=float),units0,cluster)
-            vx=_convert_velocity(np.array(vx,dtype=float),units0,cluster)
-            vy=_convert_velocity(np.array(vy,dtype=float),units0,cluster)
-            vz=_convert_velocity(np.array(vz,dtype=float),units0,cluster)
+            x=_path_values(x,_convert_length,units0,cluster)
+            y=_path_values(y,_convert_length,units0,cluster)
+            z=_path_values(z,_convert_length,units0,cluster)
+            vx=_path_values(vx,_convert_velocity,units0,cluster)
+            vy=_path_values(vy,_convert_velocity,units0,cluster)
+            vz=_path_values(vz,_convert_velocity,units0,cluster)
 
     pindx = np.argmin(np.fabs(ts))
 
-- 
2.43.0


From 158c4ad94b2903df31ef7db64d60edff75f93f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 30/80] fix: a conversion that fails part way leaves the
 cluster in the frame its labels name

---
 clustertools/cluster/operations.py | 163 +++++++++++------------------
 1 file changed, 62 insertions(+), 101 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index edc14fe..f9a01a9 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -177,8 +177,10 @@ def to_kpckms(cluster,analyze=True):
             from_amuse(cluster)
 
         if cluster.units == "galpy":
-            cluster.tphys *= conversion.time_in_Gyr(ro=ro,vo=vo)
-            cluster.m *= conversion.mass_in_msol(ro=ro, vo=vo)
+            tcon = conversion.time_in_Gyr(ro=ro,vo=vo)
+            mcon = conversion.mass_in_msol(ro=ro, vo=vo)
+            cluster.tphys *= tcon
+            cluster.m *= mcon
             cluster.x *= ro
             cluster.y *= ro
             cluster.z *= ro
@@ -492,29 +494,17 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
                 [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
             )
 
+            #Evaluate everything before changing any of the cluster's arrays
+            stars=(orbits.ra(),orbits.dec(),orbits.dist(),orbits.pmra(),orbits.pmdec(),orbits.vlos())
+            gc=(orbit.ra(),orbit.dec(),orbit.dist(),orbit.pmra(),orbit.pmdec(),orbit.vlos())
+            centre=(oc.ra(),oc.dec(),oc.dist(),oc.pmra(),oc.pmdec(),oc.vlos())
+
             if cluster.orbit is None: cluster.orbit=orbit
             cluster.orbits=orbits
 
-            cluster.ra=orbits.ra()
-            cluster.dec=orbits.dec()
-            cluster.dist=orbits.dist()
-            cluster.pmra=orbits.pmra()
-            cluster.pmdec=orbits.pmdec()
-            cluster.vlos=orbits.vlos()
-
-            cluster.ra_gc=orbit.ra()
-            cluster.dec_gc=orbit.dec()
-            cluster.dist_gc=orbit.dist()
-            cluster.pmra_gc=orbit.pmra()
-            cluster.pmdec_gc=orbit.pmdec()
-            cluster.vlos_gc=orbit.vlos()
-
-            cluster.ra_c=oc.ra()
-            cluster.dec_c=oc.dec()
-            cluster.dist_c=oc.dist()
-            cluster.pmra_c=oc.pmra()
-            cluster.pmdec_c=oc.pmdec()
-            cluster.vlos_c=oc.vlos()
+            cluster.ra,cluster.dec,cluster.dist,cluster.pmra,cluster.pmdec,cluster.vlos=stars
+            cluster.ra_gc,cluster.dec_gc,cluster.dist_gc,cluster.pmra_gc,cluster.pmdec_gc,cluster.vlos_gc=gc
+            cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c=centre
 
             cluster.x = copy(cluster.ra)
             cluster.y = copy(cluster.dec)
@@ -598,30 +588,17 @@ def from_radec(cluster, sortstars=True):
                     [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
                 )
 
+            #Evaluate everything before changing any of the cluster's arrays
+            stars=(orbits.x(),orbits.y(),orbits.z(),orbits.vx(),orbits.vy(),orbits.vz())
+            gc=(orbit.x(),orbit.y(),orbit.z(),orbit.vx(),orbit.vy(),orbit.vz())
+            centre=(oc.x()-gc[0],oc.y()-gc[1],oc.z()-gc[2],oc.vx()-gc[3],oc.vy()-gc[4],oc.vz()-gc[5])
+
             if cluster.orbit is None: cluster.orbit=orbit
             cluster.orbits=orbits
 
-            # The centre is stored with respect to the cluster's orbit
-            cluster.xc=oc.x()-orbit.x()
-            cluster.yc=oc.y()-orbit.y()
-            cluster.zc=oc.z()-orbit.z()
-            cluster.vxc=oc.vx()-orbit.vx()
-            cluster.vyc=oc.vy()-orbit.vy()
-            cluster.vzc=oc.vz()-orbit.vz()
-
-            cluster.x = orbits.x()
-            cluster.y = orbits.y()
-            cluster.z = orbits.z()
-            cluster.vx = orbits.vx()
-            cluster.vy = orbits.vy()
-            cluster.vz = orbits.vz()
-
-            cluster.xgc = orbit.x()
-            cluster.ygc = orbit.y()
-            cluster.zgc = orbit.z()
-            cluster.vxgc = orbit.vx()
-            cluster.vygc = orbit.vy()
-            cluster.vzgc = orbit.vz()
+            cluster.xc,cluster.yc,cluster.zc,cluster.vxc,cluster.vyc,cluster.vzc=centre
+            cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz=stars
+            cluster.xgc,cluster.ygc,cluster.zgc,cluster.vxgc,cluster.vygc,cluster.vzgc=gc
 
             cluster.origin = "galaxy"
             cluster.units = "kpckms"
@@ -661,8 +638,10 @@ def to_galpy(cluster,analyze=True):
             cluster.to_kpckms(analyze=False)
 
         if cluster.units == "kpckms":
-            cluster.tphys /= conversion.time_in_Gyr(ro=ro, vo=vo)
-            cluster.m = cluster.m / conversion.mass_in_msol(ro=ro, vo=vo)
+            tcon = conversion.time_in_Gyr(ro=ro, vo=vo)
+            mcon = conversion.mass_in_msol(ro=ro, vo=vo)
+            cluster.tphys /= tcon
+            cluster.m = cluster.m / mcon
             cluster.x /= ro
             cluster.y /= ro
             cluster.z /= ro
@@ -760,30 +739,18 @@ def to_amuse(cluster,analyze=True):
 
         cluster.to_pckms(analyze=False)
 
-        cluster.tphys = cluster.tphys | u.Myr
-
-        cluster.x=cluster.x | u.parsec
-        cluster.y=cluster.y | u.parsec
-        cluster.z=cluster.z | u.parsec
-        cluster.vx=cluster.vx | u.kms
-        cluster.vy=cluster.vy | u.kms
-        cluster.vz=cluster.vz | u.kms
-        cluster.m=cluster.m | u.MSun
-
-        cluster.xc=cluster.xc | u.parsec
-        cluster.yc=cluster.yc | u.parsec
-        cluster.zc=cluster.zc | u.parsec
-        cluster.vxc=cluster.vxc | u.kms
-        cluster.vyc=cluster.vyc | u.kms
-        cluster.vzc=cluster.vzc | u.kms
-
-        cluster.xgc=cluster.xgc | u.parsec
-        cluster.ygc=cluster.ygc | u.parsec
-        cluster.zgc=cluster.zgc | u.parsec
-        cluster.vxgc=cluster.vxgc | u.kms
-        cluster.vygc=cluster.vygc | u.kms
-        cluster.vzgc=cluster.vzgc | u.kms
+        #Every quantity is given its units before any of the cluster's arrays change
+        tphys = cluster.tphys | u.Myr
+        m = cluster.m | u.MSun
+        stars = [cluster.x | u.parsec,cluster.y | u.parsec,cluster.z | u.parsec,cluster.vx | u.kms,cluster.vy | u.kms,cluster.vz | u.kms]
+        centre = [cluster.xc | u.parsec,cluster.yc | u.parsec,cluster.zc | u.parsec,cluster.vxc | u.kms,cluster.vyc | u.kms,cluster.vzc | u.kms]
+        gc = [cluster.xgc | u.parsec,cluster.ygc | u.parsec,cluster.zgc | u.parsec,cluster.vxgc | u.kms,cluster.vygc | u.kms,cluster.vzgc | u.kms]
 
+        cluster.tphys = tphys
+        cluster.m = m
+        cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz = stars
+        cluster.xc,cluster.yc,cluster.zc,cluster.vxc,cluster.vyc,cluster.vzc = centre
+        cluster.xgc,cluster.ygc,cluster.zgc,cluster.vxgc,cluster.vygc,cluster.vzgc = gc
 
         cluster.units = "amuse"
 
@@ -809,30 +776,18 @@ def from_amuse(cluster):
 
     if cluster.units == 'amuse':
 
-        cluster.tphys = cluster.tphys.value_in(u.Myr)
-
-        cluster.x=cluster.x.value_in(u.parsec)
-        cluster.y=cluster.y.value_in(u.parsec)
-        cluster.z=cluster.z.value_in(u.parsec)
-        cluster.vx=cluster.vx.value_in(u.kms)
-        cluster.vy=cluster.vy.value_in(u.kms)
-        cluster.vz=cluster.vz.value_in(u.kms)
-        cluster.m=cluster.m.value_in(u.MSun)
-
-        cluster.xc=cluster.xc.value_in(u.parsec)
-        cluster.yc=cluster.yc.value_in(u.parsec)
-        cluster.zc=cluster.zc.value_in(u.parsec)
-        cluster.vxc=cluster.vxc.value_in(u.kms)
-        cluster.vyc=cluster.vyc.value_in(u.kms)
-        cluster.vzc=cluster.vzc.value_in(u.kms)
-
-        cluster.xgc=cluster.xgc.value_in(u.parsec)
-        cluster.ygc=cluster.ygc.value_in(u.parsec)
-        cluster.zgc=cluster.zgc.value_in(u.parsec)
-        cluster.vxgc=cluster.vxgc.value_in(u.kms)
-        cluster.vygc=cluster.vygc.value_in(u.kms)
-        cluster.vzgc=cluster.vzgc.value_in(u.kms)
+        #Every value is taken before any of the cluster's arrays change
+        tphys = cluster.tphys.value_in(u.Myr)
+        m = cluster.m.value_in(u.MSun)
+        stars = [q.value_in(u.parsec) for q in (cluster.x,cluster.y,cluster.z)]+[q.value_in(u.kms) for q in (cluster.vx,cluster.vy,cluster.vz)]
+        centre = [q.value_in(u.parsec) for q in (cluster.xc,cluster.yc,cluster.zc)]+[q.value_in(u.kms) for q in (cluster.vxc,cluster.vyc,cluster.vzc)]
+        gc = [q.value_in(u.parsec) for q in (cluster.xgc,cluster.ygc,cluster.zgc)]+[q.value_in(u.kms) for q in (cluster.vxgc,cluster.vygc,cluster.vzgc)]
 
+        cluster.tphys = tphys
+        cluster.m = m
+        cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz = stars
+        cluster.xc,cluster.yc,cluster.zc,cluster.vxc,cluster.vyc,cluster.vzc = centre
+        cluster.xgc,cluster.ygc,cluster.zgc,cluster.vxgc,cluster.vygc,cluster.vzgc = gc
 
         cluster.units = "pckms"
 
@@ -1147,25 +1102,27 @@ def _get_orthographic_centre(cluster,from_centre=False):
             ra_gc = copy(np.radians(cluster.xgc))
             dec_gc = copy(np.radians(cluster.ygc))
 
-        cluster.x = np.cos(dec) * np.sin(ra - ra_gc)
-        cluster.y = np.sin(dec) * np.cos(dec_gc) - np.cos(dec) * np.sin(
+        #Evaluate everything before changing any of the cluster's arrays
+        x = np.cos(dec) * np.sin(ra - ra_gc)
+        y = np.sin(dec) * np.cos(dec_gc) - np.cos(dec) * np.sin(
             dec_gc
         ) * np.cos(ra - ra_gc)
 
-
-        cluster.x*=(180.0/np.pi)
-        cluster.y*=(180.0/np.pi)
-
-        cluster.vx = pmra * np.cos(ra - ra_gc) - pmdec * np.sin(dec) * np.sin(
+        vx = pmra * np.cos(ra - ra_gc) - pmdec * np.sin(dec) * np.sin(
             ra - ra_gc
         )
-        cluster.vy = pmra * np.sin(dec_gc) * np.sin(
+        vy = pmra * np.sin(dec_gc) * np.sin(
             ra - ra_gc
         ) + cluster.pmdec * (
             np.cos(dec) * np.cos(dec_gc)
             + np.sin(dec) * np.sin(dec_gc) * np.cos(ra - ra_gc)
         )
 
+        cluster.x = x*(180.0/np.pi)
+        cluster.y = y*(180.0/np.pi)
+        cluster.vx = vx
+        cluster.vy = vy
+
         cluster.vx-=cluster.vxgc
         cluster.vy-=cluster.vygc
 
@@ -1197,10 +1154,11 @@ def _get_vandeven_centre(cluster,from_centre=False):
             ra_gc = np.radians(cluster.xgc)
             dec_gc = np.radians(cluster.ygc)
 
-        cluster.x = (
+        #Evaluate everything before changing any of the cluster's arrays
+        x = (
             (180.0 / np.pi) * np.cos(dec) * np.sin(ra - ra_gc)
         )
-        cluster.y = (
+        y = (
             (180.0 / np.pi)
             * (
                 np.sin(dec) * np.cos(dec_gc)
@@ -1208,6 +1166,9 @@ def _get_vandeven_centre(cluster,from_centre=False):
             )
         )
 
+        cluster.x = x
+        cluster.y = y
+
         if from_centre:
             cluster.z -= cluster.zc
 
-- 
2.43.0


From 1adeea2fc71b8ee51892a860326bf1761bf3d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 31/80] fix: amuse particles and galpy orbits can be loaded
 along with an orbit file

---
 clustertools/io/amuse.py   | 4 ++--
 clustertools/io/galpydf.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/io/amuse.py b/clustertools/io/amuse.py
index 0b55c70..dec932d 100644
--- a/clustertools/io/amuse.py
+++ b/clustertools/io/amuse.py
@@ -69,7 +69,7 @@ def _get_amuse_particles(
 
     if origin == "galaxy":
         if ofile is not None:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _get_cluster_orbit(cluster, ofile, advance=False, **kwargs)
         else:
             cluster.find_centre()
 
@@ -91,6 +91,6 @@ def _get_amuse_particles(
             cluster.analyze(sortstars=sortstars)
 
         if ofile != None:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _get_cluster_orbit(cluster, ofile, advance=False, **kwargs)
 
     return cluster
diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index 2d71c9d..a200a9a 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -76,7 +76,7 @@ def _get_galpy_orbits(
         if ofile == None:
             cluster.find_centre()
         else:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _get_cluster_orbit(cluster, ofile, advance=False, **kwargs)
 
         if kwargs.get("analyze", True):
             sortstars=kwargs.get("sortstars", True)
@@ -92,7 +92,7 @@ def _get_galpy_orbits(
             cluster.analyze(sortstars=sortstars)
 
         if ofile != None:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _get_cluster_orbit(cluster, ofile, advance=False, **kwargs)
 
     return cluster
 
-- 
2.43.0


From ea03a904bb957708f114e9faef2b737c4f51bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 32/80] fix: binaries added star by star keep their ids and
 data aligned, and can be cut into a sub-cluster

---
 clustertools/cluster/cluster.py | 35 ++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index a2fe8e7..fb553b6 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -788,7 +788,8 @@ class StarCluster(object):
                 ids=idstart+np.arange(0,len(np.atleast_1d(xcom)),dtype=int)*2
             else:
                 ids=id1
-                self.id1=np.append(self.id1,id1)
+
+            self.id1=np.append(self.id1,ids)
 
             self.id=np.append(ids,self.id)
 
@@ -800,12 +801,12 @@ class StarCluster(object):
             if m01 is not None and m02 is not None:
                 self.m0=np.append(m01+m02,self.m0)
             else:
-                self.m0=np.append(np.zeros(len(xcom)),self.m0)
+                self.m0=np.append(np.zeros(len(np.atleast_1d(xcom))),self.m0)
 
             if m01 is not None:
-                self.m01=np.append(m01,self.m01)
+                self.m01=np.append(self.m01,m01)
             if m02 is not None:
-                self.m02=np.append(m02,self.m02)
+                self.m02=np.append(self.m02,m02)
 
             if npop1 is not None and npop2 is not None:
                 npopb=np.maximum(npop1,npop2)
@@ -815,18 +816,18 @@ class StarCluster(object):
             self.npop=np.append(npopb,self.npop).astype(int)
 
             if npop1 is None:
-                self.npop1=np.append(np.ones(len(xcom)),self.npop1)
+                self.npop1=np.append(self.npop1,np.ones(len(np.atleast_1d(xcom))))
             elif isinstance(npop1,float):
-                self.npop1=np.append(np.ones(len(xcom))*npop1,self.npop1)
+                self.npop1=np.append(self.npop1,np.ones(len(np.atleast_1d(xcom)))*npop1)
             else:
-                self.npop1=np.append(npop1,self.npop1)
+                self.npop1=np.append(self.npop1,npop1)
 
             if npop2 is None:
-                self.npop2=np.append(np.ones(len(xcom)),self.npop2)
+                self.npop2=np.append(self.npop2,np.ones(len(np.atleast_1d(xcom))))
             elif isinstance(npop2,float):
-                self.npop2=np.append(np.ones(len(xcom))*npop2,self.npop2)
+                self.npop2=np.append(self.npop2,np.ones(len(np.atleast_1d(xcom)))*npop2)
             else:
-                self.npop2=np.append(npop2,self.npop2)
+                self.npop2=np.append(self.npop2,npop2)
 
             self.ntot = len(self.x)
             self.ns=self.ntot-self.nb
@@ -4168,7 +4169,11 @@ def sub_cluster(
 
         if cluster.ns+cluster.nb==cluster.ntot:
             #Numbers of single and binary stars are those of the subset
-            subcluster.nb=int(np.sum(np.logical_or(np.isin(cluster.id1,cluster.id[indx]),np.isin(cluster.id2,cluster.id[indx]))))
+            if len(cluster.id1)==0:
+                #Binaries added with add_stars(nb=) are the first nb stars
+                subcluster.nb=int(np.sum(np.arange(cluster.ntot)[indx] < cluster.nb))
+            else:
+                subcluster.nb=int(np.sum(np.logical_or(np.isin(cluster.id1,cluster.id[indx]),np.isin(cluster.id2,cluster.id[indx]))))
             subcluster.ns=subcluster.ntot-subcluster.nb
 
         subcluster.projected = cluster.projected
@@ -4199,8 +4204,14 @@ def sub_cluster(
             bindx2 = np.isin(cluster.id2, cluster.id[indx])
             bindx=np.logical_or(bindx1,bindx2)
 
+            for name in ('xb1','yb1','zb1','vxb1','vyb1','vzb1','xb2','yb2','zb2','vxb2','vyb2','vzb2','mb1','mb2','m01','m02','npop1','npop2'):
+                if len(getattr(cluster,name)) == len(bindx):
+                    setattr(subcluster,name,getattr(cluster,name)[bindx])
 
-            if len(cluster.ep1) !=0 and len(cluster.ospin1) != 0:
+            if len(cluster.kw1) != len(bindx):
+                #Binaries have no stellar evolution data
+                subcluster.id1,subcluster.id2=cluster.id1[bindx],cluster.id2[bindx]
+            elif len(cluster.ep1) !=0 and len(cluster.ospin1) != 0:
 
                 subcluster.add_bse(
                     cluster.id1[bindx],
-- 
2.43.0


From 39fb4771fb012b0186510008f2d4c8433d1bf319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 33/80] fix: a sub-cluster with a reset centre keeps the
 velocity of the centre it is given, and stars can be added without sorting

---
 clustertools/cluster/cluster.py | 82 +++++++++++++++------------------
 1 file changed, 38 insertions(+), 44 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index fb553b6..ddb1785 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1447,7 +1447,11 @@ class StarCluster(object):
         self.rmeanpro = np.mean(self.rpro)
         self.rmaxpro = np.max(self.rpro)
 
-        if sortstars: self.sortstars(projected=projected)
+        if sortstars:
+            self.sortstars(projected=projected)
+        elif self.rorder is not None and len(self.rorder)!=len(self.x):
+            #An order made before stars were added does not describe the current stars
+            self.sortstars()
 
         # Find half-mass radius
 
@@ -4268,55 +4272,45 @@ def sub_cluster(
             subcluster.eps=cluster.eps[indx]
 
 
-        if reset_centre:
-            subcluster.add_orbit(
-                cluster.xgc,
-                cluster.ygc,
-                cluster.zgc,
-                cluster.vxgc,
-                cluster.vygc,
-                cluster.vzgc,
-            )
+        subcluster.add_orbit(
+            cluster.xgc,
+            cluster.ygc,
+            cluster.zgc,
+            cluster.vxgc,
+            cluster.vygc,
+            cluster.vzgc,
+        )
+        subcluster.xc, subcluster.yc, subcluster.zc = (
+            cluster.xc,
+            cluster.yc,
+            cluster.zc,
+        )
+        subcluster.vxc, subcluster.vyc, subcluster.vzc = (
+            cluster.vxc,
+            cluster.vyc,
+            cluster.vzc,
+        )
 
+        subcluster.ra_gc, subcluster.dec_gc, subcluster.dist_gc = cluster.ra_gc, cluster.dec_gc, cluster.dist_gc
+        subcluster.pmra_gc, subcluster.pmdec_gc, subcluster.vlos_gc = (
+            cluster.pmra_gc,
+            cluster.pmdec_gc,
+            cluster.vlos_gc,
+        )
+
+        subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
+        subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = (
+            cluster.pmra_c,
+            cluster.pmdec_c,
+            cluster.vlos_c,
+        )
+
+        if reset_centre:
             if cluster.origin=='centre' or cluster.origin=='cluster':
                 subcluster.find_centre(0.0, 0.0, 0.0, reset_centre=reset_centre)
             else:
                 subcluster.find_centre(reset_centre=reset_centre)
 
-        else:
-            subcluster.add_orbit(
-                cluster.xgc,
-                cluster.ygc,
-                cluster.zgc,
-                cluster.vxgc,
-                cluster.vygc,
-                cluster.vzgc,
-            )
-            subcluster.xc, subcluster.yc, subcluster.zc = (
-                cluster.xc,
-                cluster.yc,
-                cluster.zc,
-            )
-            subcluster.vxc, subcluster.vyc, subcluster.vzc = (
-                cluster.vxc,
-                cluster.vyc,
-                cluster.vzc,
-            )
-
-            subcluster.ra_gc, subcluster.dec_gc, subcluster.dist_gc = cluster.ra_gc, cluster.dec_gc, cluster.dist_gc
-            subcluster.pmra_gc, subcluster.pmdec_gc, subcluster.vlos_gc = (
-                cluster.pmra_gc,
-                cluster.pmdec_gc,
-                cluster.vlos_gc,
-            )
-
-            subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
-            subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = (
-                cluster.pmra_c,
-                cluster.pmdec_c,
-                cluster.vlos_c,
-            )
-
         if reset_nbody:
             subcluster.to_pckms()
             subcluster.analyze()
-- 
2.43.0


From 0d91c17f6d32be78d756e464dc3b50ba95d092d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 34/80] fix: stars and binaries can be added to a cluster with
 evolution data, and unnamed binaries get ids of their own

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ddb1785..d78c2ca 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -781,7 +781,7 @@ class StarCluster(object):
 
             if id1 is None:
                 if len(self.id)!=0:
-                    idstart=np.amax(self.id)+1
+                    idstart=int(np.amax(np.append(self.id,self.id2)))+1
                 else:
                     idstart=0
 
@@ -1470,7 +1470,7 @@ class StarCluster(object):
             self.r10pro = self.rpro[self.rproorder[indx][0]]
 
 
-        if len(self.lum) > 0 and self.rorder is not None:
+        if len(self.lum) == len(self.x) and self.rorder is not None:
             lsum = np.cumsum(self.lum[self.rorder])
             indx = lsum >= 0.5 * self.ltot
             self.rh = self.r[self.rorder[indx][0]]
-- 
2.43.0


From 71c19117b94dda648d9b2fc73f4ce091bca2228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 35/80] fix: a sub-cluster of a sky frame does not keep the sky
 centre it is asked to replace

---
 clustertools/cluster/cluster.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d78c2ca..cd66fcf 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4298,12 +4298,14 @@ def sub_cluster(
             cluster.vlos_gc,
         )
 
-        subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
-        subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = (
-            cluster.pmra_c,
-            cluster.pmdec_c,
-            cluster.vlos_c,
-        )
+        if not (reset_centre and cluster.units=='radec'):
+            #The sky position of a centre that is about to be replaced is not the sub-cluster's
+            subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
+            subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = (
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            )
 
         if reset_centre:
             if cluster.origin=='centre' or cluster.origin=='cluster':
-- 
2.43.0


From 7d37658321bc5eeff0ada35d5247798ebbe7790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 36/80] fix: a galpy orbit given to load or advance sets the
 orbit in the cluster's own units and time

---
 clustertools/io/load.py | 106 ++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 63 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 79aff57..9dfdad7 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -290,48 +290,7 @@ def load_cluster(
 
     # Add galpy orbit if given
     if orbit is not None:
-        cluster.orbit = orbit
-        if cluster.units == "pckms":
-            t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0,
-                orbit.y(t) * 1000.0,
-                orbit.z(t) * 1000.0,
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        if cluster.units == "kpckms":
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        elif cluster.units == "nbody":
-            t = (cluster.tphys * cluster.tbar / 1000.0) / conversion.time_in_Gyr(
-                ro=solar_ro, vo=solar_vo
-            )
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0 / cluster.rbar,
-                orbit.y(t) * 1000.0 / cluster.rbar,
-                orbit.z(t) * 1000.0 / cluster.rbar,
-                orbit.vx(t) / cluster.vbar,
-                orbit.vy(t) / cluster.vbar,
-                orbit.vz(t) / cluster.vbar,
-            )
-        elif cluster.units == "galpy":
-            t = cluster.tphys
-            cluster.add_orbit(
-                orbit.x(t) / 8.0,
-                orbit.y(t) / 8.0,
-                orbit.z(t) / 8.0,
-                orbit.vx(t) / 220.0,
-                orbit.vy(t) / 220.0,
-                orbit.vz(t) / 220.0,
-            )
+        _add_galpy_orbit(cluster,orbit)
 
         cluster.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
@@ -345,7 +304,7 @@ def load_cluster(
     elif initialize:
         origin0=cluster.origin
         cluster.to_galaxy()
-        solarmotion=kwargs.get('solarmotion',[-11.1, 24.0, 7.25])
+        solarmotion=kwargs.get('solarmotion',cluster._solarmotion)
         initialize_orbit(cluster,solarmotion=solarmotion)
         cluster.to_origin(origin0)
         
@@ -623,29 +582,50 @@ def advance_cluster(
 
         # Add galpy orbit if given
         if orbit != None:
-            cluster.orbit = orbit
-            if cluster.units == "pckms" or cluster.units == "kpckms":
-                t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(
-                    ro=solar_ro, vo=solar_vo
-                )
-            elif cluster.units == "nbody":
-                t = (
-                    cluster.tphys * cluster.tbar / 1000.0
-                ) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            elif cluster.units == "galpy":
-                t = cluster.tphys
-
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
+            _add_galpy_orbit(cluster,orbit)
 
     return cluster
 
+def _add_galpy_orbit(cluster,orbit):
+    """Set a cluster's galactocentric position and velocity from a galpy orbit at the cluster's time
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster
+    orbit : class
+        galpy orbit
+
+    Returns
+    -------
+    None
+    """
+    cluster.orbit = orbit
+
+    # Time in Gyr
+    if cluster.units == "pckms" or cluster.units == "pcmyr":
+        t = cluster.tphys / 1000.0
+    elif cluster.units == "nbody":
+        t = cluster.tphys * cluster.tbar / 1000.0
+    elif cluster.units == "galpy":
+        t = cluster.tphys * conversion.time_in_Gyr(ro=cluster._ro, vo=cluster._vo)
+    elif cluster.units == "kpckms" or cluster.units == "kpcgyr" or cluster.units == "WDunits":
+        t = cluster.tphys
+    else:
+        return
+
+    t /= conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
+
+    cluster.add_orbit(
+        orbit.x(t),
+        orbit.y(t),
+        orbit.z(t),
+        orbit.vx(t),
+        orbit.vy(t),
+        orbit.vz(t),
+        ounits="kpckms",
+    )
+
 def _get_filename(filename,**kwargs):
     """assemble filename from **kwargs
 
-- 
2.43.0


From 8776f6bacee206615da103132f708366b30b4954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 37/80] fix: a new_gyrfalcon snapshot that is missing stars is
 refused, and its end of file keeps the file's type

---
 clustertools/io/gyrfalcon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/gyrfalcon.py b/clustertools/io/gyrfalcon.py
index f69fde5..f9f1d90 100644
--- a/clustertools/io/gyrfalcon.py
+++ b/clustertools/io/gyrfalcon.py
@@ -226,7 +226,7 @@ def _get_new_gyrfalcon(
         data = filein.readline().split()
         if len(data) == 0:
             print("END OF FILE")
-            return StarCluster(0.0,ctype="nemo",**kwargs)
+            return StarCluster(0.0,ctype="new_nemo",**kwargs)
         elif "#" not in data:
             over_head = True
             print("OVER HEAD")
@@ -246,7 +246,7 @@ def _get_new_gyrfalcon(
             data = filein.readline().split()
             if len(data) == 0:
                 print("END OF FILE")
-                return StarCluster(0.0,ctype="nemo",**kwargs)
+                return StarCluster(0.0,ctype="new_nemo",**kwargs)
             elif "#" not in data:
                 over_head = True
                 print("OVER HEAD")
@@ -282,11 +282,17 @@ def _get_new_gyrfalcon(
         nskip=(skiprows+ntot)*cluster.nsnap+skiprows
 
     try:
-        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot)
+        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot,ndmin=2)
     except StopIteration:
         print("END OF FILE")
         return StarCluster(0.0,ctype="new_nemo",**kwargs)
 
+    if len(data)==0:
+        print("END OF FILE")
+        return StarCluster(0.0,ctype="new_nemo",**kwargs)
+    elif len(data)!=ntot:
+        raise ValueError("%s ends in the middle of a snapshot: %i of %i stars found" % (filename,len(data),ntot))
+
     m=data[:,0].astype(float)
     x=data[:,1].astype(float)
     y=data[:,2].astype(float)
-- 
2.43.0


From cd8cd494410a2a68202355560a1bc1c859297872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 38/80] fix: the nbody6 loader keeps its directories, reads
 evolution and orbit files only with a snapshot, and gives each binary its own
 luminosity

---
 clustertools/io/nbody6.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index f88cfae..f5f88ee 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -59,6 +59,9 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
             origin="cluster",
             ctype="nbody6",
             sfile=out3,
+            nsnap=kwargs.get("nsnap", 0),
+            wdir=kwargs.get("wdir", "./"),
+            snapdir=kwargs.get("snapdir", ""),
         )
                 
         if nstot > 0:
@@ -81,7 +84,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     if nstot > 0:
         cluster.add_stars(xs, ys, zs, vxs, vys, vzs, ms, i_ds)
 
-    if fort82 is not None and fort83 is not None:
+    if fort82 is not None and fort83 is not None and ntot > 0:
         cluster.ssefile=fort83
         cluster.bsefile=fort82
         i_d,kw,ri,m1,zl1,r1,te,i_d1,i_d2,kw1,kw2,kwb,rib,ecc,pb,semi,m1b,m2b,zl1b,zl2b,r1b,r2b,te1,te2=_get_nbody6se(fort82,fort83,**kwargs)
@@ -98,7 +101,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
         sortstars=kwargs.get("sortstars", True)
         cluster.analyze(sortstars=sortstars)
 
-    if ofile != None:
+    if ofile != None and ntot > 0:
         _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
             
     return cluster
@@ -295,7 +298,7 @@ def _get_nbody6se(fort82, fort83, **kwargs):
 
             #Add select parametes to full array
             kw=np.append(kw,kwb[-1])
-            lbtot=np.log10(10.0**np.asarray(zl1b)+10.0**np.asarray(zl2b))
+            lbtot=np.log10(10.0**zl1b[-1]+10.0**zl2b[-1])
             zl1=np.append(zl1,lbtot)
             r1=np.append(r1,np.maximum(r1b[-1],r2b[-1]))
 
-- 
2.43.0


From b8125726dcf23b7ec07cc6af7ef087c6fb1fe41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 39/80] fix: the nbody6++ loader keeps its snapshot directory,
 counts binaries once and reads potentials, luminosities and one-binary files
 as written

---
 clustertools/io/nbody6pp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index abc251e..6d877fd 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -91,6 +91,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             sfile=snap40,
             nsnap=nsnap,
             wdir=wdir,
+            snapdir=snapdir,
         )
 
         cluster.hdf5=True
@@ -172,11 +173,12 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             sfile=conf3,
             nsnap=nsnap,
             wdir=wdir,
+            snapdir=snapdir,
         )
 
         if ntot > 0:
             cluster.add_nbody6(
-            alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], ntot, alist[1], ntot+alist[1]
+            alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], ntot, 0, ntot+alist[1]
         )
             nb=int(alist[1])
             cluster.add_stars(x, y, z, vx, vy, vz, m, i_d,nb=nb,analyze=False)
@@ -237,7 +239,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
         sortstars=kwargs.get("sortstars", True)
         cluster.analyze(sortstars=sortstars)
 
-    if ofile != None:
+    if ofile != None and ntot > 0:
         _get_cluster_orbit(cluster, ofile, advance=advance, nsnap=int(nsnap/dtout),**kwargs)
            
 
@@ -303,7 +305,7 @@ def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs):
             vz=np.append(vz,struct.unpack('f',f.read(4))[0]) 
 
         for i in range(ntot):
-            phi=np.append(phi,struct.unpack('i',f.read(4))[0])            
+            phi=np.append(phi,struct.unpack('f',f.read(4))[0])            
 
         for i in range(ntot):
             i_d=np.append(i_d,struct.unpack('i',f.read(4))[0])
@@ -361,7 +363,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
         m1b=data[:,12].astype(float)
         m2b=data[:,13].astype(float)
 
-        if len(data)>=14:
+        if data.shape[1]>14:
             zl1b=data[:,14].astype(float)
             zl2b=data[:,15].astype(float)
             r1b=data[:,16].astype(float)
@@ -432,7 +434,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     kw=data[:,3].astype(int)
     ri=data[:,4].astype(float)
     m1=data[:,5].astype(float)
-    zl1=data[:,6].astype(int)
+    zl1=data[:,6].astype(float)
     r1=data[:,7].astype(float)
     te=data[:,8].astype(float)
 
-- 
2.43.0


From 0f536aa80dbabe8b09e69440c9ed0372aee00827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 40/80] fix: a fractional snapshot number is not truncated when
 a cluster is loaded or advanced

---
 clustertools/cluster/cluster.py | 3 ++-
 clustertools/io/load.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index cd66fcf..51bfeb4 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -158,7 +158,8 @@ class StarCluster(object):
         self.projected = projected
 
         # Kwargs
-        self.nsnap = int(kwargs.get("nsnap", 0))
+        self.nsnap = kwargs.get("nsnap", 0)
+        if not isinstance(self.nsnap, float): self.nsnap = int(self.nsnap)
         self.delimiter = kwargs.get("delimiter", None)
         self.wdir = kwargs.get("wdir", "./")
         self.nzfill = int(kwargs.get("nzfill", 5))
diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 9dfdad7..21cf11d 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -710,7 +710,7 @@ def _get_advanced_kwargs(cluster, **kwargs):
     2018 - Written - Webb (UofT)
     """
 
-    nsnap = np.maximum(int(kwargs.pop("nsnap", 0)), cluster.nsnap) + 1
+    nsnap = np.maximum(kwargs.pop("nsnap", 0), cluster.nsnap) + 1
     dt = kwargs.pop('dt',cluster.dt)
     delimiter = kwargs.pop("delimiter", cluster.delimiter)
     wdir = kwargs.pop("wdir", cluster.wdir)
-- 
2.43.0


From b1573128430a42425fcecddb39ac7929dc08f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 41/80] fix: advancing a gyrfalcon cluster keeps the columns it
 was opened with

---
 clustertools/io/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 21cf11d..9b273b1 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -727,7 +727,7 @@ def _get_advanced_kwargs(cluster, **kwargs):
 
     otime = kwargs.pop("otime", False)
 
-    give = kwargs.pop('give','mxv')
+    give = kwargs.pop('give',cluster.give)
 
     hdf5 = kwargs.pop('hdf5',cluster.hdf5)
     ngroups = kwargs.pop('ngroups',cluster.ngroups)
-- 
2.43.0


From 243100edd53eab968919ba792d19078f53ca153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 42/80] fix: advancing past the last nbody6++ hdf5 file gives
 an empty cluster

---
 clustertools/io/load.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 9b273b1..405091c 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -432,8 +432,12 @@ def advance_cluster(
                 else:
                     conf3=None
 
-                snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
-                cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                if os.path.isfile("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap)):
+                    snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
+                    cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                else:
+                    print("NO FILE FOUND: %s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap))
+                    cluster = StarCluster(0.,units="nbody",origin="cluster",ctype="nbody6++",nsnap=nsnap,wdir=wdir,snapdir=snapdir)
 
         else:
             deltat=kwargs.pop('deltat',1)
-- 
2.43.0


From 8b063a0fdd99acaf76065b65dfa0ac014e2984d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 43/80] fix: advancing into a restart directory keeps the file
 type, units, origin and options the simulation was opened with

---
 clustertools/io/load.py | 63 +++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 405091c..31370a6 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -354,13 +354,20 @@ def advance_cluster(
     2018 - Written - Webb (UofT)
     """
     nsnap=None
+
+    # What the cluster was opened with, in case the simulation continues in a restart directory
+    ctype_init,units_init,origin_init,sfile_init=cluster.ctype,cluster.units_init,cluster.origin_init,cluster.sfile
+    restart_options={key: kwargs[key] for key in ("col_names","col_nums","dtout","deltat","filetype") if key in kwargs}
+    restart_options["hdf5"]=kwargs.get("hdf5",cluster.hdf5)
+
     advance_kwargs, kwargs = _get_advanced_kwargs(cluster, **kwargs)
     #filename=_get_filename(filename,**advance_kwargs)
 
     if ofile is None:
         ofile=cluster.ofile
 
-    if kwargs.get("ofilename", None) is None:
+    ofilename=kwargs.get("ofilename", None)
+    if ofilename is None:
         ofilename=cluster.ofilename
 
     wdir = advance_kwargs.get("wdir", "")
@@ -550,34 +557,48 @@ def advance_cluster(
 
     # Check for restart
     if cluster.ntot == 0.0:
-        try:
-            wdir = cluster.wdir + "cont/"
-        except:
-            wdir = "./cont/"
-
+        wdir += "cont/"
 
         if os.path.exists(wdir):
 
-            if ofile is not None:
-                ofilename = ofile.name.split('/')[-1]
-                kwargs.pop('ofilename')
-                ofile=None
-            else:
-                ofilename=kwargs.pop('ofilename',ofilename)
+            advance_kwargs["wdir"]=wdir
+            restart_kwargs = dict(advance_kwargs, **kwargs)
+            restart_kwargs.update(restart_options)
+            restart_kwargs.pop("ngroup",None)
+            restart_kwargs.pop("ngroups",None)
+
+            if nsnap is not None:
+                restart_kwargs["nsnap"]=nsnap
+
+            # The first snapshot of a file that contains every snapshot is always read from the start of the file
+            restart=True
+            if ctype_init == "nbody6":
+                restart=os.path.isfile("%s%sOUT3" % (wdir,snapdir))
+                restart_kwargs["nsnap"]=0
+            elif (ctype_init == "nbody6pp" or ctype_init == "nbody6++") and restart_options.get("hdf5",False):
+                restart=os.path.isfile("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap))
+            elif ctype_init in ("gyrfalcon","nemo","new_gyrfalcon","new_nemo"):
+                if filename is None: filename=getattr(sfile_init,"name",sfile_init)
+                restart=False
+                for path in (wdir+snapdir,wdir):
+                    if not restart and os.path.isfile(path+os.path.basename(filename)):
+                        filename=path+os.path.basename(filename)
+                        restart=True
+                restart_kwargs["nsnap"]=0
+
+            if restart:
+                restart_kwargs.pop("ofilename",None)
+                if ofile is not None: ofilename=ofile.name.split('/')[-1]
+
+                if ofilename is not None and os.path.isfile(wdir+ofilename):
+                    restart_kwargs["ofilename"]=ofilename
 
-            old_wdir=advance_kwargs.pop('wdir')
-
-            if nsnap is None:
+                ofile=None
 
                 cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=ctype_init,units=units_init,origin=origin_init,orbit=orbit,filename=filename,load_function=load_function,**restart_kwargs,
                 )
 
-            else:
-                   cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
-                )         
-
     if cluster.ntot != 0.0:
 
         if ofile is not None:
-- 
2.43.0


From fe8f3a0763c92565dc925a89f424a2a08e0db587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 44/80] fix: the first gyrfalcon snapshot takes its orbit from
 the orbit file's first entry

---
 clustertools/io/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 31370a6..d4863df 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -229,13 +229,13 @@ def load_cluster(
         filename=_get_filename(filename,**kwargs)
         filein = open(filename, "r")
 
-        cluster = _get_gyrfalcon(filein, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_gyrfalcon(filein, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype == "new_gyrfalcon" or ctype=='new_nemo':
         # Read in snapshot from gyrfalcon.
         filename=_get_filename(filename,**kwargs)
 
-        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype=='amuse':
         filename=_get_filename(filename,**kwargs)
-- 
2.43.0


From a6ba6bc6ded49a48f821647226907726cf2ef4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 45/80] fix: advancing a cluster keeps the solar position and
 motion it was loaded with

---
 clustertools/io/load.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index d4863df..26674f6 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -747,6 +747,11 @@ def _get_advanced_kwargs(cluster, **kwargs):
 
     projected = kwargs.pop("projected", cluster.projected)
 
+    ro = kwargs.pop("ro", cluster._ro)
+    vo = kwargs.pop("vo", cluster._vo)
+    zo = kwargs.pop("zo", cluster._zo)
+    solarmotion = kwargs.pop("solarmotion", cluster._solarmotion)
+
     analyze = kwargs.pop("analyze", True)
     sortstars = kwargs.pop("sortstars", True)
 
@@ -771,6 +776,10 @@ def _get_advanced_kwargs(cluster, **kwargs):
         "snapdir": snapdir,
         "skiprows": skiprows,
         "projected": projected,
+        "ro": ro,
+        "vo": vo,
+        "zo": zo,
+        "solarmotion": solarmotion,
         "analyze": analyze,
         "sortstars": sortstars,
         "otime": otime,
-- 
2.43.0


From c634c429a63f14989023a63aab15aa37e3698c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 46/80] fix: an orbit entry in N-body units sets the cluster's
 time in the right unit

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 51bfeb4..e56b3d4 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -909,7 +909,7 @@ class StarCluster(object):
                     vxgc *= self.vbar
                     vygc *= self.vbar
                     vzgc *= self.vbar
-                    tphys *= self.tbar
+                    tphys *= self.tbar / 1000.0
                 elif ounits == "galpy":
                     xgc *= ro
                     ygc *= ro
-- 
2.43.0


From 06066b0df0811d70df1f2aac66faf88b4a335400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 47/80] fix: nbody6++ snapshots count the binaries of their own
 group, keep potentials as arrays, and may have a single star

---
 clustertools/io/nbody6pp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 6d877fd..653bd16 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -142,7 +142,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
         if binaries: 
             cluster.pot=np.append(potb,pot)
         else:
-            cluster.pot=pot
+            cluster.pot=np.array(pot)
 
         if conf3 is not None or nbody6list is not None:
             cluster.xc*=cluster.rbar
@@ -159,7 +159,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
         cluster.to_nbody(analyze=False)
 
-        if binaries: cluster.nb = len(semi)
+        cluster.nb = nb
+        cluster.ns = cluster.ntot - nb
 
 
     else:
@@ -427,7 +428,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     header=sev.readline().split()
     ntot,tphys=int(header[0]),float(header[1])
 
-    data=np.loadtxt(sev.name,skiprows=1)
+    data=np.loadtxt(sev.name,skiprows=1,ndmin=2)
 
     arg=data[:,1].astype(int)
     i_d=data[:,2].astype(int)
-- 
2.43.0


From 4bdc264fff7adbb9a0bf4769c212a7710e6e24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 48/80] fix: a snapshot that cannot be read leaves its files
 where they were, and read errors are not taken for the end of a run

A failed or premature advance_cluster consumed part of the snapshot and its orbit entry, so the next call returned a misaligned snapshot. OUT33 stars without their OUT3 entry were returned as a cluster.
---
 clustertools/io/load.py     | 69 +++++++++++++++++++++++++++++++++++++
 clustertools/io/nbody6.py   |  7 ++--
 clustertools/io/nbody6pp.py |  2 +-
 3 files changed, 75 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 26674f6..1359735 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -353,6 +353,75 @@ def advance_cluster(
     -------
     2018 - Written - Webb (UofT)
     """
+    # If the next snapshot cannot be read (or is not there yet), leave the files where they were so it can be asked for again
+    positions=_get_positions(cluster,ofile)
+
+    try:
+        advanced=_advance_cluster(cluster,load_function=load_function,ofile=ofile,orbit=orbit,filename=filename,**kwargs)
+    except Exception:
+        _set_positions(positions)
+        raise
+
+    if advanced.ntot == 0:
+        _set_positions(positions)
+
+    return advanced
+
+def _get_positions(cluster,ofile=None):
+    """Get the position of each open file that a cluster is being read from
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster
+    ofile : file
+        an already opened file containing orbit information (default: None)
+
+    Returns
+    -------
+    positions : list
+        files and their positions
+    """
+    positions=[]
+
+    for f in (cluster.sfile,cluster.bfile,cluster.bsefile,cluster.ssefile,cluster.ofile,ofile):
+        try:
+            positions.append((f,f.tell()))
+        except (AttributeError,OSError,ValueError):
+            # not a file, or one that cannot be rewound
+            pass
+
+    return positions
+
+def _set_positions(positions):
+    """Return files to the positions found by _get_positions
+
+    Parameters
+    ----------
+    positions : list
+        files and their positions
+
+    Returns
+    -------
+    None
+    """
+    for f,position in positions:
+        try:
+            f.seek(position)
+        except (OSError,ValueError):
+            # closed in the meantime
+            pass
+
+def _advance_cluster(
+    cluster,
+    load_function=None,
+    ofile=None,
+    orbit=None,
+    filename=None,
+    **kwargs,
+):
+    """Read the next snapshot, see advance_cluster
+    """
     nsnap=None
 
     # What the cluster was opened with, in case the simulation continues in a restart directory
diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index f5f88ee..36a7706 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -74,6 +74,9 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     if out33 is not None:
         cluster.bfile=out33
 
+    #Without its OUT3 entry a snapshot is incomplete
+    if out33 is not None and nstot > 0:
+
         nbtot,alist,xb,yb,zb,vxb,vyb,vzb,mb,i_db=_get_nbody6_out33(out33,**kwargs)
                 
         if nbtot > 0: 
@@ -111,7 +114,7 @@ def _get_nbody6_out3(f,**kwargs):
     #Read in header
     try:
         start_header_block_size = struct.unpack('i',f.read(4))[0]
-    except:
+    except struct.error:
         return 0,np.zeros(20),0,0,0,0,0,0,0,0
     
     ntot = struct.unpack('i',f.read(4))[0] 
@@ -174,7 +177,7 @@ def _get_nbody6_out33(f,**kwargs):
     #Read in header
     try:
         start_header_block_size = struct.unpack('i',f.read(4))[0]
-    except:
+    except struct.error:
         return 0,np.zeros(20),0,0,0,0,0,0,0,0
     
     ntot = struct.unpack('i',f.read(4))[0] 
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 653bd16..91132d8 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -253,7 +253,7 @@ def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs):
     #Read in header
     try:
         start_header_block_size = struct.unpack('i',f.read(4))[0]
-    except:
+    except struct.error:
         return 0,np.zeros(20),0,0,0,0,0,0,0,0,0,0,0
         
     ntot = struct.unpack('i',f.read(4))[0] 
-- 
2.43.0


From 75ac68118ee2790c686bcc6044c1280954449be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 49/80] fix: gyrout writes velocities in WDunits (kpc/Gyr)

---
 clustertools/util/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 6437b57..0402ade 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -317,7 +317,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
     2019 - Written - Webb (UofT)
 
     """
-    vcon = 220.0 / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
+    vcon = solar_vo / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
     mcon = 222288.4543021174
 
     cluster.save_cluster()
-- 
2.43.0


From 0b734cdbc58d251ad3026673ffa70325c71cbb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 50/80] fix: snapout can add energies and sky coordinates for
 clusters without stellar evolution types

---
 clustertools/util/output.py | 126 ++++++------------------------------
 1 file changed, 20 insertions(+), 106 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 0402ade..7926e8c 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -52,115 +52,29 @@ def snapout(cluster, filename, energies=False, radec=False):
     2018 - Written - Webb (UofT)
     """
     if radec:
+        sky=sky_coords(cluster)
 
-        ra, dec, d0, pmra, pmdec, vr0 = sky_coords(cluster)
+    columns=[
+        cluster.m,
+        cluster.x,
+        cluster.y,
+        cluster.z,
+        cluster.vx,
+        cluster.vy,
+        cluster.vz,
+        cluster.id,
+    ]
 
-        if energies:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        cluster.kin,
-                        cluster.pot,
-                        cluster.etot,
-                        ra,
-                        dec,
-                        d0,
-                        pmra,
-                        pmdec,
-                        vr0,
-                    ]
-                ),
-            )
-        else:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        ra,
-                        dec,
-                        d0,
-                        pmra,
-                        pmdec,
-                        vr0,
-                    ]
-                ),
-            )
+    if len(cluster.kw)==cluster.ntot:
+        columns.append(cluster.kw)
 
-    else:
-        if energies:
-            np.savetxt(
-                filename,
-                np.column_stack(
-                    [
-                        cluster.m,
-                        cluster.x,
-                        cluster.y,
-                        cluster.z,
-                        cluster.vx,
-                        cluster.vy,
-                        cluster.vz,
-                        cluster.id,
-                        cluster.kw,
-                        cluster.kin,
-                        cluster.pot,
-                        cluster.etot,
-                    ]
-                ),
-            )
-        else:
-
-            if len(cluster.kw)==cluster.ntot:
-                np.savetxt(
-                    filename,
-                    np.column_stack(
-                        [
-                            cluster.m,
-                            cluster.x,
-                            cluster.y,
-                            cluster.z,
-                            cluster.vx,
-                            cluster.vy,
-                            cluster.vz,
-                            cluster.id,
-                            cluster.kw,
-                        ]
-                    ),
-                )
-            else:
-                np.savetxt(
-                    filename,
-                    np.column_stack(
-                        [
-                            cluster.m,
-                            cluster.x,
-                            cluster.y,
-                            cluster.z,
-                            cluster.vx,
-                            cluster.vy,
-                            cluster.vz,
-                            cluster.id,
-                        ]
-                    ),
-                )
+    if energies:
+        columns.extend([cluster.kin,cluster.pot,cluster.etot])
+
+    if radec:
+        columns.extend(sky)
+
+    np.savetxt(filename,np.column_stack(columns))
 
     return 0
 
-- 
2.43.0


From 7443b1c2551ec73fe34d60f6d3df96efe2ae758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 51/80] fix: a cluster is back in its units and origin after an
 output that failed

---
 clustertools/util/output.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 7926e8c..338f781 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -16,12 +16,39 @@ try:
 except:
     import galpy.util.bovy_conversion as conversion
 
+from functools import wraps
+
 from .coordinates import sky_coords
 from .constants import *
 from ..util.units import _convert_length,_convert_time,_convert_velocity
 
 
 
+def _return_on_failure(output):
+    """Return a cluster to the units and origin it was handed over in if its output fails
+
+    Parameters
+    ----------
+    output : function
+        function that writes a cluster
+
+    Returns
+    -------
+    wrapped : function
+        the same function
+    """
+    @wraps(output)
+    def wrapped(cluster,*args,**kwargs):
+        saved = cluster.units,cluster.origin,cluster.rorder,cluster.rorder_origin
+
+        try:
+            return output(cluster,*args,**kwargs)
+        except BaseException:
+            cluster.return_cluster(*saved)
+            raise
+
+    return wrapped
+
 def snapout(cluster, filename, energies=False, radec=False):
     """Output a snapshot in clustertools format
 
@@ -78,6 +105,7 @@ def snapout(cluster, filename, energies=False, radec=False):
 
     return 0
 
+@_return_on_failure
 def sseout(cluster, filename):
     """Output simple stellar evolution information in clustertools format
 
@@ -119,6 +147,7 @@ def sseout(cluster, filename):
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
+@_return_on_failure
 def fortout(
     cluster,
     filename="fort.10",
@@ -202,6 +231,7 @@ def fortout(
     return 0
 
 
+@_return_on_failure
 def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,vo=solar_vo):
     """Output a snapshot in gyrfalcon/NEMO format
 
-- 
2.43.0


From 348dd7a2cb9e5bead6a0455907c8c40e05131bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 52/80] fix: a snapshot without a conf.3 or OUT3 file is the
 end of the run, not an AttributeError

Advancing past the last nbody6++ snapshot raised since read errors stopped being taken for the end of a run.
---
 clustertools/io/nbody6.py   | 8 ++++++++
 clustertools/io/nbody6pp.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index 36a7706..3697414 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -111,6 +111,10 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
 
 def _get_nbody6_out3(f,**kwargs): 
 
+    #Without a file there is no snapshot
+    if f is None:
+        return 0,np.zeros(20),0,0,0,0,0,0,0,0
+
     #Read in header
     try:
         start_header_block_size = struct.unpack('i',f.read(4))[0]
@@ -174,6 +178,10 @@ def _get_nbody6_out3(f,**kwargs):
 
 def _get_nbody6_out33(f,**kwargs): 
 
+    #Without a file there is no snapshot
+    if f is None:
+        return 0,np.zeros(20),0,0,0,0,0,0,0,0
+
     #Read in header
     try:
         start_header_block_size = struct.unpack('i',f.read(4))[0]
diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index 91132d8..60123f0 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -250,6 +250,10 @@ def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs):
 
     verbose=kwargs.get('verbose',True)
 
+    #Without a file there is no snapshot
+    if f is None:
+        return 0,np.zeros(20),0,0,0,0,0,0,0,0,0,0,0
+
     #Read in header
     try:
         start_header_block_size = struct.unpack('i',f.read(4))[0]
-- 
2.43.0


From 2e3aa0eac081dd2a1eb14dd3bb4aa5bcee2861bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 53/80] fix: the parallel potential energy no longer adds to
 the same star from several threads

---
 clustertools/analysis/functions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 59547b7..ddb180b 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -840,15 +840,16 @@ def _potential_energy_parallel(cluster,softening=0.0):
        2019 - Written - Webb (UofT)
     """
     pot = [0.0] * len(cluster)
-    for i in numba.prange(len(cluster) - 1):
-        for j in range(i + 1, len(cluster)):
-            r = distance(cluster[i], cluster[j])
+    for i in numba.prange(len(cluster)):
+        # only ever write to pot[i], as other threads are working on other stars
+        for j in range(len(cluster)):
+            if j != i:
+                r = distance(cluster[i], cluster[j])
 
-            if r==0: r=np.nan
+                if r==0: r=np.nan
 
-            m2 = cluster[i, 3] * cluster[j, 3]
-            pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
-            pot[j] += -m2 / np.sqrt(r**2.+softening**2.)
+                m2 = cluster[i, 3] * cluster[j, 3]
+                pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
 
     return pot
 
-- 
2.43.0


From 2f4e7c57e10513dff87ecfc006df89a9cf23a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 54/80] fix: a softened energy without the full sum leaves out
 the star itself

---
 clustertools/analysis/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index ddb180b..fe04abf 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -763,12 +763,13 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
                 m = cluster.m[i] * cluster.m
 
             if projected:
-                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + softening**2.) 
+                dr = np.sqrt(dx ** 2.0 + dy ** 2.0)
             else:
-                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0 + softening**2.)
+                dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0)
 
+            # leave out the star itself, also when the potential is softened
             indx = dr != 0.0
-            gmr = -grav * m[indx] / dr[indx]
+            gmr = -grav * m[indx] / np.sqrt(dr[indx] ** 2.0 + softening**2.)
 
             pot.append(np.sum(gmr))
 
-- 
2.43.0


From d985f78f6d739f0b7b0d23fb37a111e179f7efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 55/80] fix: the projected energies of a subset of stars use
 projected positions and velocities

---
 clustertools/analysis/functions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index fe04abf..e0fd109 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -723,11 +723,16 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
         # Get gravitational constant
         grav = _get_grav(cluster)
 
-        kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+        if projected:
+            kin = 0.5 * cluster.m[ids] * cluster.vpro[ids]**2
+            z = np.zeros(len(cluster.x))
+        else:
+            kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+            z = cluster.z
 
-        cluster_full = np.array([cluster.x, cluster.y, cluster.z, cluster.m]).T
+        cluster_full = np.array([cluster.x, cluster.y, z, cluster.m]).T
         cluster_sub  = np.array([cluster.x[ids], cluster.y[ids], 
-                                 cluster.z[ids], cluster.m[ids]]).T
+                                 z[ids], cluster.m[ids]]).T
 
         if parallel:
             pot = grav * np.array(_potential_energy_subset_parallel(cluster_sub, cluster_full,softening))
-- 
2.43.0


From 3181fa9286ac80ccd688fe34fc006f385322462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 56/80] fix: positions and velocities returned by add_rotation
 do not share the cluster's arrays

---
 clustertools/cluster/operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index f9a01a9..8a04056 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1515,9 +1515,10 @@ def add_rotation(cluster, qrot):
     rindx = np.random.rand(cluster.ntot) < qrot
 
     vtheta[indx * rindx] = np.sqrt(vtheta[indx * rindx] * vtheta[indx * rindx])
-    x,y,z = coords.cyl_to_rect(r, theta, z)
+    # z and vz are the cluster's own arrays, which change when the cluster is returned
+    x,y,z = coords.cyl_to_rect(r, theta, np.array(z))
     vx,vy,vz = coords.cyl_to_rect_vec(
-        vr, vtheta, vz, theta
+        vr, vtheta, np.array(vz), theta
     )
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
-- 
2.43.0


From 43d294f7ec5e78655d60db0e79f3e8ed502ccd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 57/80] fix: power_law_distribution_function follows rising
 slopes and returns n values for a single point

---
 clustertools/util/recipes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 7cffe5c..5faef71 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -312,12 +312,10 @@ def power_law_distribution_function(n, alpha, xmin, xmax):
     eta = alpha + 1.0
 
     if xmin == xmax:
-        x = xmin
+        x = np.full(n, xmin)
     elif alpha == 0:
         x = xmin + np.random.random(n) * (xmax - xmin)
-    elif alpha > 0:
-        x = xmin + np.random.power(eta, n) * (xmax - xmin)
-    elif alpha < 0 and alpha != -1.0:
+    elif alpha != -1.0:
         x = (xmin ** eta + (xmax ** eta - xmin ** eta) * np.random.rand(n)) ** (
             1.0 / eta
         )
-- 
2.43.0


From 4219f9aaedb01876a0c45f9112bf68f9b5191a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 58/80] fix: orbits initialized with their own ro and vo start
 from the cluster's position

---
 clustertools/analysis/orbits.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 0b4acce..8b3ea24 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -92,7 +92,8 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
         cluster.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-        cluster.to_galpy()
+        #Scale with ro and vo here, as they can differ from the cluster's own
+        cluster.to_kpckms()
 
         x, y, z = cluster.xgc, cluster.ygc, cluster.zgc
         vx, vy, vz = cluster.vxgc, cluster.vygc, cluster.vzgc
@@ -109,7 +110,7 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
         R, phi, z = coords.rect_to_cyl(x, y, z)
         vR, vT, vz = coords.rect_to_cyl_vec(vx, vy, vz, x, y, z)
         o = Orbit(
-            [R, vR, vT, z, vz, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            [R / ro, vR / vo, vT / vo, z / ro, vz / vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
     
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
@@ -169,15 +170,15 @@ def initialize_orbits(cluster, ro=None, vo=None, zo = None, solarmotion=None):
         cluster.save_cluster()
         units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
 
-        cluster.to_galpy()
-     
+        cluster.to_kpckms()
+
         x, y, z = cluster.x, cluster.y, cluster.z
         vx, vy, vz = cluster.vx, cluster.vy, cluster.vz
 
         R, phi, z = coords.rect_to_cyl(x, y, z)
         vR, vT, vz = coords.rect_to_cyl_vec(vx, vy, vz, x, y, z)
 
-        vxvv = np.column_stack([R, vR, vT, z, vz, phi])
+        vxvv = np.column_stack([R / ro, vR / vo, vT / vo, z / ro, vz / vo, phi])
 
         if cluster.origin=='cluster' or cluster.origin=='centre':
             os = Orbit(vxvv, ro=ro, vo=vo, zo=zo, solarmotion=[0,0,0])
@@ -750,7 +751,10 @@ def orbital_path(
         vx=_convert_velocity(vx,'kpckms',cluster)
         vy=_convert_velocity(vy,'kpckms',cluster)
         vz=_convert_velocity(vz,'kpckms',cluster)
-        t=_convert_time(ts,'galpy',cluster)
+        if cluster.units=='galpy':
+            t=ts
+        else:
+            t=_convert_time(ts*conversion.time_in_Gyr(ro=ro, vo=vo),'kpckms',cluster)
 
         if plot:
             filename = kwargs.pop("filename", None)
-- 
2.43.0


From 06de224ac086bcf4c8deba1406fc4dfb54cb8acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 59/80] fix: interpolating stellar orbits in sky coordinates
 keeps the centre's offset from the orbit

---
 clustertools/cluster/cluster.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e56b3d4..91e020e 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3595,7 +3595,10 @@ class StarCluster(object):
             self.x,self.y,self.z=x,y,z
             self.vx,self.vy,self.vz=vx,vy,vz
         elif self.origin=='sky' and self.units=='radec':
-            self.to_sky()
+            #The centre keeps its offset from the orbit
+            self.to_galaxy(sortstars=False)
+            centre=self.xc,self.yc,self.zc,self.vxc,self.vyc,self.vzc
+            self.to_sky(sortstars=False)
             self.ra,self.dec,self.dist=x,y,z
             self.pmra,self.pmdec,self.vlos=vx,vy,vz
             self.x,self.y,self.z=x,y,z
@@ -3619,6 +3622,9 @@ class StarCluster(object):
             if self.units=='radec' and self.origin=='sky':
                 self.ra_gc,self.dec_gc,self.dist_gc=xgc,ygc,zgc
                 self.pmra_gc,self.pmdec_gc,self.vlos_gc=vxgc,vygc,vzgc
+                self.to_galaxy(sortstars=False)
+                self.xc,self.yc,self.zc,self.vxc,self.vyc,self.vzc=centre
+                self.to_sky(sortstars=False)
 
         self.analyze()
 
-- 
2.43.0


From 158d05ad4a34a34005a9b3bdf2f9dbf5e18b4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 60/80] fix: orbit_interpolate and orbits_interpolate return
 the interpolated orbit

---
 clustertools/cluster/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 91e020e..588aab8 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3551,7 +3551,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbit(pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbit(pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     def interpolate_orbits(self,pot=None,tfinal=None,nt=1000,ro=None,vo=None,zo=None,solarmotion=None):
@@ -3668,7 +3668,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
     def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
-- 
2.43.0


From 5193968436887683ed3ade59d29ae2bb81d650bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 61/80] fix: orbits of clusters in amuse units can be
 interpolated over the default time

---
 clustertools/analysis/orbits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 8b3ea24..08f76c3 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -383,7 +383,7 @@ def interpolate_orbit(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None: tfinal=tfinal.value_in(u.Myr)
 
     ts,o=_integrate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, from_centre=from_centre, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion, plot=False)
 
@@ -465,7 +465,7 @@ def interpolate_orbits(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None: tfinal=tfinal.value_in(u.Myr)
 
     if cluster.origin=='centre':
         ts,o=_integrate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo, zo=zo,solarmotion=[0,0,0], plot=False)
-- 
2.43.0


From 5c439886988844ab9379ed5f6b184aca1b57f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 62/80] fix: add_stars with AMUSE quantities converts the
 existing stars first and keeps the given ids

---
 clustertools/cluster/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 588aab8..7182fd0 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -483,11 +483,15 @@ class StarCluster(object):
                 stars.mass=m
                 stars.key=id
 
+                #Any stars already in the cluster need to be in the units the new stars are added in
+                if len(self.x)>0: self.to_pckms(analyze=False)
+
                 if isinstance(self.tphys,ScalarQuantity):
                     self.tphys=self.tphys.value_in(u.Myr)
 
                 self.units='pckms'                
-                x,y,z,vx,vy,vz,m,id=_convert_amuse(stars,self)
+                x,y,z,vx,vy,vz,m,keys=_convert_amuse(stars,self)
+                if id is None: id=keys
                 isamuse=True
 
 
-- 
2.43.0


From da67d7eb66362a169ec42f693590ed6791e4b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 63/80] fix: relaxation_time accepts rad, in the units the
 cluster was in

---
 clustertools/analysis/functions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index e0fd109..288e250 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -494,12 +494,18 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     grav=_get_grav(cluster)
 
 
+    if projected:
+        vel=cluster.vpro
+    else:
+        vel=cluster.v
+
     if rad is None and projected:
         rad=cluster.rmpro
-        vel=cluster.vpro
     elif rad is None:
         rad=cluster.rm
-        vel=cluster.v
+    else:
+        #rad is given in the units the cluster was in
+        rad=_convert_length(rad,units0,cluster)
 
     if projected:
         rindx=cluster.rpro <= rad
-- 
2.43.0


From f368681e609670f8cc7f007fd37c176d5e956e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 64/80] fix: StarCluster.relaxation_time passes method on

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 7182fd0..8a2c5b4 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2492,7 +2492,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.trelax=relaxation_time(self, rad=rad, coulomb=coulomb, projected=projected,method='spitzer')
+        self.trelax=relaxation_time(self, rad=rad, coulomb=coulomb, projected=projected,method=method)
 
         return self.trelax
 
-- 
2.43.0


From c40bce5e769d1ca80639dd5fd0111d9b0585f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 65/80] fix: initialize_orbit(from_centre=True) in sky
 coordinates uses the centre's position

---
 clustertools/analysis/orbits.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 08f76c3..e8cb9cc 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -72,15 +72,29 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
     if solarmotion is None: solarmotion=cluster._solarmotion
 
     if cluster.units == "radec":
-        o = Orbit(
-            [
+
+        #dist_c is zero if no centre has been assigned
+        if from_centre and cluster.dist_c != 0.0:
+            vxvv = [
+                cluster.ra_c,
+                cluster.dec_c,
+                cluster.dist_c,
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            ]
+        else:
+            vxvv = [
                 cluster.ra_gc,
                 cluster.dec_gc,
                 cluster.dist_gc,
                 cluster.pmra_gc,
                 cluster.pmdec_gc,
                 cluster.vlos_gc,
-            ],
+            ]
+
+        o = Orbit(
+            vxvv,
             radec=True,
             ro=ro,
             vo=vo,
-- 
2.43.0


From 0aaf6355d12fd19382e05346faad601ff9916616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 66/80] fix: an orthographic centre-based projection subtracts
 the centre's proper motion

---
 clustertools/cluster/operations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 8a04056..5902bcb 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1123,14 +1123,15 @@ def _get_orthographic_centre(cluster,from_centre=False):
         cluster.vx = vx
         cluster.vy = vy
 
-        cluster.vx-=cluster.vxgc
-        cluster.vy-=cluster.vygc
-
         if from_centre:
             cluster.z -= cluster.zc
+            cluster.vx -= cluster.vxc
+            cluster.vy -= cluster.vyc
             cluster.vz -= cluster.vzc
         else:
             cluster.z -= cluster.zgc
+            cluster.vx -= cluster.vxgc
+            cluster.vy -= cluster.vygc
             cluster.vz -= cluster.vzgc
 
 def _get_vandeven_centre(cluster,from_centre=False):
-- 
2.43.0


From 3f515afdc8db09228d2fb54d8d676d291d2c70db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 67/80] fix: lengths given in sky coordinates convert with the
 distance the sky frame uses

---
 clustertools/util/units.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 77ee409..deeb270 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -103,7 +103,11 @@ def _convert_length(x,units,cluster):
 
         elif units=='radec':
             if cluster.units!='radec':
-                dist=np.sqrt(cluster.xgc**2.+cluster.ygc**2.0+cluster.zgc**2.0)
+                #A cluster that was in sky coordinates knows its distance from the Sun (kpc)
+                if getattr(cluster,'dist_gc',0.0)!=0.0:
+                    dist=cluster.dist_gc
+                else:
+                    dist=np.sqrt(cluster.xgc**2.+cluster.ygc**2.0+cluster.zgc**2.0)
                 x=np.tan(np.radians(x))*dist
 
                 if cluster.units=='nbody':
-- 
2.43.0


From f780789b33b8e409a9f419f1de3e2d113e64454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 68/80] fix: an orbit handed over is read in its own units at
 its own time

StarCluster(units=..., orbit=o) stored o's kpc and km/s as if they were in the cluster's units, and
load_cluster/advance_cluster measured the snapshot's time in the default galpy time unit rather than
the one of the orbit handed over.
---
 clustertools/cluster/cluster.py | 4 ++++
 clustertools/io/load.py         | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 8a2c5b4..3e07190 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -407,6 +407,10 @@ class StarCluster(object):
         self.ngroups=0
         self.ngroup=0
 
+        #A galpy orbit gives positions in kpc and velocities in km/s, so convert them to the cluster's units
+        if self.orbit is not None and self.units in ('pckms','pcmyr','kpcgyr','galpy','nbody','WDunits'):
+            self.add_orbit(self.xgc,self.ygc,self.zgc,self.vxgc,self.vygc,self.vzgc,ounits='kpckms')
+
     def add_stars(
         self, x, y, z, vx, vy, vz,m=None,id=None,m0=None,npop=None,nb=0,sortstars=False,analyze=True
     ):
diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 1359735..2f2efbb 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -708,7 +708,8 @@ def _add_galpy_orbit(cluster,orbit):
     else:
         return
 
-    t /= conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
+    # galpy measures time in the units of the orbit itself
+    t /= conversion.time_in_Gyr(ro=orbit._ro, vo=orbit._vo)
 
     cluster.add_orbit(
         orbit.x(t),
-- 
2.43.0


From b2cd4ae2a44d9b58e2302d96032033bf10b8b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 69/80] fix: failures inside a star selection or a slope fit
 reach the caller

The bare excepts in _get_subset and alpha_prof swallowed MemoryError and interrupts, and a selection
that failed was returned as -1, which callers use as an index.
---
 clustertools/analysis/profiles.py | 2 +-
 clustertools/cluster/cluster.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 5f4e23c..a57bdbb 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -562,7 +562,7 @@ def alpha_prof(
 
             edalpha = np.sqrt(V[0][0])
             eydalpha = np.sqrt(V[1][1])
-        except:
+        except (np.linalg.LinAlgError,ValueError,TypeError,RuntimeError):
             print('ERROR: POLYFIT DID NOT CONVERGE WHEN FINDING DALPHA')
             dalpha = -100.0
             ydalpha = 0.0
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 3e07190..a701aba 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4051,9 +4051,9 @@ def _get_subset(
             * eindx
         )
 
-    except:
+    except Exception:
         print('SUBSET ERROR: ',rmin,rmax,mmin,mmax,vmin,vmax,np.sum(kwindx),np.sum(eindx))
-        indx=-1
+        raise
 
     return indx
 
-- 
2.43.0


From a28bd8a2cf313d6f1ae16e6dffcad7744f5cf125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:41 +0000
Subject: [PATCH 70/80] fix: a limepy cluster is placed on its orbit before its
 origin changes, and every catalogue cluster loads

load_cluster('limepy', origin='galaxy', orbit=o) left the stars around the Galactic centre under the
label 'galaxy'; clusters that are only in the Harris catalogue raised IndexError instead of falling
back to it; source='harris' used np.in1d, which is gone from numpy; N was ignored for clusters of the
de Boer catalogue.
---
 clustertools/io/limepydf.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 8ea920b..751a904 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -95,17 +95,11 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             if units=='nbody': cluster.reset_nbody_scale(rvirial=True)
             cluster.to_units(units)
 
-        if cluster.origin!=origin:
-            cluster.to_origin(origin)
-
     else:
         cluster = _sample_limepy(model=model, **kwargs)
         cluster.units=units
         cluster.bunits=units
 
-        if cluster.origin!=origin:
-            cluster.to_origin(origin)
-
     if cluster.ntot>0:
 
         cluster.ctype='limepy'
@@ -127,8 +121,9 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
         elif ofile != None:
             _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
 
-        if origin=='galaxy':
-            cluster.to_galaxy()
+        # Shift to the requested origin only once the cluster has its orbit
+        if cluster.origin!=origin:
+            cluster.to_origin(origin)
 
         cluster.analyze(sortstars=True)
 
@@ -758,23 +753,21 @@ def _get_cluster(gcname, source="default", mbar=1., params=False, **kwargs):
     gcname = gcname.upper()
 
 
+    # Alternative name for the cluster
+    altname = None
+    if gcname in hname:
+        altname = hname2[np.argwhere(hname == gcname).flatten()[0]]
+    elif gcname in hname2:
+        altname = hname[np.argwhere(hname2 == gcname).flatten()[0]]
+
     if (
         source == "default" or "deboer" in source or "deBoer" in source
     ) and gcname in dname:
         cluster = _get_deBoer_cluster(ddata, gcname, mbar, **kwargs)
     elif (
         source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname not in dname:
-        if gcname in hname:
-            indx = hname == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname2[i_d], mbar, **kwargs)
-        elif gcname in hname2:
-            indx = hname2 == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname[i_d], mbar, **kwargs)
-
-
+    ) and altname in dname:
+        cluster = _get_deBoer_cluster(ddata, altname, mbar, **kwargs)
     elif (source == "default" or "harris" in source or "Harris" in source) and (
         gcname in hname or gcname in hname2
     ):
@@ -837,7 +830,7 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
         g_lime = data[i_d, 3].astype(float)
         rt_lime = data[i_d, 5].astype(float)
         M_lime = data[i_d, 7].astype(float)
-        N = int(M_lime / mbar)
+        N = int(kwargs.get("N", M_lime / mbar))
 
         cluster = _sample_limepy(g=g_lime, phi0=W_lime, M=M_lime, rt=rt_lime, N=N)
 
@@ -890,7 +883,7 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
     name = data[:, 0]
     name2 = data[:, 1]
 
-    indx = np.logical_or(np.in1d(name, gcname), np.in1d(name2, gcname))
+    indx = np.logical_or(np.isin(name, gcname), np.isin(name2, gcname))
     i_d = np.argwhere(indx == True).flatten()[0]
     mgc = data[i_d, 2].astype(float)
     rc = data[i_d, 3].astype(float)
-- 
2.43.0


From 7886690417a1625c520f0d0c5b0e7a95efb75de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 71/80] fix: load_cluster(initialize=True) gives the cluster
 its orbit

The galpy orbit was worked out and thrown away.
---
 clustertools/io/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 2f2efbb..a8ae79f 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -305,7 +305,7 @@ def load_cluster(
         origin0=cluster.origin
         cluster.to_galaxy()
         solarmotion=kwargs.get('solarmotion',cluster._solarmotion)
-        initialize_orbit(cluster,solarmotion=solarmotion)
+        cluster.initialize_orbit(solarmotion=solarmotion)
         cluster.to_origin(origin0)
         
     return cluster
-- 
2.43.0


From 9a63cf5001ee624ffae3d907485e212b677e30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:18 +0000
Subject: [PATCH 72/80] fix: a limepy cluster takes its orbit from an orbit
 file

---
 clustertools/io/limepydf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 751a904..ae7d8cd 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -28,6 +28,7 @@ except:
     pass
 
 from ..cluster.cluster import StarCluster
+from .orbit import _get_cluster_orbit as _get_ofile_orbit
 
 def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance=False, **kwargs):
     """ Setup an N-body realization of a StarCluster with specific parameters
@@ -119,7 +120,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             )
 
         elif ofile != None:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _get_ofile_orbit(cluster, ofile, advance=advance, **kwargs)
 
         # Shift to the requested origin only once the cluster has its orbit
         if cluster.origin!=origin:
-- 
2.43.0


From 6bd631e46ebd0d1c94225f38dc1d49d6a40ec169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 73/80] fix: orbital_path_match measures progress along the
 path

---
 clustertools/analysis/orbits.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index e8cb9cc..b6744fc 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -937,18 +937,13 @@ def orbital_path_match(
     dyo = y[1:] - y[0:-1]
     dzo = z[1:] - z[0:-1]
 
-    dprogx = np.cumsum(np.fabs(dxo))
-    dprogy = np.cumsum(np.fabs(dyo))
-    dprogz = np.cumsum(np.fabs(dzo))
-
-    dprogx = np.insert(dprogx, 0, 0.0)
-    dprogy = np.insert(dprogy, 0, 0.0)
-    dprogz = np.insert(dprogz, 0, 0.0)
-
+    # Distance travelled along the path, step by step
     if projected:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0)
+        dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0))
     else:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0 + dprogz ** 2.0)
+        dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0))
+
+    dprogr = np.insert(dprogr, 0, 0.0)
 
     dprog = dprogr[indx] - dprogr[pindx]
 
-- 
2.43.0


From 59b4b168121014bc6cd2d5251326dc6a1a65d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 74/80] fix: orbital_path_match works with do_full

---
 clustertools/analysis/orbits.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b6744fc..0c43f64 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -955,20 +955,21 @@ def orbital_path_match(
 
         if do_full:
             # Typically it is too expensive to calculate dpath all at once, but will allow option via do_full
+            sindx = np.arange(0, cluster.ntot)
 
             if projected:
                 ovec = np.column_stack([dxo, dyo])
                 mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
+                svec = np.column_stack([dx[sindx, indx], dy[sindx, indx]])
+                mag_svec = dr[sindx, indx]
+                theta = np.arccos(np.sum(ovec[indx] * svec, axis=1) / (mag_ovec[indx] * mag_svec))
                 dpath = mag_svec * np.sin(theta)
             else:
                 ovec = np.column_stack([dxo, dyo, dzo])
                 mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx], dz[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
+                svec = np.column_stack([dx[sindx, indx], dy[sindx, indx], dz[sindx, indx]])
+                mag_svec = dr[sindx, indx]
+                theta = np.arccos(np.sum(ovec[indx] * svec, axis=1) / (mag_ovec[indx] * mag_svec))
                 dpath = mag_svec * np.sin(theta)
         else:
             # Need to optimize this via numba
-- 
2.43.0


From 42171897f2806b35135a311c801284e56651e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 75/80] fix: tail_path gives a star to every overlapping
 stretch it is in

---
 clustertools/tidaltail/tails.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 2c4cdff..9540d6b 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -206,16 +206,25 @@ def tail_path(
     else:
         dindx = (np.fabs(dpath) <= dmax)
 
-    bin_idx = bin_index(tstar, t_lower, t_upper)
-
     nbin = len(t_mid)
-    counts = np.bincount(bin_idx[dindx], minlength=nbin).astype(float)
-    sum_x = np.bincount(bin_idx[dindx], weights=cluster.x[dindx], minlength=nbin)
-    sum_y = np.bincount(bin_idx[dindx], weights=cluster.y[dindx], minlength=nbin)
-    sum_z = np.bincount(bin_idx[dindx], weights=cluster.z[dindx], minlength=nbin)
-    sum_vx = np.bincount(bin_idx[dindx], weights=cluster.vx[dindx], minlength=nbin)
-    sum_vy = np.bincount(bin_idx[dindx], weights=cluster.vy[dindx], minlength=nbin)
-    sum_vz = np.bincount(bin_idx[dindx], weights=cluster.vz[dindx], minlength=nbin)
+
+    # Roaming bins overlap, so a star can contribute to several of them
+    if ntail > nt:
+        members = [
+            np.where(dindx * (tstar >= t_lower[i]) * (tstar <= t_upper[i]))[0]
+            for i in range(0, nbin)
+        ]
+    else:
+        bin_idx = bin_index(tstar, t_lower, t_upper)
+        members = [np.where(dindx * (bin_idx == i))[0] for i in range(0, nbin)]
+
+    counts = np.array([len(indx) for indx in members], dtype=float)
+    sum_x = np.array([np.sum(cluster.x[indx]) for indx in members])
+    sum_y = np.array([np.sum(cluster.y[indx]) for indx in members])
+    sum_z = np.array([np.sum(cluster.z[indx]) for indx in members])
+    sum_vx = np.array([np.sum(cluster.vx[indx]) for indx in members])
+    sum_vy = np.array([np.sum(cluster.vy[indx]) for indx in members])
+    sum_vz = np.array([np.sum(cluster.vz[indx]) for indx in members])
 
     keep = counts > 0
     ttail = t_mid[keep]
-- 
2.43.0


From 2ecf4e34badef7514748a6a47c7c6518b902934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 76/80] fix: stars outside the bins given to a profile are left
 out

---
 clustertools/analysis/functions.py |  1 +
 clustertools/analysis/profiles.py  | 13 ++++++++++++
 clustertools/util/__init__.py      |  1 +
 clustertools/util/recipes.py       | 32 +++++++++++++++++++++++++++---
 4 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 288e250..c4cf37e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2798,6 +2798,7 @@ def _rho_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        indx = indx * in_bins(r,r_lower,r_upper)
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index a57bdbb..39b4c6e 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -126,6 +126,7 @@ def rho_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        indx = indx * in_bins(r,r_lower,r_upper)
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
@@ -313,6 +314,13 @@ def m_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+
+        # Leave out stars beyond the bins (and, for the mass in each bin, stars between and inside of them)
+        if cumulative:
+            indx = indx * (r <= r_upper[-1])
+        else:
+            indx = indx * in_bins(r,r_lower,r_upper)
+
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
@@ -509,6 +517,7 @@ def alpha_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        indx = indx * in_bins(r,r_lower,r_upper)
         r_mean=np.zeros(len(r_mean))
 
         bin_idx=bin_index(r,r_lower,r_upper)
@@ -786,6 +795,7 @@ def sigv_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        indx = indx * in_bins(r,r_lower,r_upper)
 
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
@@ -975,6 +985,7 @@ def beta_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        indx = indx * in_bins(r,r_lower,r_upper)
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
@@ -1219,6 +1230,7 @@ def v_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        indx = indx * in_bins(r,r_lower,r_upper)
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
@@ -1450,6 +1462,7 @@ def v2_prof(
     if bins is not None:
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
+        indx = indx * in_bins(r,r_lower,r_upper)
     elif kwargs.pop('bintype','num')=='fix':
         r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
diff --git a/clustertools/util/__init__.py b/clustertools/util/__init__.py
index 4119c98..01f55e5 100644
--- a/clustertools/util/__init__.py
+++ b/clustertools/util/__init__.py
@@ -54,6 +54,7 @@ interpolate=recipes.interpolate
 minimum_distance=recipes.minimum_distance
 distance=recipes.distance
 bin_index=recipes.bin_index
+in_bins=recipes.in_bins
 
 #
 # Classes
diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 5faef71..fe7c3ef 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -17,6 +17,7 @@ __all__ = [
     "minimum_distance",
     "distance",
     "bin_index",
+    "in_bins",
 ]
 
 import numpy as np
@@ -367,7 +368,7 @@ def dx_function(x, nx=10, bintype="num", x_lower=None, x_mean=None,x_upper=None,
         else:
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
-        bin_idx = bin_index(x,x_lower,x_upper)
+        bin_idx = bin_index(x,x_lower,x_upper)[in_bins(x,x_lower,x_upper)]
         x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
 
     dx = x_hist / (x_upper - x_lower)
@@ -439,7 +440,7 @@ def tapered_dx_function(x, nx=10, bintype="num", x_lower=None, x_mean=None,x_upp
         else:
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
-        bin_idx = bin_index(x,x_lower,x_upper)
+        bin_idx = bin_index(x,x_lower,x_upper)[in_bins(x,x_lower,x_upper)]
         x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
 
     dx = x_hist / (x_upper - x_lower)
@@ -517,7 +518,7 @@ def x_hist(x, nx=10, bintype="num", bins=False, x_lower=None, x_mean=None,x_uppe
         else:
             x_lower, x_mean, x_upper, x_hist = binmaker(x, nx)
     else:
-        bin_idx = bin_index(x,x_lower,x_upper)
+        bin_idx = bin_index(x,x_lower,x_upper)[in_bins(x,x_lower,x_upper)]
         x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
 
     if bins:
@@ -565,6 +566,9 @@ def mean_prof(x, y, nbin=10, bintype="num", steptype="linear", median=False, x_l
     else:
         x_mid=x_mean
 
+        inside = in_bins(x,x_lower,x_upper)
+        x,y = np.asarray(x)[inside],np.asarray(y)[inside]
+
     bin_idx = bin_index(x,x_lower,x_upper)
     x_hist = np.bincount(bin_idx, minlength=len(x_lower)).astype(float)
 
@@ -804,3 +808,25 @@ def bin_index(x, x_lower, x_upper):
     bin_indx = np.minimum(bin_indx, len(x_upper) - 1)
 
     return bin_indx
+
+def in_bins(x, x_lower, x_upper):
+    """determine whether each value of x lies within one of the bins
+
+    Parameters
+    ----------
+    x : float
+      array of values
+    x_lower : float
+      array of lower bin limits
+    x_upper : float
+      array of upper bin limits
+
+    Returns
+    -------
+    inside : bool
+      True for each x point that lies within the limits of a bin
+    """
+
+    bin_indx = bin_index(x, x_lower, x_upper)
+
+    return (x >= np.asarray(x_lower)[bin_indx]) * (x <= np.asarray(x_upper)[bin_indx])
-- 
2.43.0


From cd7f302469c7d78f3d418025905c49e45f923933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 77/80] fix: eta_prof and vcirc_prof use the stars selected and
 the projected radius

---
 clustertools/analysis/profiles.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 39b4c6e..d5005d0 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1658,9 +1658,9 @@ def eta_prof(
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r[indx], nrad)
 
     if normalize:
         if projected:
@@ -1683,8 +1683,12 @@ def eta_prof(
             rmax=r_upper[i],
             vmin=vmin,
             vmax=vmax,
+            emin=emin,
+            emax=emax,
             kwmin=kwmin,
             kwmax=kwmax,
+            npop=npop,
+            indx=indx,
             projected=projected,
             meq=meq,
             **kwargs,
@@ -2023,12 +2027,12 @@ def vcirc_prof(
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='fix' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='num' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-- 
2.43.0


From 1b13bbff706f43abea202fe79e6aa1a1a734b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 78/80] fix: alpha_prof passes the stellar types on to each bin

---
 clustertools/analysis/profiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index d5005d0..83ad91b 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -551,10 +551,10 @@ def alpha_prof(
         rindx = indx * (bin_idx==i)
 
         if return_error:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
             rbinerror[i]=np.amin(mbinerror)
         else:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
             rbinerror[i]=1.
 
         if alpha > -100:
-- 
2.43.0


From ad93550f6022897376bff29fad683562c907ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 79/80] fix: ckin works from any origin

---
 clustertools/analysis/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index c4cf37e..0a70fbb 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2037,6 +2037,9 @@ def ckin(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    if origin0 != 'cluster' and origin0 != 'centre':
+        cluster.to_centre(sortstars=False)
+
     rn=rlagrange(cluster, nlagrange=10, projected=projected)
 
     m_mean50, sigvm50, meq50, emq50, sigma050, esigma050 = eta_function(cluster,
-- 
2.43.0


From 5cc72083df7de34aba0c62add756084753970d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:51 +0000
Subject: [PATCH 80/80] fix: equipartition fits no longer depend on the
 cluster's units

---
 clustertools/analysis/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 0a70fbb..7ad4ef0 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1807,7 +1807,11 @@ def eta_function(
             lsigvm.append(np.log10(sigvm[-1]))
 
         if meq:
-            (eta, yeta), V=curve_fit(meq_func,10.0**np.array(lm_mean),10.0**np.array(lsigvm),bounds=([np.amin(cluster.m),0.],[np.amax(cluster.m),np.inf]))
+            # Fit in units of order unity, since the stopping criteria of the fit are not scale free
+            mscale, sscale = np.mean(m_mean), np.mean(sigvm)
+            (eta, yeta), V=curve_fit(meq_func,10.0**np.array(lm_mean)/mscale,10.0**np.array(lsigvm)/sscale,bounds=([np.amin(cluster.m)/mscale,0.],[np.amax(cluster.m)/mscale,np.inf]))
+            eta, yeta = eta*mscale, yeta*sscale
+            V = V*np.outer([mscale,sscale],[mscale,sscale])
         else:
             (eta, yeta), V = np.polyfit(lm_mean, lsigvm, 1, cov=True)
 
-- 
2.43.0

