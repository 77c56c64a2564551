From b7cf76adfdbe0f507b419d3fe7b27e9f2adcd9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 01/34] fix: read decimal seconds of nav fixes with any number
 of digits

---
 shipgrav/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 4d16fab..656a9bc 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -166,9 +166,10 @@ def _clock_time(allnav, talker):
             post = post[1:]
         hour[i] = int(post[0][:2])   # hour
         mint[i] = int(post[0][2:4])  # min
-        sec0 = float(post[0][4:])  # sec.msec
-        msec[i] = int(int(str(sec0).split('.')[-1])*1e4)  # msec
-        sec[i] = int(str(sec0).split('.')[0])  # sec
+        sec0 = post[0][4:].split('.')  # sec.msec
+        sec[i] = int(sec0[0])  # sec
+        if len(sec0) > 1:  # decimal seconds, any number of digits -> microseconds
+            msec[i] = int(sec0[1][:6].ljust(6, '0'))
 
     return hour, mint, sec, msec
 
-- 
2.43.0


From e8c74061c887b2f4f32fc3ec6f153413ec503635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 02/34] fix: date nav fixes correctly when GPS and logger
 clocks straddle midnight

---
 shipgrav/io.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 656a9bc..bdc424c 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -1,7 +1,7 @@
 import mmap
 import os
 import re
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 
 import numpy as np
 import pandas as pd
@@ -174,6 +174,24 @@ def _clock_time(allnav, talker):
     return hour, mint, sec, msec
 
 
+def _match_logger_day(stamp, pre):
+    """Move a fix to the day that puts it closest to the logger's clock.
+
+    The date of a fix comes from the logger and its time of day from GPS, and around
+    midnight the two can be on different days. The logger time hh:mm:ss is at the end
+    of the string pre.
+    """
+    log = re.findall(r'(\d{2}):(\d{2}):(\d{2})(?:\.\d*)?[^\d:]*$', pre)
+    if log:
+        hour, mint, sec = [int(e) for e in log[0]]
+        ahead = (hour - stamp.hour)*3600 + (mint - stamp.minute)*60 + sec - stamp.second
+        if ahead > 43200:
+            stamp = stamp + timedelta(days=1)
+        elif ahead < -43200:
+            stamp = stamp - timedelta(days=1)
+    return stamp
+
+
 def _navdate_Atlantis(allnav, talker):
     """Extract datetime info from Atlantis nav files (at*.GPS).
     """
@@ -193,6 +211,7 @@ def _navdate_Atlantis(allnav, talker):
         day = int(date[2])  # day
         timest[i] = datetime(year, mon, day, hour[i], mint[i],
                              sec[i], msec[i], tzinfo=timezone.utc)
+        timest[i] = _match_logger_day(timest[i], pre)
     return timest
 
 
@@ -218,6 +237,7 @@ def _navdate_NBP(allnav, talker):
                                        mint[i], sec[i], msec[i]),
                                       '%Y-%j-%H:%M:%S:%f')
         timest[i] = timest[i].replace(tzinfo=timezone.utc)
+        timest[i] = _match_logger_day(timest[i], pre)
     return timest
 
 
@@ -240,6 +260,7 @@ def _navdate_Thompson(allnav, talker):
         day = int(date[1])
         timest[i] = datetime(year, mon, day, hour[i],
                              mint[i], sec[i], tzinfo=timezone.utc)
+        timest[i] = _match_logger_day(timest[i], pre)
     return timest
 
 
@@ -272,6 +293,7 @@ def _navdate_Revelle(allnav, talker):
                 day = int(date[2])
                 timest[i] = datetime(
                     year, mon, day, hour[i], mint[i], sec[i], msec[i], tzinfo=timezone.utc)
+                timest[i] = _match_logger_day(timest[i], before.split('$')[0])
                 break  # skip the rest of the stepping backwards once date is found
     return timest
 
-- 
2.43.0


From bb08090d302e4dc932743b3d9b4b56f6d6570c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 03/34] fix: clean longitude tracks at +/-180 without failing,
 jumping or inventing positions at gaps

---
 shipgrav/io.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index bdc424c..111ddb5 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -139,7 +139,7 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
                                  dtype=datetime)
 
     # check if we have probable longitude jumps, try to fix them
-    ilocs = np.where(abs(np.diff(gps_nav['lon'])) > 1)[0]
+    ilocs = np.where(abs(np.diff(gps_nav['lon'].dropna())) > 1)[0]
     if len(ilocs) > 0:
         # try to get rid of +- jumps (NBP, often)
         gps_nav = _clean_180cross(gps_nav)
@@ -378,9 +378,11 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
-    newlon = gps_nav['lon'].values
+    newlon = gps_nav['lon'].values.copy()
 
-    if sum(lpos) > sum(lneg):
+    if not np.any(abs(np.diff(gps_nav['lon'].dropna())) > 180):
+        pass  # a gap in the track, but not at +/- 180*
+    elif sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
     else:
         newlon[lpos] = -180 + newlon[lpos] % -180
@@ -390,11 +392,12 @@ def _clean_180cross(gps_nav):
     if len(ilocs) % 2 != 0:  # these are not paired, so one must be an end?
         pass
     else:  # pairs of indices for jump out and back
-        for i in ilocs[::2]:  # assume nice pairwise
-            # ad hoc duplication, not great
-            newlon[i+1] = (newlon[i] + newlon[i+2])/2
+        for i, j in zip(ilocs[::2], ilocs[1::2]):
+            if j == i+1:  # out and straight back, otherwise it is a gap in the track
+                # ad hoc duplication, not great
+                newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-    gps_nav = gps_nav.replace({'lon': newlon})
+    gps_nav['lon'] = newlon
 
     return gps_nav
 
-- 
2.43.0


From 194518c2762fd89ac8bd6a21917531f3b9a81ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 04/34] fix: refuse a nav file without the talker for every
 ship, not just Ride

---
 shipgrav/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 111ddb5..10244d7 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -110,6 +110,8 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
 
         if type(timest) is int and timest == -999:
             return timest  # eg looking for a talker that is not in a file
+        if len(timest) == 0:
+            return -999
 
         # posix, seconds, for interpolation
         sec_time = np.array([d.timestamp() for d in timest])
-- 
2.43.0


From ad3eef62e20f9979bbafe3ed295da7a8f0f01a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 05/34] fix: read the last line of a file in read_other_stuff

---
 shipgrav/io.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 10244d7..a28a840 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -850,12 +850,11 @@ def read_other_stuff(yaml_file, data_file, tag):
     # checks done, read in all the lines for this feed
     lines = []
     s.seek(0)
-    # get line, bytes->string, strip \r\n from end
-    ln = s.readline().decode('ascii').rstrip()
     while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
+        # get line, bytes->string, strip \r\n from end
+        ln = s.readline().decode('ascii').rstrip()
         if tag in ln:
             lines.append(ln)
-        ln = s.readline().decode('ascii').rstrip()  # next!
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From 9e5f7bcf1282a093e6324279f526589965bad412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 06/34] fix: use UTC hours for tides when timestamps are in
 another time zone

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7cc7ec9..d7a29ef 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -30,6 +30,7 @@ def _convert_datetime_tidetime(timestamp):
         - **julian_hour** (*float*) - hours since midnight
     """
     origin_time = datetime(1899, 12, 31, 12, 0, 0, tzinfo=timezone.utc)
+    timestamp = timestamp.astimezone(timezone.utc)  # hours below are UTC
     dt = timestamp - origin_time
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
-- 
2.43.0


From c668004f0830520ab0013429b64c0da37b17e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 07/34] fix: wavenumbers for odd-length profiles in
 grav1d_padded

---
 shipgrav/grav.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index d7a29ef..af1afe9 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -658,14 +658,14 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     # padtopo = np.append(baselev*wing,np.append(topo,baselev*wing))
     # padtopo = np.append(topo,topo[::-1])
     nxt = len(padtopo)
-    mfx = (nxt/2.) + 1
+    mfx = nxt//2 + 1
 
     k = (2*np.pi)/(nxt*dx)  # calculate wavenumbers
     k2 = k**2
     xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[-2:0:-1])
+    xi = np.append(xi1, xi1[nxt-mfx:0:-1])
     xxk = (xi-1)*(xi-1)*k2
-    kwn1 = np.sqrt(xxk[:nxt])
+    kwn1 = np.sqrt(xxk)
 
     Ftopo = np.fft.fft(padtopo)  # Fourier transform the topography
     Ftopo[0] = 0
-- 
2.43.0


From 8f0216744860f992903b71937c8c0c6bf2afeb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 08/34] fix: allow odd grid sizes without folding in
 grav2d_folding

---
 shipgrav/grav.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index af1afe9..ccb0444 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -767,11 +767,11 @@ def grav2d_folding(X, Y, Z, dx, dy, drho=0.6, dz=6000, ifold=True, npower=5):
 
     # wavenumbers:
     yj1 = np.arange(1, mfy+1)
-    yj = np.append(yj1, yj1[mfy-2:0:-1])
+    yj = np.append(yj1, yj1[nyt-mfy:0:-1])
     yyk = (yj-1)*(yj-1)*ky2
 
     xi1 = np.arange(1, mfx+1)
-    xi = np.append(xi1, xi1[mfx-2:0:-1])
+    xi = np.append(xi1, xi1[nxt-mfx:0:-1])
     xxk = (xi-1)*(xi-1)*kx2
 
     kwn1 = np.zeros((nxt, nyt))
-- 
2.43.0


From 96b29de49aa330ecbc632364d0bd85272903822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 09/34] fix: wavenumbers off by one in crustal_thickness_2D

---
 shipgrav/grav.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index ccb0444..e5a4925 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1205,15 +1205,15 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
 
     kwn1 = np.zeros((nx, ny))  # compute wavenumbers in 2D
     for j in range(ny):
-        yj = j
-        if j > mfy:
-            yj = mfy*2 - j
+        yj = j + 1  # numbered from 1, like mfy
+        if yj > mfy:
+            yj = mfy*2 - yj
         yyk = kint2**2 * (yj-1)**2
 
         for i in range(nx):
-            xi = i
-            if i > mfx:
-                xi = mfx*2 - i
+            xi = i + 1
+            if xi > mfx:
+                xi = mfx*2 - xi
             xxk = kint1**2 * (xi-1)**2
 
             kwn1[i, j] = np.sqrt(xxk + yyk)
-- 
2.43.0


From 46ce7c32e898c2a6abc3c4a7056111ddbf54004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 10/34] fix: use the data after the last gap, and up to each
 gap, for cross-coupling

---
 shipgrav/grav.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index e5a4925..25a9461 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -366,13 +366,13 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         - **model** (*statsmodels.OLS*)- linear regression model
     """
 
-    end_inds = np.array([len(faa_in),])  # just the one
+    end_inds = np.array([len(faa_in)-1,])  # just the one
     if times is not None:  # supplied a vector of timestamps to go with everything else
         # split data into segments of continuous even sample rate
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.where(tdiff > 5*samplerate)[0]
+            end_inds = np.append(np.where(tdiff > 5*samplerate)[0], end_inds)
 
     end_inds = np.append(-1, end_inds)  # add starting point
 
@@ -384,12 +384,12 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
     le_tf = np.array([])  # things to fit
 
     for i in range(1, len(end_inds)):  # loop continuous-time segments
-        faa = faa_in[end_inds[i-1]+1:end_inds[i]]
-        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]]
-        ve = ve_in[end_inds[i-1]+1:end_inds[i]]
-        al = al_in[end_inds[i-1]+1:end_inds[i]]
-        ax = ax_in[end_inds[i-1]+1:end_inds[i]]
-        level = level_in[end_inds[i-1]+1:end_inds[i]]
+        faa = faa_in[end_inds[i-1]+1:end_inds[i]+1]
+        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]+1]
+        ve = ve_in[end_inds[i-1]+1:end_inds[i]+1]
+        al = al_in[end_inds[i-1]+1:end_inds[i]+1]
+        ax = ax_in[end_inds[i-1]+1:end_inds[i]+1]
+        level = level_in[end_inds[i-1]+1:end_inds[i]+1]
         if len(faa) < 1000:
             continue  # no point for very short segments
         # double derivatives with taylor series
-- 
2.43.0


From 395c872ae8ceec5118f65f5535b52e2cd25accbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 11/34] fix: differentiate pandas.Series by position in
 center_diff

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 25a9461..01a4d66 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -467,6 +467,7 @@ def center_diff(y, n, samp):
 
     :return: 1st or 2nd order derivative of **y**
     """
+    y = np.asarray(y)  # a pandas.Series would line up labels, not positions
     if n == 1:
         return (y[2:] - y[:-2])*(samp/2)
     elif n == 2:
-- 
2.43.0


From 71fde443ca7dbc59a3b7cc354491e4ccf27d662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 12/34] fix: filter pandas.Series by position in
 gaussian_filter

---
 shipgrav/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 46b5322..d1c0270 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -23,6 +23,7 @@ def gaussian_filter(x, fl):
 
     assert len(x) > fl, 'raw data is shorter than gaussian filter'
 
+    x = np.asarray(x)  # a pandas.Series would be read by label, not position
     coeffs = _gaussian_coeffs(fl)
 
     # set up ring buffer
-- 
2.43.0


From fb3bdf0c47321e23153657875c99dff19b3b024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 13/34] fix: keep equals signs in values in clean_ini_to_toml

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index d1c0270..7ecf5f7 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -147,7 +147,7 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
 
-        val = ln.split('=')[1]  # get value from key=value pair
+        val = ln.split('=', 1)[1]  # get value from key=value pair
         extra_comm = ''
         if '#' in val:
             val = val.split('#')[0]
-- 
2.43.0


From 3af7c56e96b55e21ec12055cc7914df5fc0840c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 14/34] fix: ignore picker clicks outside the time series and
 pops of an empty selection

---
 shipgrav/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 7ecf5f7..3637110 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -262,6 +262,8 @@ class _SnappingCursor:
             self.ax1.figure.canvas.draw()
 
     def on_mouse_click(self, event):
+        if not event.inaxes == self.ax1:
+            return  # only the time series can be picked from
         if event.button == 1:
             x, y = event.xdata, event.ydata
             ind_x = np.argmin(abs(x - self.data['tsec']))
@@ -270,7 +272,7 @@ class _SnappingCursor:
             self.i_seg.append(ind_x)
             self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
 
-        if event.button == 3:  # pop the last element of the lists
+        if event.button == 3 and self.i_seg:  # pop the last element of the lists
             self.x_seg.pop()
             self.y_seg.pop()
             self.i_seg.pop()
-- 
2.43.0


From ee08626e4bd189fd0d293b021ffce7d89935b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 15/34] fix: snap the picker cross-hair to the closest point,
 the one a click selects

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 3637110..0fced11 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -245,7 +245,7 @@ class _SnappingCursor:
         else:
             self.set_cross_hair_visible(True)
             x, y = event.xdata, event.ydata
-            index = min(np.searchsorted(self.x, x), len(self.x) - 1)
+            index = np.argmin(abs(self.x - x))
             if index == self._last_index:
                 return  # still on the same data point. Nothing to do.
             self._last_index = index
-- 
2.43.0


From 421bb49188670136cd5172bce0df731e8b3d0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 16/34] fix: do not average away a lone fix between two gaps in
 the same direction

---
 shipgrav/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index a28a840..c938c14 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -394,8 +394,10 @@ def _clean_180cross(gps_nav):
     if len(ilocs) % 2 != 0:  # these are not paired, so one must be an end?
         pass
     else:  # pairs of indices for jump out and back
+        dlon = np.diff(newlon)
         for i, j in zip(ilocs[::2], ilocs[1::2]):
-            if j == i+1:  # out and straight back, otherwise it is a gap in the track
+            # out and straight back, otherwise it is a gap in the track
+            if j == i+1 and dlon[i]*dlon[j] < 0:
                 # ad hoc duplication, not great
                 newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-- 
2.43.0


From 57d148a9e4d37fabd3998a020b1a496a7ddd15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 17/34] fix: accept indented comments and whitespace-only lines
 in clean_ini_to_toml

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 0fced11..9376acf 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -142,7 +142,7 @@ def clean_ini_to_toml(ini_file):
         if ln.startswith('$'):
             ln = re.sub(r'\$', '', ln)  # clean out $ for talkers
 
-        if ln.startswith('[') or ln.startswith('#') or ln == '':
+        if ln.startswith('[') or ln.lstrip().startswith('#') or ln.strip() == '':
             fo.write(ln)
             fo.write('\n')
             continue
-- 
2.43.0


From 8a1d41173d9fff07d24827cc6dadd9528037f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 18/34] fix: exact microseconds for Ride/Sikuliaq GPGGA fixes

---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index c938c14..d19de2d 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -325,7 +325,7 @@ def _navdate_Ride(allnav, talker):
             hour = int(date[3])
             mint = int(date[4])
             sec = int(date[5])
-            msec = int(float('.'+date[6])*1e6)
+            msec = int(date[6][:6].ljust(6, '0'))  # microseconds
             timest[i] = datetime(year, mon, day, hour, mint,
                                  sec, msec, tzinfo=timezone.utc)
     return timest
-- 
2.43.0


From b607daae3fb3d9c12946c359525c43bba9022961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 19/34] fix: extract only lines of the named feed in
 read_other_stuff

---
 shipgrav/io.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index d19de2d..68def8b 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -846,17 +846,19 @@ def read_other_stuff(yaml_file, data_file, tag):
     # check to make sure tag appears in the data file
     with open(data_file, 'rb') as file:
         s = mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ)
-        result = s.find(bytes(tag, 'ascii'))
-    assert result != -1, '%s not in data file %s' % (tag, data_file)
+        # not a longer tag that starts the same, or a mention of this one
+        feed = re.compile(re.escape(bytes(dtag, 'ascii')) + rb'\b')
+        result = feed.search(s)
+    assert result is not None, '%s not in data file %s' % (tag, data_file)
 
     # checks done, read in all the lines for this feed
     lines = []
     s.seek(0)
     while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
-        # get line, bytes->string, strip \r\n from end
-        ln = s.readline().decode('ascii').rstrip()
-        if tag in ln:
-            lines.append(ln)
+        ln = s.readline()
+        if feed.search(ln):
+            # bytes->string, strip \r\n from end
+            lines.append(ln.decode('ascii').rstrip())
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From 9867aca3142e96162b7688ea4d8386f4607c9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 20/34] fix: keep empty first fields of a feed in place in
 read_other_stuff

---
 shipgrav/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 68def8b..cce59b3 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -864,13 +864,15 @@ def read_other_stuff(yaml_file, data_file, tag):
     # split into pre-tag (might be '') and post-tag
     tagsplit = [e.split(dtag) for e in lines]
     # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
-    named_fields = [tagsplit[i][1].strip(',').split(
-        ',') for i in range(len(tagsplit))]
+    named_fields = [tagsplit[i][1].rstrip(',').split(
+        ',')[1:] for i in range(len(tagsplit))]
 
     # make a dataframe, using yaml and including any timestamp-like info that might be before the tag
     # Note that the format of the lines we're working with is usually some variation on:
     # [date/timestamp, maybe], $TAG, comma, separated, fields, listed, in, yaml
     colnames = re.sub('{|}', '', ym['format'][tag]).split(',')[1:]
+    # fields left empty at the end of a line are missing
+    named_fields = [e + [None]*(len(colnames) - len(e)) for e in named_fields]
     df = pd.DataFrame(named_fields, columns=colnames)
     df['mystery'] = [tagsplit[i][0]
                      for i in range(len(tagsplit))]  # any pre-tag stuff
-- 
2.43.0


From d319c2d542dfc38e967754163effba71591e0e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 21/34] fix: keep logger timestamps when one line is cut off in
 DGS serial files

---
 shipgrav/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index cce59b3..bc79c7a 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -756,12 +756,12 @@ def _dgs_raw_general(path):
     # special case of not synced for timestamp, but stamp might be in string elsewhere
     if not conv_times and not dat.iloc[0]['string'].startswith('$'):
         # split string for possible timestamp
-        try:
-            times = [e.split(' ')[0] for e in dat['string'].values]
-            dat['date_time'] = pd.to_datetime(times, format='ISO8601')
-        except:
-            print('raw (serial) timestamps not found/converted')
-            pass  # if it doesn't work, oh well
+        times = pd.to_datetime([str(e).split(' ')[0] for e in dat['string'].values],
+                               utc=True, format='ISO8601', errors='coerce')
+        if times.isna().all():
+            print('raw (serial) timestamps not found/converted')  # oh well
+        else:  # a line that is cut off must not cost the others their times
+            dat['date_time'] = times
 
     return dat
 
-- 
2.43.0


From 8afade777851ab54302012892c5b2defb83db177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 22/34] fix: leave slashes inside quoted values alone in
 clean_ini_to_toml

---
 shipgrav/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 9376acf..e08f776 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -122,8 +122,8 @@ def clean_ini_to_toml(ini_file):
     with open(ini_file, 'r') as file:
         text = file.read()  # just read the whole thing
 
-    # fix comments (// to #)
-    text = re.sub('//', '#', text)
+    # fix comments (// to #), but not inside quoted values
+    text = re.sub(r'(=[ \t]*"[^"\n]*")|//', lambda m: m.group(1) or '#', text)
 
     # clean out tabs
     text = re.sub('\t', '  ', text)
-- 
2.43.0


From fcd7ef43517bf3d61b1aa5fd8021c82c85f4833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 23/34] fix: convert TRUE and FALSE only as whole values in
 clean_ini_to_toml

---
 shipgrav/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index e08f776..cd2110e 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -128,10 +128,6 @@ def clean_ini_to_toml(ini_file):
     # clean out tabs
     text = re.sub('\t', '  ', text)
 
-    # fix TRUE and FALSE
-    text = re.sub('TRUE', 'true', text)
-    text = re.sub('FALSE', 'false', text)
-
     text = re.sub('$', '', text)
 
     # fix unquoted strings and write
@@ -154,8 +150,9 @@ def clean_ini_to_toml(ini_file):
             extra_comm = '='.join(val.split('#')[1:])
         val = val.strip()
 
-        if val == 'true' or val == 'false':  # skip bools
-            fo.write(ln)
+        if val in ['TRUE', 'FALSE', 'true', 'false']:  # fix TRUE and FALSE
+            key, rest = ln.split('=', 1)
+            fo.write(key + '=' + rest.replace(val, val.lower(), 1))
             fo.write('\n')
             continue
         if val.startswith("\""):  # skip strings already quoted
-- 
2.43.0


From e219d1ad080ceb6d9801e8bef8a493c3a632de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 24/34] fix: keep dollar signs in the values of talker entries
 in clean_ini_to_toml

---
 shipgrav/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index cd2110e..459d059 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -136,7 +136,7 @@ def clean_ini_to_toml(ini_file):
     lines = text.split('\n')
     for ln in lines:
         if ln.startswith('$'):
-            ln = re.sub(r'\$', '', ln)  # clean out $ for talkers
+            ln = ln.lstrip('$')  # clean out $ for talkers
 
         if ln.startswith('[') or ln.lstrip().startswith('#') or ln.strip() == '':
             fo.write(ln)
-- 
2.43.0


From c46ab3b1db31cec620fd5493d9d8dc67c5d84697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 25/34] fix: escape backslashes and quotes in unquoted text in
 clean_ini_to_toml

---
 shipgrav/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 459d059..17c6484 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -162,6 +162,7 @@ def clean_ini_to_toml(ini_file):
         try:
             float(val)
         except:
+            val = val.replace('\\', '\\\\').replace('"', '\\"')
             val = "\"" + val + "\""
             ln = '= '.join((ln.split('=')[0], val))
             if extra_comm != '':
-- 
2.43.0


From 376a73a9a7b2a5944d4b4b4dc384a4e71c019bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 26/34] fix: write numbers that toml spells differently as toml
 numbers in clean_ini_to_toml

---
 shipgrav/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 17c6484..ca39c9a 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -160,7 +160,10 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
         try:
-            float(val)
+            num = float(val)
+            if not re.fullmatch(r'[+-]?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?', val):
+                # not a number to toml (.5, 5., 007, NaN)
+                ln = ln.split('=')[0] + '=' + ln.split('=', 1)[1].replace(val, repr(num), 1)
         except:
             val = val.replace('\\', '\\\\').replace('"', '\\"')
             val = "\"" + val + "\""
-- 
2.43.0


From 36f6426a6b7284366c858952fc142b1d7f104ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 27/34] fix: accept lists in free_air_second_order and
 longman_tide_prediction

---
 shipgrav/grav.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 01a4d66..1d8aa67 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -101,10 +101,10 @@ def longman_tide_prediction(lon, lat, times, alt=0, return_components=False):
     # Inclination of the Earth's equator to the ecliptic 23.452 degrees
     omega = np.radians(23.452)
     lamb = np.radians(lat)  # (lambda) Latitude of point
-    H = alt * 100.  # (H) Altitude above sea-level of point P in cm
+    H = np.multiply(alt, 100.)  # (H) Altitude above sea-level of point P in cm
 
     # Longman convention has W+/E- for unknown reasons
-    L = -lon
+    L = np.negative(lon)
 
     # Lunar gravity effects (Shureman 1941 coeffs)
     # mean longitude of the moon in its orbit, reckoned from the referred equinox
@@ -314,9 +314,9 @@ def free_air_second_order(lat, ht, free_water=False):
     s2lat = np.sin(np.deg2rad(lat))**2
 
     if not free_water:
-        return -((0.3087691 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
+        return -((0.3087691 - 0.0004398*s2lat)*ht) + 7.2125e-8*np.square(ht)
     else:
-        return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*(ht**2)
+        return -((0.22242 - 0.0004398*s2lat)*ht) + 7.2125e-8*np.square(ht)
 
 
 def wgs_grav(lat):
-- 
2.43.0


From 058f97de0d555867c8239a106f86f3f6f9640987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 28/34] fix: read isotherm temperatures by position in
 therm_Z_plate

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 1d8aa67..661eeb5 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1118,6 +1118,7 @@ def therm_Z_plate(x, T, u=0.01, zL0=100.e3, Tm=1350, time=False,
     """
 
     z = np.arange(minz, maxz, zsp)
+    T = np.asarray(T)  # a pandas.Series would be read by label, not position
 
     Tp, _ = therm_plate(x, z, u=u, zL0=zL0, Tm=Tm, time=time, rhom=rhom, rhow=rhow,
                         a=a, k=k)  # calculate the whole temperature field
-- 
2.43.0


From add78b61a78f5007037292655375efa8e92a4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 29/34] fix: accept any array_like in grav1d_padded,
 crustal_thickness_2D and the half-space models

---
 shipgrav/grav.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 661eeb5..5b0806c 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -646,6 +646,7 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     """
     G = 6.673*1e-8
     grav = 2*np.pi*G*rho
+    xtopo, topo = np.asarray(xtopo), np.asarray(topo)
     baselev = np.mean(topo)  # mean topography for baseline
 
     # spacing of coordinates, must be constant
@@ -930,6 +931,7 @@ def therm_halfspace(x, z, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000,
 
     secyr = 365.25*24*3600  # seconds per year
 
+    x = np.asarray(x)
     if time:
         x = x*1e6*secyr  # convert Myr to sec
     elif not time:
@@ -980,6 +982,7 @@ def therm_Z_halfspace(x, T, u=0.01, Tm=1350, time=False, rhom=3300, rhow=1000,
 
     secyr = 365.25*24*3600  # seconds per year
 
+    x = np.asarray(x)
     if time:
         x = x*1e6*secyr  # convert Myr to sec
     elif not time:
@@ -1173,6 +1176,7 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
     """
     assert wlarge > wsmall, 'wlarge must be larger than wsmall'
 
+    ur = np.asarray(ur)
     ave = np.mean(ur)
 
     # shift to a new reference and convert milligal to gal
-- 
2.43.0


From 9bb0bfad3ebc9561b577d3051fdd71cdb7420f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 30/34] fix: eotvos_full gave numbers for three positions and
 four of another column

---
 shipgrav/grav.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 5b0806c..3923a4c 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -226,6 +226,9 @@ def eotvos_full(lon, lat, ht, samp, a=6378137.0, b=6356752.3142):
 
     :return: **E** (*ndarray*), Eotvos correction in mGal
     """
+    assert len(lon) == len(lat) and len(lon) == len(
+        ht), 'lengths of input vectors must be the same'
+
     We = 0.00007292115    # siderial rotation rate, radians/sec
     mps2mgal = 100000     # m/s/s to mgal
     ecc = (a-b)/a
-- 
2.43.0


From b849cc1bb96eec554d39fd79a0e17d0a2548a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 31/34] fix: an empty file in a list turned the numbers of the
 other meter files into objects

---
 shipgrav/io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index bc79c7a..d1057a7 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -440,6 +440,8 @@ def read_bgm_rgs(fp, ship, progressbar=True):
         dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'),utc=True)
         dats.append(dat)
 
+    # a file without records has no types, and would make objects of the numbers of the others
+    dats = [e for e in dats if len(e)] or dats
     return pd.concat(dats, ignore_index=True)
 
 
@@ -501,6 +503,8 @@ def read_bgm_raw(fp, ship, scale=None, ship_function=None, progressbar=True):
                 return -999
         dat['rgrav'] = scale*dat['counts']
         dats.append(dat)
+    # a file without records has no types, and would make objects of the numbers of the others
+    dats = [e for e in dats if len(e)] or dats
     return pd.concat(dats, ignore_index=True)
 
 
@@ -610,6 +614,8 @@ def read_dgs_laptop(fp, ship, ship_function=None, progressbar=True):
 
         dats.append(dat)  # append the DataFrame for this filepath
 
+    # a file without records has no types, and would make objects of the numbers of the others
+    dats = [e for e in dats if len(e)] or dats
     return pd.concat(dats, ignore_index=True)
 
 
@@ -732,6 +738,8 @@ def read_dgs_raw(fp, ship, scale_ccp=True, progressbar=True):
             dat['vcc'] = dat['vcc'].mul(0.00001)  # -0.000029)
         dats.append(dat)
 
+    # a file without records has no types, and would make objects of the numbers of the others
+    dats = [e for e in dats if len(e)] or dats
     return pd.concat(dats, ignore_index=True)
 
 
-- 
2.43.0


From 53dbd8e0e9aaed7e37c290ce55ab34fb1789cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 32/34] fix: keep undecodable bytes from vanishing from
 Langseth laptop numbers

---
 shipgrav/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index d1057a7..793ac19 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -657,7 +657,8 @@ def _dgs_laptop_Langseth(path):
     """
     cleaned, skipped = [], 0
 
-    with open(path, 'r', encoding='utf-8', errors='ignore') as f:
+    # a byte that is not text must not vanish from a number and leave another one
+    with open(path, 'r', encoding='utf-8', errors='replace') as f:
         for ln_no, raw in enumerate(f, 1):
             s = raw.lstrip()  # remove leading spaces before 'dgsdata'
             # Remove optional prefix: "dgsdata yyyy:ddd:hh:mm:ss.ssss "
-- 
2.43.0


From ecc4ce5d2a92106342555676c26a5d11fe4bc7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:11 +0000
Subject: [PATCH 33/34] fix: keep crustal thickness finite where removed
 wavelengths are too short to continue

---
 shipgrav/grav.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 3923a4c..d90f1d2 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -1242,6 +1242,9 @@ def crustal_thickness_2D(ur, nx=1000, ny=1, dx=1.3, dy=0, zdown=10, rho=0.4,
                 t = (kwn1[i, j]-kcut1)/dkcut*np.pi
                 wgt = (np.cos(t)+1)/2
 
+            if wgt == 0:  # removed, however far its continuation would have gone
+                ur_arr_ft[i, j] = 0
+                continue
             ur_arr_ft[i, j] = ur_arr_ft[i, j] * \
                 np.exp(kwn1[i, j]*zdown)*topo1*wgt
 
-- 
2.43.0


From 1cc9f5b8c130ad06781540496b5d8389428be2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:14 +0000
Subject: [PATCH 34/34] fix: expand relief along a line about its mean level,
 which its distance is counted from

---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index d90f1d2..45bf41c 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -651,6 +651,7 @@ def grav1d_padded(xtopo, topo, zlev, rho):
     grav = 2*np.pi*G*rho
     xtopo, topo = np.asarray(xtopo), np.asarray(topo)
     baselev = np.mean(topo)  # mean topography for baseline
+    topo = topo - baselev  # the series is about this level, and the continuation starts from it
 
     # spacing of coordinates, must be constant
     dx = (xtopo[-1]-xtopo[0])/(len(xtopo)-1)
-- 
2.43.0

