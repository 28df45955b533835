From 98f41c09dc5528abc786f32e0e617d4276710757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:51 +0000
Subject: [PATCH 01/17] fix: use_math() must restore the scalar where()

use_math() rebound 'where' to itself, so after a use_numpy() the math backend
kept numpy.where and returned numpy scalars and 0-d arrays.
---
 pysolar/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 112a59e..badd73b 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -127,7 +127,7 @@ def use_math():
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
     globals_import_from('math', 'e', 'e')
-    globals()['where'] = where
+    globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
     globals()['tm_hour'] = tm_hour_math
     globals()['tm_min'] = tm_min_math
-- 
2.43.0


From f9bf9144555af015955e2b864f11070489534064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:15 +0000
Subject: [PATCH 02/17] fix: use_numpy() must bind numpy itself, not only its
 functions

When numpy could not be imported together with pysolar but is available when
use_numpy() is called, tm_yday/tm_hour/tm_min failed with NameError.
---
 pysolar/numeric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index badd73b..d275057 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -92,6 +92,8 @@ def use_numpy():
     """
     Import required functions/constants from numpy
     """
+    global numpy
+    import numpy
     globals_import_from('numpy', 'degrees', 'degrees')
     globals_import_from('numpy', 'cos', 'cos')
     globals_import_from('numpy', 'sin', 'sin')
-- 
2.43.0


From c9af610f5f7c5509716466bcc1de014d2d6d83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:19 +0000
Subject: [PATCH 03/17] fix: numpy backend must convert aware datetimes to UTC
 itself

numpy only honours whole minutes of a UTC offset (and warns on every aware
datetime), so tm_yday, tm_hour and tm_min could differ from the math backend
and between observers of the same instant.
---
 pysolar/numeric.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index d275057..44969cb 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -58,7 +58,15 @@ def tm_yday_math(d):
 tm_yday = tm_yday_math
 
 
+def to_utc(d):
+    """ numpy knows no time zones: turns an aware datetime into a naive one in UTC """
+    if getattr(d, 'tzinfo', None) is not None and d.utcoffset() is not None:
+        d = d.replace(tzinfo=None) - d.utcoffset()
+    return d
+
+
 def tm_yday_numpy(d):
+    d = to_utc(d)
     dd = numpy.array(d, dtype='datetime64[D]')
     dy = numpy.array(d, dtype='datetime64[Y]')
     return (dd - dy).astype('int') + 1
@@ -71,6 +79,7 @@ tm_hour = tm_hour_math
 
 
 def tm_hour_numpy(d):
+    d = to_utc(d)
     dh = numpy.array(d, dtype='datetime64[h]')
     dd = numpy.array(d, dtype='datetime64[D]')
     return (dh - dd).astype('int')
@@ -83,6 +92,7 @@ tm_min = tm_min_math
 
 
 def tm_min_numpy(d):
+    d = to_utc(d)
     dm = numpy.array(d, dtype='datetime64[m]')
     dh = numpy.array(d, dtype='datetime64[h]')
     return (dm - dh).astype('int')
-- 
2.43.0


From a87f1cd2afe965bcbb4573016fc0f16c51957d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:37 +0000
Subject: [PATCH 04/17] fix: datetime_range() must accept fractional
 step_minutes

The number of steps became a float, which range() refuses.
---
 pysolar/simulate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 0f223b7..2aa97a0 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -26,10 +26,9 @@ from . import solar
 
 def datetime_range(start_datetime, end_datetime, step_minutes):
     '''yields a sequence of datetimes evenly spaced apart by step_minutes.'''
-    step = step_minutes * 60
+    dt = datetime.timedelta(minutes = step_minutes)
     span = end_datetime - start_datetime
-    dt = datetime.timedelta(seconds = step)
-    for n in range((span.days * constants.seconds_per_day + span.seconds) // step) :
+    for n in range(span // dt) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From 31ac8397bcdbea0e7e41db013e4d61af2060bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:39 +0000
Subject: [PATCH 05/17] fix: datetime_range() must step in elapsed time across
 DST changes

Adding timedeltas to an aware datetime moves its wall clock, so around a DST
change an hour was skipped or visited twice and the span had the wrong length.
---
 pysolar/simulate.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 2aa97a0..c1bdaca 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -27,9 +27,17 @@ from . import solar
 def datetime_range(start_datetime, end_datetime, step_minutes):
     '''yields a sequence of datetimes evenly spaced apart by step_minutes.'''
     dt = datetime.timedelta(minutes = step_minutes)
+    tz = None
+    if start_datetime.utcoffset() != None and end_datetime.utcoffset() != None :
+        # count elapsed time: the local clock may jump on the way
+        tz = start_datetime.tzinfo
+        start_datetime = start_datetime.astimezone(datetime.timezone.utc)
+        end_datetime = end_datetime.astimezone(datetime.timezone.utc)
+    #end if
     span = end_datetime - start_datetime
     for n in range(span // dt) :
-        yield start_datetime + dt * n
+        time = start_datetime + dt * n
+        yield time if tz == None else time.astimezone(tz)
     #end for
 #end datetime_range
 
-- 
2.43.0


From d393b9c8b4f3a963d7d1e2b4d7adbecbe46a5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:41 +0000
Subject: [PATCH 06/17] fix: get_radiation_direct() must not overflow with the
 sun just below the horizon

Between -0.014 degrees and 0 the exponential overflowed: OverflowError with the
math backend, nan with numpy.
---
 pysolar/radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 8783de0..a0a0186 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -46,6 +46,7 @@ def get_radiation_direct(when, altitude_deg):
     day = math.tm_yday(when)
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
-    air_mass_ratio = get_air_mass_ratio(altitude_deg)
+    # the air mass is meaningless, and may overflow below, unless the sun is up
+    air_mass_ratio = get_air_mass_ratio(math.where(altitude_deg <= 0, 90, altitude_deg))
     return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From b5684f506626929038fab0005737cd500801fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 07/17] fix: get_delta_t() must use the last table entry for
 every month past the end

Past the last year of the table the month of the date was still used to pick
an entry of the last year, so e.g. January 2015 got the value of January 2014.
---
 pysolar/solartime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/solartime.py b/pysolar/solartime.py
index 14e9f11..0710933 100644
--- a/pysolar/solartime.py
+++ b/pysolar/solartime.py
@@ -732,7 +732,9 @@ def get_delta_t(when) :
     elif year == delta_t_base_year :
         month = max(0, month - delta_t_base_month) + 1
     elif year >= delta_t_base_year + len(delta_t) :
+        # past the end of the table: last entry
         year = delta_t_base_year + len(delta_t) - 1
+        month = 12
     #end if
     if year == delta_t_base_year + len(delta_t) - 1 :
         month = min(month, len(delta_t[year - delta_t_base_year]))
-- 
2.43.0


From 4d956d2cf35ca3ccd266f46ba76e2a187703e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:58 +0000
Subject: [PATCH 08/17] fix: sunrise, sunset and transit must not depend on the
 time of day on DST changes

The offset at the given moment was used to count hours from local midnight, and
wall clock arithmetic did the rest, so that on a day with a clock change the
results were an hour off and differed between moments of that day.
---
 pysolar/util.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 1b2fdd4..ae41e3a 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -29,7 +29,8 @@
 """
 from datetime import \
     datetime, \
-    timedelta
+    timedelta, \
+    timezone
 from . import numeric as math
 from . import solar, constants
 from .tzinfo_check import check_aware_dt
@@ -89,8 +90,12 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
 
     """
 
-    utc_offset = when.utcoffset()
+    # the local clock may be changed in the course of the day: count all times
+    # with the one offset that is in force at noon, whatever time of day is given
+    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = when.tzinfo)
+    utc_offset = same_day.replace(hour = 12).utcoffset()
     if utc_offset != None :
+        same_day = same_day.replace(tzinfo = timezone(utc_offset))
         utc_offset = utc_offset.total_seconds()
     else :
         utc_offset = 0
@@ -156,10 +161,14 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         *
             (12 / math.pi)
         )
-    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = when.tzinfo)
     sunrise_time = same_day + timedelta(hours = TON - ha)
     sunset_time = same_day + timedelta(hours = TON + ha)
     transit_time = same_day + timedelta(hours = TON)
+    if same_day.tzinfo != when.tzinfo :
+        sunrise_time = sunrise_time.astimezone(when.tzinfo)
+        sunset_time = sunset_time.astimezone(when.tzinfo)
+        transit_time = transit_time.astimezone(when.tzinfo)
+    #end if
     return sunrise_time, sunset_time, transit_time
 
 @check_aware_dt('when')
-- 
2.43.0


From 3b5ccc4f5d83a29bf77d495492651bacfcdf9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:13 +0000
Subject: [PATCH 09/17] fix: sunrise, sunset and transit must be those of the
 given local day

Where the local clock is far from the sun (UTC+13/+14 east of the date line, or
UTC asked for a place in the Pacific) they belonged to a neighbouring day.
---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index ae41e3a..a3dc83a 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -142,7 +142,7 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
             /
                 3600
         ) # Time adjustment in hours
-    TON = 12 + SHA / 15.0 - time_adst # Time of noon
+    TON = (12 + SHA / 15.0 - time_adst) % 24 # Time of noon, on the given day
     ha = \
         (
             math.acos(
-- 
2.43.0


From 8d62d9009d657b5b9d7ed484e0299beddf90e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:16 +0000
Subject: [PATCH 10/17] fix: get_delta_t script must reject malformed numbers
 and impossible months

int() and float() accept digit separators, nan and infinity, so a corrupted
file could end in a table with wrong or unusable entries; a month 13 was
accepted after December.
---
 util/get_delta_t | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/get_delta_t b/util/get_delta_t
index d0a4785..3c294c1 100755
--- a/util/get_delta_t
+++ b/util/get_delta_t
@@ -35,7 +35,12 @@ def parse_data(data) :
     for line in data.split("\n") :
         line = line.strip()
         if len(line) != 0 :
-            year, month, day, dt = tuple((int, float)[i == 3](s) for i, s in enumerate(re.split(r"\s+", line, 3)))
+            # int() and float() alone would also take things like "4_3.5" or "nan"
+            fields = re.fullmatch(r"([0-9]+)\s+([0-9]+)\s+([0-9]+)\s+([-+]?[0-9]+\.?[0-9]*)", line)
+            if fields == None :
+                raise ValueError("malformed line: %r" % line)
+            #end if
+            year, month, day, dt = tuple((int, float)[i == 3](s) for i, s in enumerate(fields.groups()))
             yield(year, month, day, dt)
         #end if
     #end for
@@ -47,6 +52,7 @@ while True :
     entry = next(entries, None)
     if entry != None :
         year, month, day, dt = entry
+        assert 1 <= month <= 12, "no such month in year %d: %d" % (year, month)
         assert day == 1, "not first day of month for year %d, month %d" % (year, month)
     #end if
     if entry == None or year != last_year :
-- 
2.43.0


From b4c31ef3345a6bb463a01a631e249945e4c146a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 11/17] fix: NoTimeZoneInfoError could not be unpickled, which
 broke process pools whose worker met a naive datetime

---
 pysolar/tzinfo_check.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 2518672..fff257f 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -9,6 +9,10 @@ class NoTimeZoneInfoError(ValueError):
     self.dt = dt
     super().__init__(*args)
 
+  def __reduce__(self):
+    # called with the same arguments again when unpickled (in another process, say)
+    return type(self), (self.argname, self.dt) + self.args
+
   def __str__(self):
     return """datetime value '{dt}' given for arg '{argname}' \
 should be made timezone-aware.
-- 
2.43.0


From 21afabe175f4b1f23f595b6027029ff22db3e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:14 +0000
Subject: [PATCH 12/17] fix: get_azimuth_fast() failed on a rounding error when
 the sun is due east or west

---
 pysolar/solar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 663d39b..24f29f3 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -170,7 +170,10 @@ def get_azimuth_fast(latitude_deg, longitude_deg, when):
     hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
     altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
 
-    azimuth_rad = math.asin(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad))
+    # the sine may exceed 1 by a rounding error when the sun is due east or west
+    azimuth_sin = -math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad)
+    azimuth_sin = math.where(azimuth_sin > 1, 1.0, math.where(azimuth_sin < -1, -1.0, azimuth_sin))
+    azimuth_rad = math.asin(azimuth_sin)
 
     return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),
                       (180 - math.degrees(azimuth_rad)),
-- 
2.43.0


From c48c05d65ea3752432315bcdd998159f3d442e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:16 +0000
Subject: [PATCH 13/17] fix: get_incidence_angle() failed on a rounding error
 when the surface faces the sun

---
 pysolar/solar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 24f29f3..cde57e6 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -259,7 +259,10 @@ def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topo
     slope_rad = math.radians(slope)
     so_rad = math.radians(slope_orientation)
     taa_rad = math.radians(topocentric_azimuth_angle)
-    return math.degrees(math.acos(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad)))
+    incidence_cos = math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad)
+    # may exceed 1 by a rounding error when the surface faces the sun
+    incidence_cos = math.where(incidence_cos > 1, 1.0, math.where(incidence_cos < -1, -1.0, incidence_cos))
+    return math.degrees(math.acos(incidence_cos))
 
 def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right_ascension):
     return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360
-- 
2.43.0


From 4d39197668c5528b8482cc43efbf273310baa899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 14/17] fix: altitude functions failed on a rounding error with
 the sun in the zenith or nadir

---
 pysolar/solar.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index cde57e6..63650a0 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -139,7 +139,10 @@ def get_altitude_fast(latitude_deg, longitude_deg, when):
     hour_angle = get_hour_angle(when, longitude_deg)
     first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
     second_term = math.sin(latitude_rad) * math.sin(declination_rad)
-    return math.degrees(math.asin(first_term + second_term))
+    # may exceed 1 by a rounding error when the sun is in the zenith or nadir
+    altitude_sin = first_term + second_term
+    altitude_sin = math.where(altitude_sin > 1, 1.0, math.where(altitude_sin < -1, -1.0, altitude_sin))
+    return math.degrees(math.asin(altitude_sin))
 
 
 def get_apparent_sidereal_time(jd, jme, nutation):
@@ -375,7 +378,10 @@ def get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topoc
     latitude_rad = math.radians(latitude)
     tsd_rad = math.radians(topocentric_sun_declination)
     tlha_rad = math.radians(topocentric_local_hour_angle)
-    return math.degrees(math.asin((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad)))
+    elevation_sin = (math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad)
+    # may exceed 1 by a rounding error when the sun is in the zenith or nadir
+    elevation_sin = math.where(elevation_sin > 1, 1.0, math.where(elevation_sin < -1, -1.0, elevation_sin))
+    return math.degrees(math.asin(elevation_sin))
 
 def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):
     return local_hour_angle - parallax_sun_right_ascension
-- 
2.43.0


From 4a774e3daa4933a59d08df36fdefc0cc7f9c5f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 15/17] fix: mean_earth_sun_distance follows the year

The division by 365 was outside the sine, of which only multiples of
2 pi were taken, so that the factor was 1 on every day.
---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index a3dc83a..c7e8a69 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -218,7 +218,7 @@ def mean_earth_sun_distance(when):
             radiation models, p.113
     """
 
-    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94)) / 365
+    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)
 
 @check_aware_dt('when')
 def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SC_default):
-- 
2.43.0


From 3eb29bef4e2666b11ac10a1a263f90a8dda2b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:54 +0000
Subject: [PATCH 16/17] fix: irradiance functions take the sine of the altitude
 in degrees

solarelevation_function_clear, solarelevation_function_overcast and
direct_underclear passed degrees to sin() and cos().
---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index c7e8a69..b541217 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -326,7 +326,7 @@ def solarelevation_function_clear(latitude_deg, longitude_deg, when, temperature
             and proposed new approaches", energy 30 (2005), pp 1533 - 1549.
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return (0.038175 + (1.5458 * (math.sin(altitude))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude))))))
 
 @check_aware_dt('when')
@@ -370,7 +370,7 @@ def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
         Design of Buildings"
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return ((-0.0067133) + (0.78600 * (math.sin(altitude)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))
 
 
@@ -527,9 +527,9 @@ def direct_underclear(latitude_deg, longitude_deg, when,
     DEC = declination_degree(when,TY)
 
     DIRC = (1367 * KD * math.exp(-0.8662 * (AM) * (TL) * (DEC)
-                             ) * math.sin(solar.get_altitude(latitude_deg,longitude_deg,
+                             ) * math.sin(math.radians(solar.get_altitude(latitude_deg,longitude_deg,
                                                           when,elevation ,
-                                                          temperature , pressure )))
+                                                          temperature , pressure ))))
 
     return DIRC
 
-- 
2.43.0


From e78c829e73a84d891a410ead566a70daf7bb82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:54 +0000
Subject: [PATCH 17/17] fix: global_irradiance_clear honours temperature,
 pressure and turbidity

They were accepted but replaced by the standard values in the terms it
adds up (turbidity in the diffuse term only).
---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index b541217..e015e9d 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -582,12 +582,12 @@ def global_irradiance_clear(latitude_deg, longitude_deg, when,
 
     """
     DIRC =  direct_underclear(latitude_deg, longitude_deg, when,
-                              TY, AM, TL, elevation, temperature = constants.standard_temperature,
-                              pressure = constants.standard_pressure)
+                              TY, AM, TL, elevation, temperature = temperature,
+                              pressure = pressure)
 
     DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
-                               elevation, temperature = constants.standard_temperature, 
-                               pressure= constants.standard_pressure)
+                               elevation, temperature = temperature,
+                               pressure = pressure, TL = TL)
 
     ghic = (DIRC + DIFFC)
 
-- 
2.43.0

