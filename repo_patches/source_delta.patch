From 4e0bb77b4ade0b62b995f8feb29e45beb306b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 01/79] fix: write grid files with fewer than three rows or
 columns

The analysis block sampled the cell past the grid centre, which does not
exist for grids with one or two rows or columns, so writing raised
IndexError.
---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a054a7..ddb0c4a 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1014,10 +1014,10 @@ class GridFile(DataManagementFile):
         )
 
         # Write a basic analysis block (type 2)
-        rx1 = self.nx // 2
-        rx2 = rx1 + 1
-        ry1 = self.ny // 2
-        ry2 = ry1 + 1
+        rx2 = min(self.nx // 2 + 1, self.nx - 1)
+        rx1 = max(rx2 - 1, 0)
+        ry2 = min(self.ny // 2 + 1, self.ny - 1)
+        ry1 = max(ry2 - 1, 0)
         dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
-- 
2.43.0


From f9885b609c6cf0d177a46d64982fb5d004c56479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 02/79] fix: pack and unpack grids whose data occupy a single
 word

Packing such a grid failed on an empty reduction and reading one dropped
the grid.
---
 src/gempakio/decode/gempak.py | 6 +++---
 src/gempakio/encode/gempak.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4667a3e..7ad04cc 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -808,7 +808,7 @@ class GempakGrid(GempakFile):
         if packing_type == PackingType.none:
             lendat = self.data_header_length - part.header_length - 1
 
-            if lendat > 1:
+            if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
                 grid = np.zeros(self.ky * self.kx, dtype=np.float32)
@@ -851,7 +851,7 @@ class GempakGrid(GempakFile):
             packed_buffer = self._buffer.read_struct(struct.Struct(packed_buffer_fmt))
             grid = np.zeros((self.ky, self.kx), dtype=np.float32)
 
-            if lendat > 1:
+            if lendat > 0:
                 iword = 0
                 ibit = 1
                 first = True
@@ -919,7 +919,7 @@ class GempakGrid(GempakFile):
             packed_buffer = np.array(
                 self._buffer.read_struct(struct.Struct(packed_buffer_fmt)), dtype=np.int32
             )
-            if lendat > 1:
+            if lendat > 0:
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index ddb0c4a..6bc489c 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -97,7 +97,9 @@ def pack_grib(grid, missing_float, nbits=16):
         # The maximum number of input words covered by each output word (maybe tack on one for
         # the other part of any split words)
         any_split_words = (32 / nbits) != (32 // nbits)
-        n_input_words = np.diff(word_start_idxs).max() + (1 if any_split_words else 0)
+        n_input_words = np.diff(word_start_idxs, append=kxky).max() + (
+            1 if any_split_words else 0
+        )
 
         # Now construct 2d arrays of shifts and input indexes, where each array is the output
         # length by number of input words per output word
-- 
2.43.0


From d8e0381d1c4a67c26c403cda163cbe734e7f732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 03/79] fix: leave missing points out of the range of packed
 grids

The missing value became the packing reference, so that a grid with any
missing point lost nearly all of its precision.
---
 src/gempakio/encode/gempak.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 6bc489c..c38d0e4 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -56,8 +56,9 @@ def pack_grib(grid, missing_float, nbits=16):
         qmin = missing_float
         qmax = missing_float
     else:
-        qmin = grid.min()
-        qmax = grid.max()
+        valid = grid[grid != missing_float]
+        qmin = valid.min()
+        qmax = valid.max()
 
     qdiff = qmax - qmin
     idat = round(qdiff)
-- 
2.43.0


From 93f259b68c3fe23f71c21eae1612001ff978ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 04/79] fix: keep the largest packed value clear of the missing
 code

When scaling down, the largest value could round up to all ones, which
reads back as missing.
---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index c38d0e4..92d0b52 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -73,7 +73,7 @@ def pack_grib(grid, missing_float, nbits=16):
         nnnn = 0
         if abs(qdiff) > (2**-126 * imax):  # Smallest number for 32-bit float
             if idat >= imax:
-                while idat >= imax:
+                while round(idat) >= imax:
                     nnnn -= 1
                     idat = qdiff * 2**nnnn
             else:
-- 
2.43.0


From 40ddcf98b734205d7742d6063a99b708cf7e8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 05/79] fix: copy grids when they are added to a file

Adding a grid replaced the missing values in the caller's own array and
kept a reference to it, so later changes by the caller were written.
The copy is floating point, as integer arrays overflowed when packed.
---
 src/gempakio/encode/gempak.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 92d0b52..927f15b 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -318,7 +318,8 @@ class DataManagementFile:
         self.make_row_header = namedtuple('RowHeader', self.row_names)
 
     def _replace_nan(self, array):
-        """Replace nan values from an array with missing value."""
+        """Copy an array with nan values replaced by the missing value."""
+        array = np.array(array, dtype=np.result_type(array, np.float32))
         nan_loc = np.isnan(array)
         array[nan_loc] = self._missing_float
         return array
-- 
2.43.0


From a6bb4a5767c2f0d2848e38599925dc2af9b8c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 06/79] fix: check the length of the secondary date string
 itself

The primary date was checked instead, which failed when it was a datetime
and the secondary one a string.
---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 927f15b..0153798 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -885,7 +885,7 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time) < 12:
+                if len(date_time2) < 12:
                     raise ValueError(
                         f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
                     )
-- 
2.43.0


From 00f50d1d7074297f68a7a2fe76c34d7b5bad44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 07/79] fix: sort grids with and without a secondary date
 together

Adding both kinds to one file raised TypeError.
---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 0153798..04c797d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -923,7 +923,7 @@ class GridFile(DataManagementFile):
         new_column = (
             (grid_type, init_date),
             (grid_type, forecast_hour, forecast_minute),
-            (grid_type2, init_date2) if date_time2 is not None else 0,
+            (grid_type2, init_date2) if date_time2 is not None else (),
             (grid_type2, forecast_hour2, forecast_minute2),
             level,
             level2 if level2 is not None else -1,
@@ -977,7 +977,7 @@ class GridFile(DataManagementFile):
                 elif 'i' in dtype:
                     if key in ['GDT1', 'GDT2']:
                         value = getattr(ch, key)
-                        if value != 0:
+                        if value:
                             itype, dattim = value
                             if itype == 0:
                                 idate = int(dattim.strftime('%y%m%d'))
-- 
2.43.0


From a1c879346ec222667b00760ea173987713f36949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 08/79] fix: do not list a grid whose data were rejected

A grid that is not numeric raised an error after its header had been
added, so the file listed a grid without data.
---
 src/gempakio/encode/gempak.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 04c797d..2aba415 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -936,9 +936,8 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
-        self._column_set.add(self.make_column_header(*new_column))
-
         self.data[new_column] = self._replace_nan(grid)
+        self._column_set.add(self.make_column_header(*new_column))
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From a16fe662ecbcede355eb17cbd2c735717fc4dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 09/79] fix: keep the time of analysis grids given as
 YYYYmmddHHMMA

The hour and minute of the date were dropped and replaced by the offset
after the type.
---
 src/gempakio/encode/gempak.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 2aba415..cb932a1 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -861,6 +861,11 @@ class GridFile(DataManagementFile):
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                if grid_type == 0:
+                    # Analyses are stored with their own time, not an offset
+                    init_date += timedelta(hours=forecast_hour, minutes=forecast_minute)
+                    forecast_hour = init_date.hour
+                    forecast_minute = init_date.minute
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
@@ -902,6 +907,10 @@ class GridFile(DataManagementFile):
                     else:
                         forecast_hour2 = 0 if fhr == '' else int(fhr)
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                    if grid_type2 == 0:
+                        init_date2 += timedelta(hours=forecast_hour2, minutes=forecast_minute2)
+                        forecast_hour2 = init_date2.hour
+                        forecast_minute2 = init_date2.minute
                     if grid_type != grid_type2:
                         raise ValueError('Grid type mismatch in date_time and date_time2.')
                 elif len(split_time) > 3:
-- 
2.43.0


From 8172a736ca281b268df860219e013518d3cf0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 10/79] fix: read the origin of LEA and GNO projections from
 their parameters

The expression that searched the WKT stopped at the exponent of values such
as 1e-05, so an origin close to zero was stored as 1.
---
 src/gempakio/encode/gempak.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index cb932a1..d001a00 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -688,10 +688,8 @@ class GridFile(DataManagementFile):
                 name = 'equidistant_cylindrical'
             elif method == 'Gnomonic':
                 name = 'gnomonic'
-                params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             elif 'Lambert Azimuthal Equal Area' in method:
                 name = 'lambert_azimuthal_equal_area'
-                params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             else:
                 name = 'unknown'
 
@@ -731,29 +729,15 @@ class GridFile(DataManagementFile):
             self.angle3 = self.rotation
         elif name == 'lambert_azimuthal_equal_area':
             self.gemproj = 'LEA'
-            self.angle1 = float(
-                re.search(
-                    r'(?:\"Latitude of natural origin\",(?P<lat_0>-?\d{1,2}\.?\d*))', params
-                ).groupdict()['lat_0']
-            )
-            self.angle2 = float(
-                re.search(
-                    r'(?:\"Longitude of natural origin\",(?P<lon_0>-?\d{1,3}\.?\d*))', params
-                ).groupdict()['lon_0']
-            )
+            params = self._to_dict(self.projection.crs.coordinate_operation)
+            self.angle1 = params['latitude_of_natural_origin']
+            self.angle2 = params['longitude_of_natural_origin']
             self.angle3 = self.rotation
         elif name == 'gnomonic':
             self.gemproj = 'GNO'
-            self.angle1 = float(
-                re.search(
-                    r'(?:\"Latitude of natural origin\",(?P<lat_0>-?\d{1,2}\.?\d*))', params
-                ).groupdict()['lat_0']
-            )
-            self.angle2 = float(
-                re.search(
-                    r'(?:\"Longitude of natural origin\",(?P<lon_0>-?\d{1,3}\.?\d*))', params
-                ).groupdict()['lon_0']
-            )
+            params = self._to_dict(self.projection.crs.coordinate_operation)
+            self.angle1 = params['latitude_of_natural_origin']
+            self.angle2 = params['longitude_of_natural_origin']
             self.angle3 = self.rotation
         else:
             raise NotImplementedError(f'`{name}` projection not implemented.')
-- 
2.43.0


From b78842441bd9598efccb928dc24aac861f7ec45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 11/79] fix: accept polar stereographic projections with a
 standard parallel

---
 src/gempakio/encode/gempak.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index d001a00..efd459c 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -699,7 +699,11 @@ class GridFile(DataManagementFile):
             self.angle2 = params['longitude_of_projection_origin']
             self.angle3 = self.rotation
         elif name == 'polar_stereographic':
-            self.angle1 = params['latitude_of_projection_origin']
+            # Given by standard parallel (lat_ts), the origin is the pole of that hemisphere
+            self.angle1 = params.get(
+                'latitude_of_projection_origin',
+                np.copysign(90.0, params.get('standard_parallel', 90.0)),
+            )
             self.angle2 = params['straight_vertical_longitude_from_pole']
             self.gemproj = 'STR'
         elif name == 'stereographic':
-- 
2.43.0


From 83475809de6cb63efaebd3fb810cef8216bacd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 12/79] fix: accept Lambert conformal projections with one
 standard parallel

---
 src/gempakio/encode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index efd459c..5a31768 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -712,7 +712,9 @@ class GridFile(DataManagementFile):
             self.gemproj = 'STR'
             self.angle3 = self.rotation
         elif name == 'lambert_conformal_conic':
-            self.angle1, self.angle3 = params['standard_parallel']
+            # One value if the projection has a single standard parallel
+            parallels = np.atleast_1d(params['standard_parallel'])
+            self.angle1, self.angle3 = parallels[0], parallels[-1]
             self.angle2 = params['longitude_of_central_meridian']
             self.gemproj = 'LCC'
         elif name == 'equidistant_cylindrical':
-- 
2.43.0


From 7bfe5274dccf2d983c9b6065c7c5d318212c2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 13/79] fix: take the cosine of the mean latitude of MCD grids
 in radians

Most modified cylindrical grids could not be opened: the latitude in degrees
was passed to cos(), and a negative scale is refused by PROJ.
---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7ad04cc..f5603fe 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -753,7 +753,7 @@ class GempakGrid(GempakFile):
                     + self.navigation_block.lower_left_lat
                 ) * 0.5
                 k_0 = (
-                    1 / math.cos(avglat)
+                    1 / math.cos(math.radians(avglat))
                     if self.navigation_block.proj_angle1 == 0
                     else self.navigation_block.proj_angle1
                 )
-- 
2.43.0


From 8d9762776827a1a7ec20a4976f5d16dbfb9ec6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 14/79] fix: round station coordinates to hundredths of a
 degree

Truncation moved stations whose coordinates have no exact binary form, for
instance 40.29 was stored as 40.28.
---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a31768..e78c378 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1301,7 +1301,7 @@ class SoundingFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
@@ -1567,7 +1567,7 @@ class SurfaceFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
-- 
2.43.0


From 18207b9924f671912ca2adb02cbdbbfeedfd189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 15/79] fix: accept date strings when adding surface stations

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index e78c378..33c1023 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1508,7 +1508,7 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (date_time.date(), date_time.time())
+        new_row = (self._datetime.date(), self._datetime.time())
         self._row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-- 
2.43.0


From fd85ec4598c95a421ee700869df0efdfe3d4a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 16/79] fix: leave lists of times passed to queries unchanged

Date strings were replaced in the list of the caller, and failed in tuples.
---
 src/gempakio/decode/gempak.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f5603fe..eb8b579 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1020,9 +1020,10 @@ class GempakGrid(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if coordinate is not None:
             if not isinstance(coordinate, Iterable) or isinstance(coordinate, str):
@@ -1039,9 +1040,10 @@ class GempakGrid(GempakFile):
             ):
                 date_time2 = [date_time2]
             if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time2):
-                    if isinstance(dt, str):
-                        date_time2[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time2 = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time2
+                ]
 
         if level2 is not None and not isinstance(level2, Iterable):
             level2 = [level2]
@@ -2067,9 +2069,10 @@ class GempakSounding(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
             state = [state]
@@ -2812,9 +2815,10 @@ class GempakSurface(GempakFile):
             ):
                 date_time = [date_time]
             if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None:
             if not isinstance(state, Iterable) or isinstance(state, str):
-- 
2.43.0


From 1e222206e9e7a93b8384bd7309f57ef5e23723ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 17/79] fix: match lists of states and countries of soundings
 in any letter case

---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index eb8b579..27c80c0 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2074,14 +2074,14 @@ class GempakSounding(GempakFile):
                     for dt in date_time
                 ]
 
-        if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
-            state = [state]
+        if state is not None:
+            if not isinstance(state, Iterable) or isinstance(state, str):
+                state = [state]
             state = [s.upper() for s in state]
 
-        if country is not None and (
-            not isinstance(country, Iterable) or isinstance(country, str)
-        ):
-            country = [country]
+        if country is not None:
+            if not isinstance(country, Iterable) or isinstance(country, str):
+                country = [country]
             country = [c.upper() for c in country]
 
         # Figure out which columns to extract from the file
-- 
2.43.0


From f33b1b2e3012f05bf28bd68b8ce7628a86161e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 18/79] fix: find the first or last second time when some grids
 have none

---
 src/gempakio/decode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 27c80c0..3f2a71c 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1058,10 +1058,10 @@ class GempakGrid(GempakFile):
         elif date_time in ['first', 'FIRST']:
             date_time = [min(d.DATTIM1 for d in matched)]
 
-        if date_time2 in ['last', 'LAST']:
-            date_time2 = [max(d.DATTIM2 for d in matched)]
-        elif date_time2 in ['first', 'FIRST']:
-            date_time2 = [min(d.DATTIM2 for d in matched)]
+        if date_time2 in ['first', 'FIRST', 'last', 'LAST']:
+            # Not all grids have a second time
+            times = sorted(d.DATTIM2 for d in matched if d.DATTIM2 is not None)
+            date_time2 = times[-1:] if date_time2 in ['last', 'LAST'] else times[:1]
 
         if parameter is not None:
             matched = filter(lambda grid: grid.PARM in parameter, matched)
-- 
2.43.0


From 516dda143a4aecc4356769cca108cf78987a4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 19/79] fix: find the nearest observation for station number 0
 or given as a string

---
 src/gempakio/decode/gempak.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3f2a71c..68e37af 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2685,7 +2685,9 @@ class GempakSurface(GempakFile):
         if isinstance(date_time, str):
             date_time = datetime.strptime(date_time, '%Y%m%d%H%M')
 
-        nargs = sum(map(bool, [station_id, station_number, state, country, bbox]))
+        nargs = sum(
+            arg is not None for arg in [station_id, station_number, state, country, bbox]
+        )
 
         if nargs == 0:
             raise ValueError('Must have one filter.')
@@ -2699,7 +2701,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
-- 
2.43.0


From da7a0952cec433b8f589ff9b4924d61a94a4c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 20/79] fix: skip stations with special reports only when they
 are not requested

The nearest time lookup failed on them.
---
 src/gempakio/decode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 68e37af..5011f45 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2734,6 +2734,8 @@ class GempakSurface(GempakFile):
         if station_id:
             for stn in station_id:
                 matched = self.sfjson(station_id=stn, include_special=include_special)
+                if not matched:  # Only special reports
+                    continue
 
                 nearest = min(
                     matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
@@ -2744,6 +2746,8 @@ class GempakSurface(GempakFile):
         if station_number:
             for stn in station_number:
                 matched = self.sfjson(station_number=stn, include_special=include_special)
+                if not matched:  # Only special reports
+                    continue
 
                 nearest = min(
                     matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
-- 
2.43.0


From 3223932e35dd7582f2d91808935f3de4c212eba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 21/79] fix: skip unused headers wherever they are

An unused row or column header (e.g., of deleted data) advanced the reader by
a single word, and later headers were lost or paired with the data of other
headers.
---
 src/gempakio/decode/gempak.py | 134 ++++++++++++++--------------------
 1 file changed, 54 insertions(+), 80 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 5011f45..4ca5961 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -451,6 +451,32 @@ class GempakFile:
                     else:
                         self.parameters[n][attr] += self._buffer.read_binary(*fmt)
 
+    def _read_headers(self, headers_ptr, count, fmt):
+        """Read the used row or column headers.
+
+        Returns the headers along with their slots. Unused headers (e.g., of
+        deleted data) can be anywhere and still occupy space in the file.
+        """
+        headers = []
+        slots = []
+        length = 1 + fmt.size // BYTES_PER_WORD
+        for slot in range(count):
+            self._buffer.jump_to(self._start, _word_to_position(headers_ptr + slot * length))
+            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
+                headers.append(self._buffer.read_struct(fmt))
+                slots.append(slot)
+        return headers, slots
+
+    def _get_data_pointer(self, irow, icol, iprt=0):
+        """Get the word of the data pointer given row and column header indices."""
+        row = self._row_slots[irow]
+        column = self._column_slots[icol]
+        return (
+            self.dm_label.data_block_ptr
+            + (row * self.dm_label.columns * self.dm_label.parts)
+            + (column * self.dm_label.parts + iprt)
+        )
+
     def _swap_bytes(self, binary):
         """Swap between little and big endian."""
         self.swapped_bytes = struct.pack('@i', 1) != binary
@@ -627,18 +653,14 @@ class GempakGrid(GempakFile):
         # This appears to be a flag value to say a header is used or not. 9999
         # means its in use, otherwise -9999. GEMPAK allows empty grids, etc., but
         # no real need to keep track of that in Python.
-        self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
-        self.row_headers = []
         row_headers_info = [(key, 'i') for key in self.row_keys]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers, self._row_slots = self._read_headers(
+            self.dm_label.row_headers_ptr, self.dm_label.rows, row_headers_fmt
+        )
 
         # Column Headers
-        self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
-        self.column_headers = []
         column_headers_info = [
             (key, 'i', self._convert_level)
             if key in level_names
@@ -655,9 +677,9 @@ class GempakGrid(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers, self._column_slots = self._read_headers(
+            self.dm_label.column_headers_ptr, self.dm_label.columns, column_headers_fmt
+        )
 
         self._gdinfo = set()
         for n, head in enumerate(self.column_headers):
@@ -1093,11 +1115,7 @@ class GempakGrid(GempakFile):
         for icol in gridno:
             col_head = self.column_headers[icol]
             for iprt, part in enumerate(self.parts):
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
-                )
+                pointer = self._get_data_pointer(irow, icol, iprt)
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
                 self._buffer.jump_to(self._start, _word_to_position(self.data_ptr))
@@ -1160,8 +1178,6 @@ class GempakSounding(GempakFile):
         super().__init__(file)
 
         # Row Headers
-        self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
-        self.row_headers = []
         row_headers_info = [
             (key, 'i', self._make_date)
             if key == 'DATE'
@@ -1172,13 +1188,11 @@ class GempakSounding(GempakFile):
         ]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers, self._row_slots = self._read_headers(
+            self.dm_label.row_headers_ptr, self.dm_label.rows, row_headers_fmt
+        )
 
         # Column Headers
-        self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
-        self.column_headers = []
         column_headers_info = [
             (key, '4s', self._decode_strip)
             if key == 'STID'
@@ -1201,20 +1215,16 @@ class GempakSounding(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers, self._column_slots = self._read_headers(
+            self.dm_label.column_headers_ptr, self.dm_label.columns, column_headers_fmt
+        )
 
         self.merged = 'SNDT' in (part.name for part in self.parts)
 
         self._sninfo = set()
         for irow, row_head in enumerate(self.row_headers):
             for icol, col_head in enumerate(self.column_headers):
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts)
-                )
+                pointer = self._get_data_pointer(irow, icol)
 
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -1257,11 +1267,7 @@ class GempakSounding(GempakFile):
                 'TIME': row_head.TIME,
             }
             for iprt, part in enumerate(self.parts):
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
-                )
+                pointer = self._get_data_pointer(irow, icol, iprt)
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
                 if not self.data_ptr:
@@ -1318,11 +1324,7 @@ class GempakSounding(GempakFile):
                 'TIME': row_head.TIME,
             }
             for iprt, part in enumerate(self.parts):
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
-                )
+                pointer = self._get_data_pointer(irow, icol, iprt)
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
                 if not self.data_ptr:
@@ -2191,24 +2193,20 @@ class GempakSurface(GempakFile):
         super().__init__(file)
 
         # Row Headers
-        self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
-        self.row_headers = []
         row_headers_info = self._key_types(self.row_keys)
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+        self.row_headers, self._row_slots = self._read_headers(
+            self.dm_label.row_headers_ptr, self.dm_label.rows, row_headers_fmt
+        )
 
         # Column Headers
-        self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
-        self.column_headers = []
         column_headers_info = self._key_types(self.column_keys)
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
-            if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
-                self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+        self.column_headers, self._column_slots = self._read_headers(
+            self.dm_label.column_headers_ptr, self.dm_label.columns, column_headers_fmt
+        )
 
         self._get_surface_type()
 
@@ -2217,11 +2215,7 @@ class GempakSurface(GempakFile):
             for irow, row_head in enumerate(self.row_headers):
                 for icol, col_head in enumerate(self.column_headers):
                     for iprt in range(len(self.parts)):
-                        pointer = (
-                            self.dm_label.data_block_ptr
-                            + (irow * self.dm_label.columns * self.dm_label.parts)
-                            + (icol * self.dm_label.parts + iprt)
-                        )
+                        pointer = self._get_data_pointer(irow, icol, iprt)
 
                         self._buffer.jump_to(self._start, _word_to_position(pointer))
                         data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2245,11 +2239,7 @@ class GempakSurface(GempakFile):
             irow = 0
             for icol, col_head in enumerate(self.column_headers):
                 for iprt in range(len(self.parts)):
-                    pointer = (
-                        self.dm_label.data_block_ptr
-                        + (irow * self.dm_label.columns * self.dm_label.parts)
-                        + (icol * self.dm_label.parts + iprt)
-                    )
+                    pointer = self._get_data_pointer(irow, icol, iprt)
 
                     self._buffer.jump_to(self._start, _word_to_position(pointer))
                     data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2273,11 +2263,7 @@ class GempakSurface(GempakFile):
             for icol, col_head in enumerate(self.column_headers):
                 for irow, row_head in enumerate(self.row_headers):
                     for iprt in range(len(self.parts)):
-                        pointer = (
-                            self.dm_label.data_block_ptr
-                            + (irow * self.dm_label.columns * self.dm_label.parts)
-                            + (icol * self.dm_label.parts + iprt)
-                        )
+                        pointer = self._get_data_pointer(irow, icol, iprt)
 
                         self._buffer.jump_to(self._start, _word_to_position(pointer))
                         data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2371,11 +2357,7 @@ class GempakSurface(GempakFile):
                 'TIME': col_head.TIME,
             }
             for iprt, part in enumerate(self.parts):
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
-                )
+                pointer = self._get_data_pointer(irow, icol, iprt)
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
                 if not self.data_ptr:
@@ -2436,11 +2418,7 @@ class GempakSurface(GempakFile):
                 'TIME': col_head.TIME,
             }
             for iprt, part in enumerate(self.parts):
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
-                )
+                pointer = self._get_data_pointer(irow, icol, iprt)
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
                 if not self.data_ptr:
@@ -2503,11 +2481,7 @@ class GempakSurface(GempakFile):
             }
             values = {}
             for iprt, part in enumerate(self.parts):
-                pointer = (
-                    self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
-                )
+                pointer = self._get_data_pointer(irow, icol, iprt)
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
                 if not self.data_ptr:
-- 
2.43.0


From 453a1a1de3a53b830b9fbf3029ef8a2647d048a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 22/79] fix: include the second half of the identifier of
 soundings

Identifiers of more than four characters were cut off.
---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4ca5961..4c80a78 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1235,7 +1235,7 @@ class GempakSounding(GempakFile):
                             irow,
                             icol,
                             datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID,
+                            col_head.STID + getattr(col_head, 'STD2', ''),
                             col_head.STNM,
                             col_head.SLAT,
                             col_head.SLON,
@@ -1256,7 +1256,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -1313,7 +1313,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
-- 
2.43.0


From 76e2ff36ab70dce2e90fce6894b82e5bfefc9d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 23/79] fix: do not list grids without data

Selecting such a grid read the start of the file as data.
---
 src/gempakio/decode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4c80a78..f3fa792 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -683,6 +683,10 @@ class GempakGrid(GempakFile):
 
         self._gdinfo = set()
         for n, head in enumerate(self.column_headers):
+            self._buffer.jump_to(self._start, _word_to_position(self._get_data_pointer(0, n)))
+            if not self._buffer.read_int(4, self.endian, False):
+                continue  # No data for this grid
+
             self._gdinfo.add(
                 Grid(
                     n,
-- 
2.43.0


From 5239d6b4cac13c379cdb733992a08d6381148fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 24/79] fix: strip the blanks of short user-defined vertical
 coordinates

A coordinate of fewer than four letters was read with its padding, and could
not be selected by its name.
---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f3fa792..2e3978f 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -548,7 +548,7 @@ class GempakFile:
         if coord <= 8:
             return VerticalCoordinates(coord).name.upper()
         else:
-            return struct.pack(f'{self.prefmt}i', coord).decode()
+            return self._decode_strip(struct.pack(f'{self.prefmt}i', coord))
 
     @staticmethod
     def _fortran_ishift(i, shift):
-- 
2.43.0


From 88776853798533824b396ac89a1e88d174829e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 25/79] fix: list soundings without the mandatory part

---
 src/gempakio/decode/gempak.py | 37 ++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 2e3978f..4d32f38 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1228,26 +1228,27 @@ class GempakSounding(GempakFile):
         self._sninfo = set()
         for irow, row_head in enumerate(self.row_headers):
             for icol, col_head in enumerate(self.column_headers):
-                pointer = self._get_data_pointer(irow, icol)
+                for iprt in range(len(self.parts)):
+                    pointer = self._get_data_pointer(irow, icol, iprt)
 
-                self._buffer.jump_to(self._start, _word_to_position(pointer))
-                data_ptr = self._buffer.read_int(4, self.endian, False)
-
-                if data_ptr:
-                    self._sninfo.add(
-                        Sounding(
-                            irow,
-                            icol,
-                            datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID + getattr(col_head, 'STD2', ''),
-                            col_head.STNM,
-                            col_head.SLAT,
-                            col_head.SLON,
-                            col_head.SELV,
-                            col_head.STAT,
-                            col_head.COUN,
+                    self._buffer.jump_to(self._start, _word_to_position(pointer))
+                    data_ptr = self._buffer.read_int(4, self.endian, False)
+
+                    if data_ptr:
+                        self._sninfo.add(
+                            Sounding(
+                                irow,
+                                icol,
+                                datetime.combine(row_head.DATE, row_head.TIME),
+                                col_head.STID + getattr(col_head, 'STD2', ''),
+                                col_head.STNM,
+                                col_head.SLAT,
+                                col_head.SLON,
+                                col_head.SELV,
+                                col_head.STAT,
+                                col_head.COUN,
+                            )
                         )
-                    )
 
     def sninfo(self):
         """Return sounding information."""
-- 
2.43.0


From 238594abebfab5e43a1108b77b816c6d25f9eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 26/79] fix: do not interpolate sounding data next to levels
 without pressure

---
 src/gempakio/gemcalc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 4ed9cc6..e60d073 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -171,6 +171,10 @@ def interp_missing_data(sounding, missing=-9999):
                 ):
                     iabove = 0
 
+                # Levels without pressure (e.g., a missing surface) bound nothing
+                if missing in [sounding['PRES'][lev] for lev in (i - 1, i, iabove)]:
+                    iabove = 0
+
                 if iabove != 0:
                     adata = {}
                     bdata = {}
-- 
2.43.0


From 87543aa579d4be0c1e3ec1888fe5d25d43bcd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 27/79] fix: merge tropopause and significant temperature parts
 that are alone or short

---
 src/gempakio/decode/gempak.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4d32f38..60d4284 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1604,7 +1604,13 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TRPA']['PRES'][1]:
+                # Either part may be absent or hold a single level
+                if any(
+                    pbot < pres
+                    for name in ['TRPA', 'TRPC']
+                    if name in parts
+                    for pres in parts[name]['PRES']
+                ):
                     pbot = 1050
             else:
                 pbot = 1050
@@ -1675,7 +1681,13 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TTBB']['PRES'][1]:
+                # Either part may be absent or hold a single level
+                if any(
+                    pbot < pres
+                    for name in ['TTBB', 'TTDD']
+                    if name in parts
+                    for pres in parts[name]['PRES']
+                ):
                     pbot = 1050
             else:
                 pbot = 1050
-- 
2.43.0


From 180d02aacee6f6a7f500c88fe73ce54415fc09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 28/79] fix: do not merge sounding levels without pressure at
 9999 hPa

---
 src/gempakio/decode/gempak.py | 52 ++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 60d4284..47ec34f 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1617,12 +1617,10 @@ class GempakSounding(GempakFile):
 
         if num_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPA']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
-                if (
-                    pres != self.dm_label.missing_float
-                    and parts['TRPA']['TEMP'][itrp] != self.dm_label.missing_float
-                    and pres != 0
-                ):
+                if parts['TRPA']['TEMP'][itrp] != self.dm_label.missing_float and pres != 0:
                     if pres > pbot:
                         continue
                     elif pres in merged['PRES']:
@@ -1647,12 +1645,10 @@ class GempakSounding(GempakFile):
 
         if num_above_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPC']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
-                if (
-                    pres != self.dm_label.missing_float
-                    and parts['TRPC']['TEMP'][itrp] != self.dm_label.missing_float
-                    and pres != 0
-                ):
+                if parts['TRPC']['TEMP'][itrp] != self.dm_label.missing_float and pres != 0:
                     if pres > pbot:
                         continue
                     elif pres in merged['PRES']:
@@ -1694,12 +1690,10 @@ class GempakSounding(GempakFile):
 
         if num_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTBB']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
-                if (
-                    pres != self.dm_label.missing_float
-                    and parts['TTBB']['TEMP'][isigt] != self.dm_label.missing_float
-                    and pres != 0
-                ):
+                if parts['TTBB']['TEMP'][isigt] != self.dm_label.missing_float and pres != 0:
                     if pres > pbot:
                         continue
                     elif pres in merged['PRES']:
@@ -1720,12 +1714,10 @@ class GempakSounding(GempakFile):
 
         if num_above_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTDD']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
-                if (
-                    pres != self.dm_label.missing_float
-                    and parts['TTDD']['TEMP'][isigt] != self.dm_label.missing_float
-                    and pres != 0
-                ):
+                if parts['TTDD']['TEMP'][isigt] != self.dm_label.missing_float and pres != 0:
                     if pres > pbot:
                         continue
                     elif pres in merged['PRES']:
@@ -1759,10 +1751,11 @@ class GempakSounding(GempakFile):
 
             if num_sigw_levels >= 1 and not ppbb_is_z:
                 for isigw, pres in enumerate(parts['PPBB']['PRES']):
+                    if pres == self.dm_label.missing_float:
+                        continue
                     pres = abs(pres)
                     if (
-                        pres != self.dm_label.missing_float
-                        and parts['PPBB']['DRCT'][isigw] != self.dm_label.missing_float
+                        parts['PPBB']['DRCT'][isigw] != self.dm_label.missing_float
                         and parts['PPBB']['SPED'][isigw] != self.dm_label.missing_float
                         and pres != 0
                     ):
@@ -1789,10 +1782,11 @@ class GempakSounding(GempakFile):
 
             if num_above_sigw_levels >= 1 and not ppdd_is_z:
                 for isigw, pres in enumerate(parts['PPDD']['PRES']):
+                    if pres == self.dm_label.missing_float:
+                        continue
                     pres = abs(pres)
                     if (
-                        pres != self.dm_label.missing_float
-                        and parts['PPDD']['DRCT'][isigw] != self.dm_label.missing_float
+                        parts['PPDD']['DRCT'][isigw] != self.dm_label.missing_float
                         and parts['PPDD']['SPED'][isigw] != self.dm_label.missing_float
                         and pres != 0
                     ):
@@ -1828,10 +1822,11 @@ class GempakSounding(GempakFile):
 
         if num_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWA']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
-                    pres != self.dm_label.missing_float
-                    and parts['MXWA']['DRCT'][imxw] != self.dm_label.missing_float
+                    parts['MXWA']['DRCT'][imxw] != self.dm_label.missing_float
                     and parts['MXWA']['SPED'][imxw] != self.dm_label.missing_float
                     and pres != 0
                 ):
@@ -1858,10 +1853,11 @@ class GempakSounding(GempakFile):
 
         if num_above_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWC']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
-                    pres != self.dm_label.missing_float
-                    and parts['MXWC']['DRCT'][imxw] != self.dm_label.missing_float
+                    parts['MXWC']['DRCT'][imxw] != self.dm_label.missing_float
                     and parts['MXWC']['SPED'][imxw] != self.dm_label.missing_float
                     and pres != 0
                 ):
-- 
2.43.0


From fc9870f7762f34116ea682b4915a855692bd2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 29/79] fix: merge below ground levels of soundings with all
 winds on pressure levels

---
 src/gempakio/decode/gempak.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 47ec34f..c4ebcf5 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2001,6 +2001,7 @@ class GempakSounding(GempakFile):
 
         # Add below ground MAN data
         if merged['PRES'][0] != self.dm_label.missing_float and bgl > 0:
+            size = len(merged['PRES'])
             for ibgl in range(1, num_man_levels):
                 pres = parts['TTAA']['PRES'][ibgl]
                 if pres > merged['PRES'][0]:
-- 
2.43.0


From 68dabae0aef57da287428f956b3454449c2ad278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 30/79] fix: keep the surface first when merging soundings
 without surface pressure

---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index c4ebcf5..e346568 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1634,7 +1634,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPA']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPA']['DWPT'][itrp])
@@ -1662,7 +1662,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPC']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPC']['DWPT'][itrp])
@@ -1703,7 +1703,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTBB']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTBB']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTBB']['DWPT'][isigt])
@@ -1727,7 +1727,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTDD']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTDD']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTDD']['DWPT'][isigt])
@@ -1771,7 +1771,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPBB']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPBB']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPBB']['SPED'][isigw])
@@ -1802,7 +1802,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPDD']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPDD']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPDD']['SPED'][isigw])
@@ -1842,7 +1842,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWA']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWA']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWA']['SPED'][imxw])
@@ -1873,7 +1873,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWC']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWC']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWC']['SPED'][imxw])
-- 
2.43.0


From 9b1b108a2a444455726ed0de5a2557431095f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 31/79] fix: merge winds above 100 hPa on heights when none are
 below

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index e346568..0c82cb8 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1921,7 +1921,7 @@ class GempakSounding(GempakFile):
             if zold == self.dm_label.missing_float or znxt == self.dm_label.missing_float:
                 more = False
 
-            if istart <= nsgw:
+            if istart < nsgw:
                 above = False
                 i = istart
                 iend = nsgw
-- 
2.43.0


From 8008cd02c4c5a2068711ee20e09570991c0239c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 32/79] fix: attach winds on heights to the level at that
 height

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 0c82cb8..47b0737 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1969,8 +1969,8 @@ class GempakSounding(GempakFile):
                 if more and not skip:
                     if abs(znxt - hght) < 1:
                         if (
-                            merged['DRCT'][ilev - 1] == self.dm_label.missing_float
-                            or merged['SPED'][ilev - 1] == self.dm_label.missing_float
+                            merged['DRCT'][ilev] == self.dm_label.missing_float
+                            or merged['SPED'][ilev] == self.dm_label.missing_float
                         ):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
-- 
2.43.0


From 90beddb0422586b320393ffa84942a4e92f01fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 33/79] fix: insert winds on heights in order when upper
 heights are missing

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 47b0737..335dc13 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1975,7 +1975,7 @@ class GempakSounding(GempakFile):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
                     else:
-                        loc = bisect.bisect_left(merged['HGHT'], hght)
+                        loc = ilev  # between the levels at zold and znxt
                         merged['HGHT'].insert(loc, hght)
                         merged['DRCT'].insert(loc, drct)
                         merged['SPED'].insert(loc, sped)
-- 
2.43.0


From 76137b70ecf121d4dccad2c38c7d64a93cae2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 34/79] fix: do not merge sounding levels below the surface
 after rejected ones

---
 src/gempakio/decode/gempak.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 335dc13..e4fb3b6 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1641,7 +1641,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, parts['TRPA']['DRCT'][itrp])
                         merged['SPED'].insert(loc, parts['TRPA']['SPED'][itrp])
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                    pbot = pres
 
         if num_above_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPC']['PRES']):
@@ -1669,7 +1669,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, parts['TRPC']['DRCT'][itrp])
                         merged['SPED'].insert(loc, parts['TRPC']['SPED'][itrp])
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                    pbot = pres
 
         # Merge SIG temperature
         if num_sigt_levels >= 1 or num_above_sigt_levels >= 1:
@@ -1710,7 +1710,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, self.dm_label.missing_float)
                         merged['SPED'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                    pbot = pres
 
         if num_above_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTDD']['PRES']):
@@ -1734,7 +1734,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, self.dm_label.missing_float)
                         merged['SPED'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                    pbot = pres
 
         # Interpolate heights
         interp_moist_height(merged, self.dm_label.missing_float)
@@ -1747,7 +1747,7 @@ class GempakSounding(GempakFile):
                 elif len(merged['PRES']) > 1:
                     pbot = merged['PRES'][1]
                 else:
-                    pbot = 0
+                    pbot = 1050
 
             if num_sigw_levels >= 1 and not ppbb_is_z:
                 for isigw, pres in enumerate(parts['PPBB']['PRES']):
@@ -1778,7 +1778,7 @@ class GempakSounding(GempakFile):
                             merged['TEMP'].insert(loc, self.dm_label.missing_float)
                             merged['DWPT'].insert(loc, self.dm_label.missing_float)
                             merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                    pbot = pres
+                        pbot = pres
 
             if num_above_sigw_levels >= 1 and not ppdd_is_z:
                 for isigw, pres in enumerate(parts['PPDD']['PRES']):
@@ -1809,7 +1809,7 @@ class GempakSounding(GempakFile):
                             merged['TEMP'].insert(loc, self.dm_label.missing_float)
                             merged['DWPT'].insert(loc, self.dm_label.missing_float)
                             merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                    pbot = pres
+                        pbot = pres
 
         # Merge max winds on pressure surfaces
         if num_max_wind_levels >= 1 or num_above_max_wind_levels >= 1:
@@ -1818,7 +1818,7 @@ class GempakSounding(GempakFile):
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
             else:
-                pbot = 0
+                pbot = 1050
 
         if num_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWA']['PRES']):
@@ -1849,7 +1849,7 @@ class GempakSounding(GempakFile):
                         merged['TEMP'].insert(loc, self.dm_label.missing_float)
                         merged['DWPT'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                    pbot = pres
 
         if num_above_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWC']['PRES']):
@@ -1880,7 +1880,7 @@ class GempakSounding(GempakFile):
                         merged['TEMP'].insert(loc, self.dm_label.missing_float)
                         merged['DWPT'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                    pbot = pres
 
         # Interpolate height for SIG/MAX winds
         interp_logp_height(merged, self.dm_label.missing_float)
-- 
2.43.0


From 5d4cc1488cf76891fc2bc341d37017eb9f819349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 35/79] fix: keep surface values stored with blank report text

---
 src/gempakio/decode/gempak.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index e4fb3b6..c3c88e7 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2621,6 +2621,12 @@ class GempakSurface(GempakFile):
 
                     processed.append(new_report)
 
+        if not processed:
+            # There is nothing but blanks in the text, so keep the surface values.
+            new_report = deepcopy(report)
+            new_report.update(**values)
+            processed.append(new_report)
+
         return processed
 
     def nearest_time(
-- 
2.43.0


From 6af3c1ac4d6512e05f2c137686e2d2f3f07e1489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 36/79] fix: date special reports from the month before or
 after

---
 src/gempakio/decode/gempak.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index c3c88e7..7f08f92 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2594,18 +2594,27 @@ class GempakSurface(GempakFile):
 
                     new_report = deepcopy(report)
                     if param == 'SPCL':  # Do not update standard METAR time
-                        try:
-                            dt = datetime(
-                                year,
-                                month,
-                                int(time_group['day']),
-                                int(time_group['hour']),
-                                int(time_group['minute']),
-                            )
-                        except ValueError:
-                            # Some text reports contain bad date/time. In these cases
-                            # replace with the GEMPAK date and time.
-                            dt = datetime(year, month, gem_day, gem_hour, gem_minute)
+                        gem_dt = datetime(year, month, gem_day, gem_hour, gem_minute)
+                        candidates = []
+                        # Reports near the turn of the month can be from the month
+                        # before or after the GEMPAK date.
+                        for offset in (-1, 0, 1):
+                            years, months = divmod(month - 1 + offset, 12)
+                            try:
+                                candidates.append(
+                                    datetime(
+                                        year + years,
+                                        months + 1,
+                                        int(time_group['day']),
+                                        int(time_group['hour']),
+                                        int(time_group['minute']),
+                                    )
+                                )
+                            except ValueError:
+                                continue
+                        # Some text reports contain bad date/time. In these cases
+                        # replace with the GEMPAK date and time.
+                        dt = min(candidates, key=lambda d: abs(d - gem_dt), default=gem_dt)
                         new_report['DATE'] = dt.date()
                         new_report['TIME'] = dt.time()
 
-- 
2.43.0


From 6abb3388dea5e14ad1008b8810ebc79de24b8aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 37/79] fix: do not split report text without a station

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7f08f92..24db57e 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2574,9 +2574,9 @@ class GempakSurface(GempakFile):
                 station = METAR_STATION_RE.search(txt)
                 # If no station can be parsed, at least ensure the text
                 # will be kept with the report we return.
-                stnstr = '----' if station is None else station.groupdict()['station']
+                stnstr = None if station is None else station.groupdict()['station']
 
-                if txt.count(stnstr) > 1:
+                if stnstr is not None and txt.count(stnstr) > 1:
                     # GEMPAK sometimes has more than one text report attached. We can
                     # recover all of them by splitting with the station ID.
                     reports = [f'{stnstr}{s}'.strip() for s in filter(None, txt.split(stnstr))]
-- 
2.43.0


From 7831f08e41e84ce8abb9a0a3cf6b2a7999c8a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 38/79] fix: replace entries of the same minute given with
 seconds

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 33c1023..6e11c9f 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -863,7 +863,7 @@ class GridFile(DataManagementFile):
                 forecast_hour = int(init_date.strftime('%H'))
                 forecast_minute = int(init_date.strftime('%M'))
         elif isinstance(date_time, datetime):
-            init_date = date_time
+            init_date = date_time.replace(second=0, microsecond=0)
             forecast_hour = int(init_date.strftime('%H'))
             forecast_minute = int(init_date.strftime('%M'))
         else:
@@ -910,7 +910,7 @@ class GridFile(DataManagementFile):
                     forecast_hour2 = int(init_date2.strftime('%H'))
                     forecast_minute2 = int(init_date2.strftime('%M'))
             elif isinstance(date_time2, datetime):
-                init_date2 = date_time2
+                init_date2 = date_time2.replace(second=0, microsecond=0)
                 forecast_hour2 = int(init_date2.strftime('%H'))
                 forecast_minute2 = int(init_date2.strftime('%M'))
             else:
@@ -1219,7 +1219,7 @@ class SoundingFile(DataManagementFile):
             else:
                 self._datetime = datetime.strptime(date_time, '%Y%m%d%H%M')
         elif isinstance(date_time, datetime):
-            self._datetime = date_time
+            self._datetime = date_time.replace(second=0, microsecond=0)
         else:
             raise TypeError('date_time must be string or datetime.')
 
@@ -1483,7 +1483,7 @@ class SurfaceFile(DataManagementFile):
             date_time = date_time.upper()
             self._datetime = datetime.strptime(date_time, '%Y%m%d%H%M')
         elif isinstance(date_time, datetime):
-            self._datetime = date_time
+            self._datetime = date_time.replace(second=0, microsecond=0)
         else:
             raise TypeError('date_time must be string or datetime.')
 
-- 
2.43.0


From deeedfac698de2878043494e0cf5099b64e4a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 39/79] fix: copy the coordinates of grid files

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 6e11c9f..9ad9bf9 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -635,8 +635,8 @@ class GridFile(DataManagementFile):
                 raise ValueError('Projected input coordinates must one-dimensional.')
             self.nx = len(lon)
             self.ny = len(lat)
-            self.x = lon
-            self.y = lat
+            self.x = np.array(lon)
+            self.y = np.array(lat)
             self.lon, self.lat = self.projection(
                 *np.meshgrid(lon, lat, copy=False), inverse=True
             )
@@ -648,8 +648,8 @@ class GridFile(DataManagementFile):
             _x, _y = self.projection(lon, lat)
             self.x = _x[0, :]
             self.y = _y[:, 0]
-            self.lon = lon
-            self.lat = lat
+            self.lon = np.array(lon)
+            self.lat = np.array(lat)
             self._is_xy = False
 
         self._set_projection_params()
-- 
2.43.0


From 89d0a636742af8946d28bbf72959cc58013758c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 40/79] fix: allow structs with a converter for every field

---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index bc3883f..2f6f96e 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -21,7 +21,7 @@ class NamedStruct:
         """Initialize the NamedStruct."""
         if tuple_name is None:
             tuple_name = 'NamedStruct'
-        names, fmts = zip(*info, strict=False)
+        names, fmts = zip(*(i[:2] for i in info), strict=True)
         self.converters = {}
         conv_off = 0
         for ind, i in enumerate(info):
-- 
2.43.0


From 3dc3e735d5eb471a5dae573083d30a1613aa97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 41/79] fix: read the basin and storm type of tropical cyclone
 elements

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9c1898a..f74a470 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -1996,10 +1996,10 @@ class TropicalCycloneBase(VectorGraphicElement):
         super().__init__(header_struct)
         self.storm_number = storm_number
         self.issue_status = issue_status
-        self.basin = Basin(basin)
+        self.basin = Basin(int(basin))
         self.advisory_number = advisory_number
         self.storm_name = storm_name
-        self.storm_type = StormType(storm_type)
+        self.storm_type = StormType(int(storm_type))
         self.valid_time = datetime.strptime(valid_time, '%y%m%d/%H%M').replace(
             tzinfo=timezone.utc
         )
-- 
2.43.0


From 3e4647035acca01a4afc82fc8b1d896e3a70af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 42/79] fix: read tropical cyclone break point elements

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index f74a470..bb979cc 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4433,7 +4433,9 @@ class VectorGraphicFile:
             ('number_points', 'i'),
         ]
 
-        brkpt = self._buffer(break_info, self.prefmt, 'BreakPointInfo')
+        brkpt = self._buffer.read_struct(
+            NamedStruct(break_info, self.prefmt, 'BreakPointInfo')
+        )
 
         break_meta = [
             ('lat', 'f', partial(round, ndigits=2)),
-- 
2.43.0


From aa952383bc5a4ad0da55dc39e8e0e15451f0c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 43/79] fix: read significant weather elements with their text

---
 src/gempakio/decode/vgf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index bb979cc..41f72d7 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4511,6 +4511,10 @@ class VectorGraphicFile:
             NamedStruct(special_text_info, self.prefmt, 'SpecialTextInfo')
         )
 
+        text_string = self._buffer.read(255).split(b'\x00')[0].decode()
+
+        self._buffer.skip(1)  # skip byte for struct alignment
+
         lat, lon = self._get_latlon(sgwx.number_points)
 
         self._elements.append(
@@ -4534,20 +4538,20 @@ class VectorGraphicFile:
                 text.turbulence_symbol,
                 text.font,
                 text.text_flag,
-                text.text_width,
+                text.width,
                 text.text_color,
                 text.line_color,
                 text.fill_color,
-                text.text_align,
+                text.align,
                 text.offset_x,
                 text.offset_y,
-                text.text,
+                text_string,
                 lat,
                 lon,
             )
         )
 
-        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 4)
+        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 8)
 
     def _decode_watches(self, header_struct):
         """Decode watch elements."""
-- 
2.43.0


From 3a61fee198f9a7b68055299dd96117eb6a419cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 44/79] fix: read each tropical cyclone advisory as one element

---
 src/gempakio/decode/vgf.py | 40 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 41f72d7..63213b7 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4229,7 +4229,7 @@ class VectorGraphicFile:
 
         text_width = int(re.search(r'(?<=<tca_textWidth>)(.+?)(?=<)', tca_string).group())
 
-        wwnum = int(re.search(r'(?<=<tca_wwNum>)(.+?)(?=<)', tca_string).group())
+        wwnum = int(re.search(r'(?<=<tca_wwNum>)(.+?)(?=<|$)', tca_string).group())
 
         ww = []
         for n in range(wwnum):
@@ -4256,26 +4256,26 @@ class VectorGraphicFile:
                 }
             )
 
-            self._elements.append(
-                TropicalCycloneAdvisoryElement(
-                    header_struct,
-                    storm_number,
-                    issue_status,
-                    basin,
-                    advisory_number,
-                    storm_name,
-                    storm_type,
-                    valid,
-                    tz,
-                    text_lat,
-                    text_lon,
-                    text_font,
-                    text_size,
-                    text_width,
-                    wwnum,
-                    ww,
-                )
+        self._elements.append(
+            TropicalCycloneAdvisoryElement(
+                header_struct,
+                storm_number,
+                issue_status,
+                basin,
+                advisory_number,
+                storm_name,
+                storm_type,
+                valid,
+                tz,
+                text_lat,
+                text_lon,
+                text_font,
+                text_size,
+                text_width,
+                wwnum,
+                ww,
             )
+        )
 
     def _decode_tc_error(self, header_struct):
         """Decode TC error cone elements."""
-- 
2.43.0


From 43793d055e09ba235bdd5561744c1d44c9d7d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 45/79] fix: keep the last character of unterminated vector
 graphics strings

---
 src/gempakio/decode/vgf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 63213b7..1ea397b 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5310,8 +5310,7 @@ class VectorGraphicFile:
         stripped.
         """
         decoded = x.decode('utf-8', errors='ignore')
-        null = decoded.find('\x00')
-        return decoded[:null].strip()
+        return decoded.split('\x00')[0].strip()
 
     @staticmethod
     def _swap32(x):
-- 
2.43.0


From 46b74bf839697a97d83799e8c4395ac883f3651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 46/79] fix: return exactly the text elements from get_text

---
 src/gempakio/decode/vgf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 1ea397b..a3827ba 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2941,7 +2941,7 @@ class VectorGraphicFile:
     @property
     def has_text(self):
         """Check for text elements."""
-        return bool(self.filter_elements(vg_class=VGClass.text, vg_type=VGType.text))
+        return bool(self.get_text())
 
     @property
     def has_special_text(self):
@@ -3019,10 +3019,13 @@ class VectorGraphicFile:
         -------
         List of `mdgpu.io.vgf.TextElement`.
         """
-        if self.has_text:
-            return self.filter_elements(vg_class=VGClass.text)
+        text = [
+            e
+            for e in self.elements
+            if e.vg_class == VGClass.text and e.vg_type in (VGType.text, VGType.justified_text)
+        ]
 
-        return None
+        return text if text else None
 
     def get_special_text(self):
         """Extract special text elements.
-- 
2.43.0


From 0887f08b4596680da87ed13e43f7e15626ac2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 47/79] fix: return met elements of files without sigmets

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index a3827ba..509e757 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3156,7 +3156,7 @@ class VectorGraphicFile:
         -------
         List of MET elements.
         """
-        if self.has_sigmet:
+        if self.has_met:
             return self.filter_elements(vg_class=VGClass.met)
 
         return None
-- 
2.43.0


From 46c07d529f16fa15ee9e6683d53d8616fe635e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 48/79] fix: keep elements touching the equator or prime
 meridian in the bounds

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 509e757..cae1167 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2919,7 +2919,7 @@ class VectorGraphicFile:
         ymax = -9999
 
         for element in self.elements:
-            if 0 in [element.max_lat, element.max_lon, element.min_lat, element.min_lon]:
+            if not any([element.max_lat, element.max_lon, element.min_lat, element.min_lon]):
                 continue
             else:
                 if element.max_lat > ymax:
-- 
2.43.0


From 262e6b76bd8f246a1debe96e2f18e37a3f050ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 49/79] fix: allow a custom JSON encoder for vector graphics

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index cae1167..a8504e1 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3258,7 +3258,9 @@ class VectorGraphicFile:
         """
         serialized = [e.__dict__ for e in self._elements]
 
-        return json.dumps(serialized, cls=kwargs.get('cls', NumpyEncoder), **kwargs)
+        kwargs.setdefault('cls', NumpyEncoder)
+
+        return json.dumps(serialized, **kwargs)
 
     def _decode_file_header(self, header_struct):
         """Decode file header."""
-- 
2.43.0


From ecac8e33a2f435ad9eaebd7fb341540985f6da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 50/79] fix: export jet and tropical cyclone elements to JSON

---
 src/gempakio/decode/vgf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index a8504e1..4d1e8e6 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2869,6 +2869,10 @@ class NumpyEncoder(json.JSONEncoder):
         """`NumpyEncoder` default serializer."""
         if isinstance(obj, np.ndarray):
             return [float(f'{x:6.2f}') for x in obj]
+        if isinstance(obj, VectorGraphicAttribute):
+            return obj.__dict__
+        if isinstance(obj, datetime):
+            return obj.isoformat()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 7152de5730c507b757178e420affe276fed36a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 51/79] fix: reject vector graphics attributes that are not
 integers

---
 src/gempakio/encode/vgf.py | 53 +++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index d7c5094..169f838 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -5,6 +5,8 @@
 
 from dataclasses import dataclass
 from enum import IntEnum
+from numbers import Real
+import operator
 import struct
 
 import numpy as np
@@ -265,6 +267,12 @@ class SpecialTextCodes(IntEnum):
     FLIGHT_LEVEL = 16
 
 
+def _require_integer(value):
+    """Check that a value is an integer that can be written to a VGF."""
+    if not -(2**31) <= operator.index(value) < 2**31:
+        raise ValueError('value must be a 32-bit integer.')
+
+
 @dataclass
 class Element:
     """Base VGF element."""
@@ -333,6 +341,7 @@ class Element:
     @closed.setter
     def closed(self, value):
         """Set closed."""
+        _require_integer(value)
         if value not in [0, 1]:
             raise ValueError('value must be 0 (open) or 1 (closed).')
         self._closed = value
@@ -365,6 +374,7 @@ class Element:
     @filled.setter
     def filled(self, value):
         """Set fill."""
+        _require_integer(value)
         if value not in range(9):
             raise ValueError('fill values must be in range [0, 8].')
         self._filled = value
@@ -377,6 +387,7 @@ class Element:
     @smooth.setter
     def smooth(self, value):
         """Set smooth."""
+        _require_integer(value)
         if value not in range(3):
             raise ValueError('smooth option must be 0 (none), 1 (splines), or 2 (parametric).')
         self._smooth = value
@@ -389,8 +400,9 @@ class Element:
     @group_type.setter
     def group_type(self, value):
         """Set group type."""
-        if value < 0:
-            raise ValueError('group type should be non-negative.')
+        _require_integer(value)
+        if value not in range(256):
+            raise ValueError('group type should be in range [0, 255].')
         self._group_type = value
 
     @property
@@ -401,6 +413,7 @@ class Element:
     @group_number.setter
     def group_number(self, value):
         """Set group number."""
+        _require_integer(value)
         if value < 0:
             raise ValueError('group number should be non-negative.')
         self._group_number = value
@@ -413,6 +426,7 @@ class Element:
     @major_color.setter
     def major_color(self, value):
         """Set major color."""
+        _require_integer(value)
         if value not in range(33):
             raise ValueError('GEMPAK colors must be in range of 0 to 32.')
         self._major_color = value
@@ -425,6 +439,7 @@ class Element:
     @minor_color.setter
     def minor_color(self, value):
         """Set minor color."""
+        _require_integer(value)
         if value not in range(33):
             raise ValueError('GEMPAK colors must be in range of 0 to 32.')
         self._minor_color = value
@@ -517,6 +532,7 @@ class LineBase(Element):
     @width.setter
     def width(self, value):
         """Set line width."""
+        _require_integer(value)
         if value < 1 or value > 10:
             raise ValueError('Line width must be in range [1, 10].')
         self._width = value
@@ -553,11 +569,11 @@ class TextBase(Element):
         self.minor_color = text_color
         self.text_flag = text_flag
         self.font = font
-        self._width = width
+        self.width = width
         self.align = align
-        self._rotation = rotation
-        self._offset_x = offset_x
-        self._offset_y = offset_y
+        self.rotation = rotation
+        self.offset_x = offset_x
+        self.offset_y = offset_y
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
@@ -578,6 +594,7 @@ class TextBase(Element):
     @text_color.setter
     def text_color(self, value):
         """Set text color."""
+        _require_integer(value)
         if value not in range(33):
             raise ValueError('Invalid text color.')
         self._text_color = value
@@ -607,6 +624,7 @@ class TextBase(Element):
     @font.setter
     def font(self, value):
         """Set font code."""
+        _require_integer(value)
         if self._text_flag == 2 and value not in [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33]:
             raise ValueError('Invalid hardware font code.')
         self._font = value
@@ -619,6 +637,7 @@ class TextBase(Element):
     @width.setter
     def width(self, value):
         """Set text width."""
+        _require_integer(value)
         self._width = value
 
     @property
@@ -629,6 +648,7 @@ class TextBase(Element):
     @align.setter
     def align(self, value):
         """Set text alignment."""
+        _require_integer(value)
         if value not in [-1, 0, 1]:
             raise ValueError('Invalid text alignment.')
         self._align = value
@@ -641,6 +661,8 @@ class TextBase(Element):
     @rotation.setter
     def rotation(self, value):
         """Set text rotation."""
+        if not isinstance(value, Real):
+            raise TypeError('text rotation must be a number.')
         self._rotation = value
 
     @property
@@ -651,6 +673,7 @@ class TextBase(Element):
     @offset_x.setter
     def offset_x(self, value):
         """Set text offset in x-direction."""
+        _require_integer(value)
         self._offset_x = value
 
     @property
@@ -661,6 +684,7 @@ class TextBase(Element):
     @offset_y.setter
     def offset_y(self, value):
         """Set text offset in y-direction."""
+        _require_integer(value)
         self._offset_y = value
 
     @property
@@ -671,6 +695,7 @@ class TextBase(Element):
     @text_flag.setter
     def text_flag(self, value):
         """Set text flag."""
+        _require_integer(value)
         if value not in [1, 2]:
             raise ValueError('Invalid text flag.')
         self._text_flag = value
@@ -772,6 +797,7 @@ class Line(LineBase):
     @line_type.setter
     def line_type(self, value):
         """Set special line type."""
+        _require_integer(value)
         if value < 0 or value > 99:
             raise ValueError('Invalid line type.')
         self._line_type = value
@@ -951,6 +977,7 @@ class Front(Element):
         As width is defined by front intensity, changing the width will change
         the front code accordinly.
         """
+        _require_integer(value)
         if value not in range(1, 9):
             raise ValueError('Front width must be in range [1, 8].')
         self._width = value
@@ -982,6 +1009,7 @@ class Front(Element):
         As width is defined by front intensity, changing the front code will change
         the width accordingly.
         """
+        _require_integer(value)
         if value not in range(1000):
             raise ValueError('Invalid front code.')
         self._front_code = value
@@ -1000,6 +1028,7 @@ class Front(Element):
     @pip_size.setter
     def pip_size(self, value):
         """Set pip size."""
+        _require_integer(value)
         if value not in range(40, 501):
             raise ValueError('Invalid pip size.')
         self._pip_size = value
@@ -1012,6 +1041,7 @@ class Front(Element):
     @pip_stroke.setter
     def pip_stroke(self, value):
         """Set pip stroke multiplier."""
+        _require_integer(value)
         if value <= 0:
             raise ValueError('Invalid pip stroke multiplier.')
         self._pip_stroke = value
@@ -1024,6 +1054,7 @@ class Front(Element):
     @pip_direction.setter
     def pip_direction(self, value):
         """Set pip direction."""
+        _require_integer(value)
         if value not in [-1, 1]:
             raise ValueError('Invalid pip direction.')
         self._pip_direction = value
@@ -1168,6 +1199,7 @@ class SpecialLine(LineBase):
         )
 
         if self._line_type in [24, 25]:
+            _require_integer(stroke)
             if stroke not in range(25, 76):
                 raise ValueError('stroke multiplier must be in range [25, 75].')
             else:
@@ -1183,6 +1215,7 @@ class SpecialLine(LineBase):
     @line_type.setter
     def line_type(self, value):
         """Set special line type."""
+        _require_integer(value)
         if value not in range(1, 27):
             raise ValueError('Invalid speical line type.')
         self._line_type = value
@@ -1194,6 +1227,7 @@ class SpecialLine(LineBase):
 
     @direction.setter
     def direction(self, value):
+        _require_integer(value)
         if value not in [1, -1]:
             raise ValueError('Line direction must be 1 (CW) or -1 (CCW).')
         self._direction = value
@@ -1398,6 +1432,7 @@ class SpecialText(TextBase):
         -----
         The turbulence symbol will be reset to zero when changing text types.
         """
+        _require_integer(value)
         if value not in range(17):
             raise ValueError('Invalid text type.')
         self._text_type = value
@@ -1411,6 +1446,7 @@ class SpecialText(TextBase):
     @edgecolor.setter
     def edgecolor(self, value):
         """Set text box edgecolor."""
+        _require_integer(value)
         if value not in range(33):
             raise ValueError('Invalid edgecolor.')
         self._edgecolor = value
@@ -1423,6 +1459,7 @@ class SpecialText(TextBase):
     @facecolor.setter
     def facecolor(self, value):
         """Set text box facecolor."""
+        _require_integer(value)
         if value not in range(33):
             raise ValueError('Invalid facecolor.')
         self._facecolor = value
@@ -1435,6 +1472,7 @@ class SpecialText(TextBase):
     @turbulence_symbol.setter
     def turbulence_symbol(self, value):
         """Set turbulence symbol."""
+        _require_integer(value)
         if self._text_type in [7, 9] and value not in range(9):
             raise ValueError('Invalid turbulence symbol code.')
         elif self._text_type == 12 and value not in range(11):
@@ -1513,6 +1551,7 @@ class SymbolBase(Element):
     @width.setter
     def width(self, value):
         """Set symbol width."""
+        _require_integer(value)
         if value < 1 or value > 10:
             raise ValueError('Symbol width must be in range [1, 10].')
         self._width = value
@@ -1548,6 +1587,7 @@ class SymbolBase(Element):
     @offset_x.setter
     def offset_x(self, value):
         """Set symbol offset in x-direction."""
+        _require_integer(value)
         self._offset_x = value
 
     @property
@@ -1558,6 +1598,7 @@ class SymbolBase(Element):
     @offset_y.setter
     def offset_y(self, value):
         """Set symbol offset in y-direction."""
+        _require_integer(value)
         self._offset_y = value
 
     def _validate_symbol_code(self, code):
-- 
2.43.0


From 618e2c797a41e3efcfe60a3af06a5495aefc95c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 52/79] fix: reject a pattern or symbol size that is not a
 number

---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 169f838..566a0a9 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1244,7 +1244,7 @@ class SpecialLine(LineBase):
     @size.setter
     def size(self, value):
         """Set pattern size."""
-        if value < 0.1 or value > 10:
+        if not 0.1 <= value <= 10:
             raise ValueError('Pattern size must be in range [0.1, 10].')
         self._size = value
 
@@ -1564,7 +1564,7 @@ class SymbolBase(Element):
     @size.setter
     def size(self, value):
         """Set symbol size."""
-        if value < 0.1 or value > 10:
+        if not 0.1 <= value <= 10:
             raise ValueError('Symbol size must be in range [0.1, 10].')
         self._size = value
 
-- 
2.43.0


From def6b9ce78418239c020bbd69695a94ffdb8dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 53/79] fix: validate symbol attributes on construction

---
 src/gempakio/encode/vgf.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 566a0a9..ed3f52f 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1528,14 +1528,14 @@ class SymbolBase(Element):
     def __init__(self, lon, lat, symbol_code, color, width=1, size=1, offset_x=0, offset_y=0):
         super().__init__()
         self._number_symbols = 1
-        self._width = width
-        self._size = size
+        self.width = width
+        self.size = size
         self._symbol_type = 0
-        self._symbol_code = symbol_code
+        self.symbol_code = symbol_code
         self._lat = lat
         self._lon = lon
-        self._offset_x = offset_x
-        self._offset_y = offset_y
+        self.offset_x = offset_x
+        self.offset_y = offset_y
         self._min_lon = lon
         self._min_lat = lat
         self._max_lon = lon
@@ -1602,8 +1602,7 @@ class SymbolBase(Element):
         self._offset_y = value
 
     def _validate_symbol_code(self, code):
-        if not isinstance(code, int):
-            raise TypeError('Symbol code must be integer')
+        _require_integer(code)
 
     def encode(self):
         """Encode symbol symbol."""
-- 
2.43.0


From 610327f4c14456483c5539563b4a47b9e31c844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 54/79] fix: allow special symbol code 0

---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index ed3f52f..f51b44a 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1663,8 +1663,8 @@ class SpecialSymbol(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 41:
-            raise ValueError('Symbol code must be in range [1, 41].')
+        if code < 0 or code > 41:
+            raise ValueError('Symbol code must be in range [0, 41].')
 
 
 class Marker(SymbolBase):
-- 
2.43.0


From 80a1793044412949cfacc013a4975352a0fc7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 55/79] fix: validate the turbulence symbol of every text type

---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index f51b44a..2d7e6e8 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1475,8 +1475,8 @@ class SpecialText(TextBase):
         _require_integer(value)
         if self._text_type in [7, 9] and value not in range(9):
             raise ValueError('Invalid turbulence symbol code.')
-        elif self._text_type == 12 and value not in range(11):
-            raise ValueError('Invalid icing symbol code.')
+        elif value not in range(11):
+            raise ValueError('Invalid turbulence or icing symbol code.')
         self._turbulence_symbol = value
 
     def encode(self):
-- 
2.43.0


From 0106324e45fe6619892ff27e539370fd2dbfdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 56/79] fix: write all bytes of text with non-ASCII characters

---
 src/gempakio/encode/vgf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 2d7e6e8..a99bce1 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -577,9 +577,9 @@ class TextBase(Element):
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
-        elif len(text + '\x00') > 255:
+        elif len(text.encode() + b'\x00') > 255:
             raise ValueError('text string exceeds 255 character limit.')
-        self._text = text + '\x00'
+        self._text = text
 
     @staticmethod
     def points_to_size(points):
@@ -1416,7 +1416,9 @@ class SpecialText(TextBase):
         self.facecolor = text_color if facecolor is None else facecolor
         self.turbulence_symbol = turbulence_symbol
         self._record_size = (
-            self.element_header_struct.size + self.special_text_struct.size + len(self._text)
+            self.element_header_struct.size
+            + self.special_text_struct.size
+            + len(self._text.encode() + b'\x00')
         )
 
     @property
@@ -1501,9 +1503,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        text = struct.pack(f'{len(self._text)}s', self._text.encode())
-
-        return header + info + text
+        return header + info + self._text.encode() + b'\x00'
 
 
 class SymbolBase(Element):
-- 
2.43.0


From 05bfa16e6724d8402da4e9aea55a4249a836994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 57/79] fix: raise TypeError for any file without a GEMPAK
 header

---
 src/gempakio/decode/gempak.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 24db57e..9959574 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -494,10 +494,8 @@ class GempakFile:
 
     def _process_gempak_header(self):
         """Read the GEMPAK header from the file."""
-        fmt = [('text', '28s', bytes.decode), (None, None)]
-
-        header = self._buffer.read_struct(NamedStruct(fmt, '', 'GempakHeader'))
-        if header.text != GEMPAK_HEADER:
+        header = bytes(self._buffer.read(len(GEMPAK_HEADER)))
+        if header != GEMPAK_HEADER.encode():
             raise TypeError('Unknown file format or invalid GEMPAK file')
 
     @staticmethod
-- 
2.43.0


From 2a1eb15e14859257952a68dd0f1490aca958cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 58/79] fix: reject GEMPAK files of another type of data

---
 src/gempakio/decode/gempak.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 9959574..02e28a7 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -498,6 +498,13 @@ class GempakFile:
         if header != GEMPAK_HEADER.encode():
             raise TypeError('Unknown file format or invalid GEMPAK file')
 
+    def _check_file_type(self, file_type):
+        """Check that the file holds the expected type of data."""
+        if self.dm_label.file_type != file_type:
+            raise TypeError(
+                f'File contains {self.dm_label.file_type.name} and not {file_type.name} data.'
+            )
+
     @staticmethod
     def _convert_dattim(dattim):
         """Convert GEMPAK DATTIM integer to datetime object.
@@ -640,6 +647,7 @@ class GempakGrid(GempakFile):
     def __init__(self, file, *args, **kwargs):
         """Instantiate GempakGrid object from file."""
         super().__init__(file)
+        self._check_file_type(FileTypes.grid)
 
         datetime_names = ['GDT1', 'GDT2']
         level_names = ['GLV1', 'GLV2']
@@ -1178,6 +1186,7 @@ class GempakSounding(GempakFile):
     def __init__(self, file, *args, **kwargs):
         """Instantiate GempakSounding object from file."""
         super().__init__(file)
+        self._check_file_type(FileTypes.sounding)
 
         # Row Headers
         row_headers_info = [
@@ -2203,6 +2212,7 @@ class GempakSurface(GempakFile):
     def __init__(self, file, *args, **kwargs):
         """Instantiate GempakSurface object from file."""
         super().__init__(file)
+        self._check_file_type(FileTypes.surface)
 
         # Row Headers
         row_headers_info = self._key_types(self.row_keys)
-- 
2.43.0


From c8041ae90a8ae868d7b355ab952a03f8f0a0e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 59/79] fix: do not read integers beyond the end of a file

---
 src/gempakio/tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index 2f6f96e..3e48b48 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -143,7 +143,10 @@ class IOBuffer:
 
     def read_int(self, size, endian, signed):
         """Parse the current buffer offset as the specified integer code."""
-        return int.from_bytes(self.read(size), endian, signed=signed)
+        data = self.read(size)
+        if len(data) < size:
+            raise ValueError(f'integer of {size} bytes extends beyond the end of the buffer.')
+        return int.from_bytes(data, endian, signed=signed)
 
     def read_array(self, count, dtype):
         """Read an array of values from the buffer."""
-- 
2.43.0


From 6b96f303dd0cc5fa3a2f5c6a3c08505699ec4ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 60/79] fix: stop at incomplete vector graphics records and
 follow record sizes

---
 src/gempakio/decode/vgf.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 4d1e8e6..2fbb9e5 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5055,8 +5055,14 @@ class VectorGraphicFile:
     def _decode_elements(self):
         """Decode elements of a VGF."""
         more = True
+        start = self._buffer.set_mark()
 
         while not self._buffer.at_end() and more:
+            remaining = len(self._buffer) - self._buffer.offset_from(start)
+            if remaining < VGF_HEADER_SIZE:
+                break
+
+            element_start = self._buffer.set_mark()
             header_struct = self._read_header()
 
             rec_size = header_struct.record_size
@@ -5068,7 +5074,7 @@ class VectorGraphicFile:
             # we validate the header. If the current header
             # is not valid, we assume no more elements in the
             # VGF file. See cvgrdhdr.c
-            if self._validate_header(header_struct):
+            if self._validate_header(header_struct, remaining):
                 more = False
                 continue
 
@@ -5171,11 +5177,11 @@ class VectorGraphicFile:
                     VGClass(vg_class).name,
                     VGType(vg_type).name,
                 )
-                _ = self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
 
-    def _validate_header(self, header_struct):
+            self._buffer.jump_to(element_start, rec_size)
+
+    def _validate_header(self, header_struct, remaining):
         """Validate VGF header."""
-        size = len(self._buffer._data)
         delete = header_struct.delete
         major_color = header_struct.major_color
         minor_color = header_struct.minor_color
@@ -5193,7 +5199,8 @@ class VectorGraphicFile:
             or major_color > 32
             or minor_color < 0
             or minor_color > 32
-            or rec_size > size
+            or rec_size < VGF_HEADER_SIZE
+            or rec_size > remaining
         )
 
     def _get_latlon(self, points):
-- 
2.43.0


From 4d6b71e9b4bd5cfe07c6ba06d5f83624971a568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 61/79] fix: reject unpacked grids of a single value on larger
 grids

---
 src/gempakio/decode/gempak.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 02e28a7..cab1f59 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -843,6 +843,8 @@ class GempakGrid(GempakFile):
             if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
+                if lendat != self.kx * self.ky:
+                    raise ValueError('Grid length mismatch.')
                 grid = np.zeros(self.ky * self.kx, dtype=np.float32)
                 grid[...] = buffer
             else:
-- 
2.43.0


From 5dc3195d0ea231c586bfd522c62f1e4b1f09af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 62/79] fix: return the requested pressure from
 interp_parameters

---
 src/gempakio/gemcalc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index e60d073..1a33e5d 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -325,6 +325,8 @@ def interp_parameters(vlev, adata, bdata, missing=-9999):
     rmult = np.log(vlev / pres1) / np.log(pres2 / pres1)
     outdata['PRES'] = vlev
     for param, aval in adata.items():
+        if param == 'PRES':
+            continue
         bval = bdata[param]
         if param == 'DRCT':
             ang1 = aval % 360
-- 
2.43.0


From b3ed5990e4b64e877ddf342ed43f487b37b60504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 63/79] fix: use the given missing value for hydrostatic
 heights

---
 src/gempakio/gemcalc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 1a33e5d..3e63ef3 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -79,7 +79,7 @@ def interp_logp_height(sounding, missing=-9999):
                 tdt = sounding['DWPT'][i]
                 pt = sounding['PRES'][i]
                 scale_z = scale_height(tb, tt, tdb, tdt, pb, pt, missing)
-                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z)
+                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z, missing)
 
             if missing not in [sounding['TEMP'][i], sounding['HGHT'][i]]:
                 pb = sounding['PRES'][i]
@@ -205,7 +205,7 @@ def interp_moist_height(sounding, missing=-9999):
     merging observed sounding data.
     """
     nlev = len(sounding['PRES'])
-    hlist = np.ones(nlev) * -9999
+    hlist = np.full(nlev, missing, dtype=float)
 
     ilev = -1
     top = False
@@ -277,7 +277,7 @@ def interp_moist_height(sounding, missing=-9999):
         for ii in range(ilev + 1, jlev):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
-            z = moist_hydrostatic_height(hbb, pbb, p, scale_z)
+            z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
             sounding['HGHT'][ii] = z
             hbb = z
             pbb = p
-- 
2.43.0


From 0d12e7a4797b3be4b9cd4529bf34cbaad79e905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 64/79] fix: keep heights of levels without temperature out of
 the hydrostatic scaling

---
 src/gempakio/gemcalc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 3e63ef3..ea31bb7 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -270,7 +270,8 @@ def interp_moist_height(sounding, missing=-9999):
         if klev != 0:
             s = (zt - zlev) / (znew - zlev)
             for h in range(ilev + 1, klev + 1):
-                hlist[h] *= s
+                if hlist[h] != missing:
+                    hlist[h] *= s
 
         hbb = zlev
         pbb = plev
@@ -278,9 +279,10 @@ def interp_moist_height(sounding, missing=-9999):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
             z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
-            sounding['HGHT'][ii] = z
-            hbb = z
-            pbb = p
+            if z != missing:
+                sounding['HGHT'][ii] = z
+                hbb = z
+                pbb = p
 
         ilev = klev
 
-- 
2.43.0


From cb6c32f3d14e9eef5f3d5509f34f5a6b5f146fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 65/79] fix: keep the buffer when removing no bytes from its
 end

---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index 3e48b48..142c74b 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -180,7 +180,7 @@ class IOBuffer:
 
     def truncate(self, num_bytes):
         """Remove the specified number of bytes from the end of the buffer."""
-        self._data = self._data[:-num_bytes]
+        self._data = self._data[: max(len(self._data) - num_bytes, 0)]
 
     def at_end(self):
         """Return whether the buffer has reached the end of data."""
-- 
2.43.0


From 6858173d104d76f2d3b69f33934b14792e552e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 66/79] fix: fill the last record of station files whose last
 header slot is without data

---
 src/gempakio/encode/gempak.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 9ad9bf9..59db256 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1078,6 +1078,8 @@ class GridFile(DataManagementFile):
             else:
                 stream.write_int(0)
 
+        # The last header slot may be without data
+        stream.jump_to(self.next_free_word)
         _rec, word = self._dmword(stream.word())
         # Fill out the remainder of the block, if needed
         if word != 1:
@@ -1339,6 +1341,8 @@ class SoundingFile(DataManagementFile):
                 else:
                     stream.write_int(0)
 
+        # The last header slot may be without data
+        stream.jump_to(self.next_free_word)
         _rec, word = self._dmword(stream.word())
         # Fill out the remainder of the block, if needed
         if word != 1:
@@ -1600,6 +1604,8 @@ class SurfaceFile(DataManagementFile):
                 else:
                     stream.write_int(0)
 
+        # The last header slot may be without data
+        stream.jump_to(self.next_free_word)
         _rec, word = self._dmword(stream.word())
         # Fill out the remainder of the block, if needed
         if word != 1:
-- 
2.43.0


From 10fbe3f07dca87c57953ee0e22738761859d1f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 67/79] fix: skip SIGMET and watch elements of unknown versions

---
 src/gempakio/decode/vgf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 2fbb9e5..caf1ff2 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3731,6 +3731,11 @@ class VectorGraphicFile:
                     ('tops', '80s', self._decode_strip_null),
                     ('forecaster', '16s', self._decode_strip_null),
                 ]
+            case _:
+                logger.warning(
+                    'SIGMET version `%s` cannot be decoded. Skipping.', header_struct.version
+                )
+                return
 
         sigmet = self._buffer.read_struct(NamedStruct(sigmet_info, self.prefmt, 'SigmetInfo'))
 
@@ -4961,6 +4966,11 @@ class VectorGraphicFile:
                 # Manually close watch parallelogram
                 if watch.number_points > 2:
                     lon, lat = self.close_coordinates(lon, lat)
+            case _:
+                logger.warning(
+                    'Watch version `%s` cannot be decoded. Skipping.', header_struct.version
+                )
+                return
 
         self._elements.append(
             WatchBoxElement(
-- 
2.43.0


From 899d022c3626f6af97054884d1ad645e6f4faee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 68/79] fix: close coordinates given as lists

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index caf1ff2..60cfb99 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5284,8 +5284,8 @@ class VectorGraphicFile:
             x = np.concatenate([x, [x[0]]])
             y = np.concatenate([y, [y[0]]])
         elif isinstance(x, list) and isinstance(y, list):
-            x += x[0]
-            y += y[0]
+            x = [*x, x[0]]
+            y = [*y, y[0]]
         else:
             raise TypeError('x and y must be of the same type: list or array.')
 
-- 
2.43.0


From f49c761cb8ec92f7fc85fbd62f644c9c51510494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 69/79] fix: station spacing of grids across the 180th meridian

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 59db256..6aff3b7 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1020,7 +1020,7 @@ class GridFile(DataManagementFile):
         rx1 = max(rx2 - 1, 0)
         ry2 = min(self.ny // 2 + 1, self.ny - 1)
         ry1 = max(ry2 - 1, 0)
-        dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
+        dellon = (self.lon[ry2, rx2] - self.lon[ry1, rx1] + 180) % 360 - 180
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
 
-- 
2.43.0


From 1b84ddb58107bd563d7f4712097a7c644baf5b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 70/79] fix: accept parameters repeated in lower case once

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 6aff3b7..9a4ff31 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1153,7 +1153,7 @@ class SoundingFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
-            if param not in self.parameter_names:
+            if param.upper() not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
         self._param_args = namedtuple('Parameters', self.parameter_names)
@@ -1428,7 +1428,7 @@ class SurfaceFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
-            if param not in self.parameter_names:
+            if param.upper() not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
         self._param_args = namedtuple('Parameters', self.parameter_names)
-- 
2.43.0


From b1bc1802b502fca37678859c3e6e967bdda16864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 71/79] fix: reject station parameter names longer than 4
 characters

---
 src/gempakio/encode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 9a4ff31..690d142 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1153,6 +1153,8 @@ class SoundingFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
+            if len(param) > 4:
+                raise ValueError('Parameter name cannot exceed 4 characters.')
             if param.upper() not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
@@ -1428,6 +1430,8 @@ class SurfaceFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
+            if len(param) > 4:
+                raise ValueError('Parameter name cannot exceed 4 characters.')
             if param.upper() not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
-- 
2.43.0


From 7d998abe02714f85afc8b899be000f5522c520d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 72/79] fix: leave the file as it was when the maximum number
 of entries is exceeded

---
 src/gempakio/encode/gempak.py | 51 ++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 690d142..c4de056 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -935,14 +935,17 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
-        self.data[new_column] = self._replace_nan(grid)
-        self._column_set.add(self.make_column_header(*new_column))
-
-        self.columns = len(self._column_set)
+        column = self.make_column_header(*new_column)
+        columns = len(self._column_set) + (column not in self._column_set)
 
-        if self.rows + self.columns > MMHDRS:
+        if self.rows + columns > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
+        self.data[new_column] = self._replace_nan(grid)
+        self._column_set.add(column)
+
+        self.columns = columns
+
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
 
@@ -1247,18 +1250,23 @@ class SoundingFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        row = self.make_row_header(*new_row)
+        rows = len(self._row_set) + (row not in self._row_set)
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
-        self._column_set.add(self.make_column_header(*new_column))
+        column = self.make_column_header(*new_column)
+        columns = len(self._column_set) + (column not in self._column_set)
 
-        self.data[(new_row, new_column)] = params._asdict()
+        if rows + columns > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
+        self._row_set.add(row)
+        self._column_set.add(column)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
+        self.data[(new_row, new_column)] = params._asdict()
+
+        self.rows = rows
+        self.columns = columns
 
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
@@ -1517,18 +1525,23 @@ class SurfaceFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        row = self.make_row_header(*new_row)
+        rows = len(self._row_set) + (row not in self._row_set)
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-        self._column_set.add(self.make_column_header(*new_column))
+        column = self.make_column_header(*new_column)
+        columns = len(self._column_set) + (column not in self._column_set)
 
-        self.data[(new_row, new_column)] = params._asdict()
+        if rows + columns > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
+        self._row_set.add(row)
+        self._column_set.add(column)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
+        self.data[(new_row, new_column)] = params._asdict()
+
+        self.rows = rows
+        self.columns = columns
 
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
-- 
2.43.0


From 0756b6b5a2465d971bb3f1a4e07a95b586530803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 73/79] fix: select grids by arrays of times and series of
 levels

---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index cab1f59..f6b8e10 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1053,7 +1053,7 @@ class GempakGrid(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
+            if not isinstance(date_time, str):
                 date_time = [
                     datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
                     for dt in date_time
@@ -1064,8 +1064,8 @@ class GempakGrid(GempakFile):
                 coordinate = [coordinate]
             coordinate = [c.upper() for c in coordinate]
 
-        if level is not None and not isinstance(level, Iterable):
-            level = [level]
+        if level is not None:
+            level = list(level) if isinstance(level, Iterable) else [level]
 
         if date_time2 is not None:
             if not isinstance(date_time2, Iterable) or (
@@ -1073,14 +1073,14 @@ class GempakGrid(GempakFile):
                 and date_time2 not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time2 = [date_time2]
-            if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
+            if not isinstance(date_time2, str):
                 date_time2 = [
                     datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
                     for dt in date_time2
                 ]
 
-        if level2 is not None and not isinstance(level2, Iterable):
-            level2 = [level2]
+        if level2 is not None:
+            level2 = list(level2) if isinstance(level2, Iterable) else [level2]
 
         # Figure out which columns to extract from the file
         matched = sorted(self._gdinfo)
-- 
2.43.0


From 3e2c53e336c019033c379fe62dba60697137302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 74/79] fix: select stations by arrays of times

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f6b8e10..75cd3f7 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2093,7 +2093,7 @@ class GempakSounding(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
+            if not isinstance(date_time, str):
                 date_time = [
                     datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
                     for dt in date_time
@@ -2833,7 +2833,7 @@ class GempakSurface(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
+            if not isinstance(date_time, str):
                 date_time = [
                     datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
                     for dt in date_time
-- 
2.43.0


From f3bdfbb90ca3c3b714a65c5633ba48ae635d4b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 75/79] fix: raise KeyError for the first or last grid of an
 empty file

---
 src/gempakio/decode/gempak.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 75cd3f7..d085c5a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1085,6 +1085,9 @@ class GempakGrid(GempakFile):
         # Figure out which columns to extract from the file
         matched = sorted(self._gdinfo)
 
+        if not matched:
+            raise KeyError('No grids were matched with given parameters.')
+
         # Do this now or the matched filter iterator will be consumed
         # prematurely.
         if date_time in ['last', 'LAST']:
-- 
2.43.0


From 12e46ecb017d4a544238a1400e38699b42359278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:17 +0000
Subject: [PATCH 76/79] fix: raise KeyError for the first or last time of a
 file without stations

---
 src/gempakio/decode/gempak.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index d085c5a..ae59ddf 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2115,6 +2115,9 @@ class GempakSounding(GempakFile):
         # Figure out which columns to extract from the file
         matched = sorted(self._sninfo)
 
+        if not matched:
+            raise KeyError('No stations were matched with given parameters.')
+
         # Do this now or the matched filter iterator will be consumed
         # prematurely.
         if date_time in ['last', 'LAST']:
@@ -2855,6 +2858,9 @@ class GempakSurface(GempakFile):
         # Figure out which columns to extract from the file
         matched = sorted(self._sfinfo)
 
+        if not matched:
+            raise KeyError('No stations were matched with given parameters.')
+
         # Do this now or the matched filter iterator will be consumed
         # prematurely.
         if date_time in ['last', 'LAST']:
-- 
2.43.0


From 64b2e6d27f990e88c9f80a80791d967bbade7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:35 +0000
Subject: [PATCH 77/79] fix: keep the file at the path when a vector graphics
 element cannot be written

---
 src/gempakio/encode/vgf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index a99bce1..1a82aac 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1737,6 +1737,7 @@ class VGFile:
         ----------
         path : str of `path.Pathlib`
         """
+        data = b''.join(e.encode() for e in self.elements)
+
         with open(path, 'wb') as out:
-            for e in self.elements:
-                out.write(e.encode())
+            out.write(data)
-- 
2.43.0


From 8389bdeae6488575d894df216b4e65e86b21e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 78/79] fix: read surface files without second identifiers or
 priorities

---
 src/gempakio/decode/gempak.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index ae59ddf..ad00b84 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2256,7 +2256,7 @@ class GempakSurface(GempakFile):
                                     irow,
                                     icol,
                                     datetime.combine(row_head.DATE, row_head.TIME),
-                                    col_head.STID + col_head.STD2,
+                                    col_head.STID + getattr(col_head, 'STD2', ''),
                                     col_head.STNM,
                                     col_head.SLAT,
                                     col_head.SLON,
@@ -2280,7 +2280,7 @@ class GempakSurface(GempakFile):
                                 irow,
                                 icol,
                                 datetime.combine(col_head.DATE, col_head.TIME),
-                                col_head.STID + col_head.STD2,
+                                col_head.STID + getattr(col_head, 'STD2', ''),
                                 col_head.STNM,
                                 col_head.SLAT,
                                 col_head.SLON,
@@ -2304,7 +2304,7 @@ class GempakSurface(GempakFile):
                                     irow,
                                     icol,
                                     datetime.combine(col_head.DATE, col_head.TIME),
-                                    row_head.STID + row_head.STD2,
+                                    row_head.STID + getattr(row_head, 'STD2', ''),
                                     row_head.STNM,
                                     row_head.SLAT,
                                     row_head.SLON,
@@ -2381,8 +2381,8 @@ class GempakSurface(GempakFile):
                 'SELV': row_head.SELV,
                 'STAT': row_head.STAT,
                 'COUN': row_head.COUN,
-                'STD2': row_head.STD2,
-                'SPRI': row_head.SPRI,
+                'STD2': getattr(row_head, 'STD2', ''),
+                'SPRI': getattr(row_head, 'SPRI', 0),
                 'DATE': col_head.DATE,
                 'TIME': col_head.TIME,
             }
@@ -2442,8 +2442,8 @@ class GempakSurface(GempakFile):
                 'SELV': col_head.SELV,
                 'STAT': col_head.STAT,
                 'COUN': col_head.COUN,
-                'STD2': col_head.STD2,
-                'SPRI': col_head.SPRI,
+                'STD2': getattr(col_head, 'STD2', ''),
+                'SPRI': getattr(col_head, 'SPRI', 0),
                 'DATE': col_head.DATE,
                 'TIME': col_head.TIME,
             }
@@ -2504,8 +2504,8 @@ class GempakSurface(GempakFile):
                 'SELV': col_head.SELV,
                 'STAT': col_head.STAT,
                 'COUN': col_head.COUN,
-                'STD2': col_head.STD2,
-                'SPRI': col_head.SPRI,
+                'STD2': getattr(col_head, 'STD2', ''),
+                'SPRI': getattr(col_head, 'SPRI', 0),
                 'DATE': row_head.DATE,
                 'TIME': row_head.TIME,
             }
-- 
2.43.0


From 9371ef1d0cc9685f3262317432f90f291d15d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:48 +0000
Subject: [PATCH 79/79] fix: return nearest observations in the same order in
 every process

---
 src/gempakio/decode/gempak.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index ad00b84..c8a9776 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2749,6 +2749,9 @@ class GempakSurface(GempakFile):
             for st in state:
                 station_id.update(stn.ID for stn in self._sfinfo if st == stn.STATE)
 
+        if isinstance(station_id, set):
+            station_id = sorted(station_id)
+
         time_matched = []
         if station_id:
             for stn in station_id:
-- 
2.43.0

