From 85545b8fd447d5dee1723b0e3e09e670520aebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:02 +0000
Subject: [PATCH 01/38] fix: iterate over every scheduling request

Iterating a RequestHandler skipped the last request, so the conflict
check, the cost, the completeness test and the generated windows ignored
it; the iteration state was also shared between nested iterations.
---
 celest/schedule/request_handler.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0c81693..0af848c 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -40,15 +40,7 @@ class RequestHandler:
         return self.requests[index]
 
     def __iter__(self):
-        self.iteration_index = 0
-        return self
-
-    def __next__(self):
-        current_index = self.iteration_index
-        self.iteration_index += 1
-        if self.iteration_index < self.number_of_requests:
-            return self.requests[current_index]
-        raise StopIteration
+        return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
         self.number_of_requests += 1
-- 
2.43.0


From 69ef2bf83ce9c1d538d70e0ec90c1990cd7a13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:13 +0000
Subject: [PATCH 02/38] fix: give each iteration of a WindowCollection its own
 position

A loop left early, or two nested loops over the same collection, shared
one index, so a later iteration skipped windows.
---
 celest/encounter/window_handling.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/celest/encounter/window_handling.py b/celest/encounter/window_handling.py
index 06fc51c..2d8f043 100644
--- a/celest/encounter/window_handling.py
+++ b/celest/encounter/window_handling.py
@@ -5,7 +5,7 @@ from celest.coordinates.ground_location import GroundLocation
 from celest.file_save import TextFileWriter
 from celest.units.quantity import Quantity
 from celest import units as u
-from typing import Union
+from typing import Iterator, Union
 import numpy as np
 
 
@@ -150,7 +150,6 @@ class WindowCollection:
 
     def __init__(self) -> None:
         self._window_data = []
-        self._current_window_index = 0
 
     def __str__(self) -> str:
         return str(self._window_data)
@@ -162,16 +161,8 @@ class WindowCollection:
     def __len__(self) -> int:
         return len(self._window_data)
 
-    def __iter__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        return self
-
-    def __next__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        if self._current_window_index < len(self._window_data):
-            self._current_window_index += 1
-            return self._window_data[self._current_window_index - 1]
-        else:
-            self._current_window_index = 0
-            raise StopIteration
+    def __iter__(self) -> Iterator[Union[VisibleTimeWindow, ObservationWindow]]:
+        return iter(self._window_data)
 
     def __getitem__(self, key) -> Union[list, VisibleTimeWindow,
                                         ObservationWindow]:
-- 
2.43.0


From 5964f3369b7fe8f7739b129f583409424b361424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:13 +0000
Subject: [PATCH 03/38] fix: reject coordinate arrays of any differing length

The chained comparison only raised when every adjacent pair differed, so
e.g. a short time array with equal x and y was accepted.
---
 celest/coordinates/frames/base_positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/frames/base_positions.py b/celest/coordinates/frames/base_positions.py
index 48fb461..e7c8eee 100644
--- a/celest/coordinates/frames/base_positions.py
+++ b/celest/coordinates/frames/base_positions.py
@@ -23,7 +23,7 @@ class Position2d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size:
+        if not time.size == x.size == y.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
@@ -79,7 +79,7 @@ class Position3d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1 or z.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size != z.size:
+        if not time.size == x.size == y.size == z.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
-- 
2.43.0


From 0ae791fd28c1dfbb59ea412087d3dfc29a5c9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:35 +0000
Subject: [PATCH 04/38] fix: convert Julian and Gregorian dates in the same
 batch

Assigning the whole array to the post-1582 entries failed, or mixed up
entries, unless every date of the batch was Gregorian.
---
 celest/coordinates/astronomical_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index a6ac344..24ccdcc 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -404,7 +404,7 @@ def from_julian(julian: Quantity) -> Tuple:
 
     ind = np.where(a >= 2291161)[0]
     alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
-    a[ind] = a + 1 + alpha - (alpha / 4).astype(int)
+    a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
     c = ((b - 122.1) / DAYS_PER_YEAR).astype(int)
-- 
2.43.0


From 0b333146d4524ac6d2e480a63bf1cc2289bc455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:54 +0000
Subject: [PATCH 05/38] fix: use the Gregorian century length in the calendar
 conversion

Meeus' algorithm divides by 36524.25 days; the Julian century (36525)
misdated the days after 28 February 1700, 1800, 1900 and 2100 by one.
---
 celest/constants.py                           | 1 +
 celest/coordinates/astronomical_quantities.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/celest/constants.py b/celest/constants.py
index 53257e7..9e8af0f 100644
--- a/celest/constants.py
+++ b/celest/constants.py
@@ -3,6 +3,7 @@
 # Time constants.
 JD2000_DATE = 2451545
 DAYS_IN_JULIAN_CENTURY = 36525
+DAYS_IN_GREGORIAN_CENTURY = 36524.25
 DAYS_PER_YEAR = 365.25
 
 # Earth rotation constants.
diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 24ccdcc..2e4925d 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -2,6 +2,7 @@
 
 from celest.constants import (
     JD2000_DATE,
+    DAYS_IN_GREGORIAN_CENTURY,
     DAYS_IN_JULIAN_CENTURY,
     DAYS_PER_YEAR,
     EARTH_ROTATION_RATE_DEG_PER_DAY,
@@ -403,7 +404,7 @@ def from_julian(julian: Quantity) -> Tuple:
     a, f = jd.astype(int), jd % 1
 
     ind = np.where(a >= 2291161)[0]
-    alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
+    alpha = ((a[ind] - 1867216.25) / DAYS_IN_GREGORIAN_CENTURY).astype(int)
     a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
-- 
2.43.0


From 9ad4648388909f927d4007144db74563b6eb21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:54 +0000
Subject: [PATCH 06/38] fix: start the Gregorian calendar on 15 October 1582
 (JD 2299160.5)

The threshold was mistyped as 2291161, so dates from 1560 on were
converted with the Gregorian rule.
---
 celest/coordinates/astronomical_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 2e4925d..3db3562 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -403,7 +403,7 @@ def from_julian(julian: Quantity) -> Tuple:
         jd = np.array(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
-    ind = np.where(a >= 2291161)[0]
+    ind = np.where(a >= 2299161)[0]
     alpha = ((a[ind] - 1867216.25) / DAYS_IN_GREGORIAN_CENTURY).astype(int)
     a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
-- 
2.43.0


From 5e3e8352d1b58b9ba5fef36c2854691ad151b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:54 +0000
Subject: [PATCH 07/38] fix: treat Gregorian century years as common years in
 day_of_year

1700, 1800, 1900 and 2100 are not leap years, so days after 28 February
were numbered one too high.
---
 celest/coordinates/astronomical_quantities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 3db3562..8e87482 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -462,7 +462,8 @@ def day_of_year(julian: Quantity) -> np.ndarray:
     year, month, day = from_julian(julian)
 
     K = np.full(day.shape, 2)
-    K[np.where(year % 4 == 0)] = 1
+    leap_year = (year % 4 == 0) & ((year < 1583) | (year % 100 != 0) | (year % 400 == 0))
+    K[np.where(leap_year)] = 1
 
     N = (275 * month / 9).astype(int)
     N = N - K * ((month + 9) / 12).astype(int) + day - 30
-- 
2.43.0


From dd66dfa1d75e60f841530bc3aebb9ae431f97f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:04 +0000
Subject: [PATCH 08/38] fix: apply the outer exponent to repeated units of a
 nested compound

m / (m * s) became m2 / s instead of 1 / s, because the exponent of the
compound was dropped for a base that was already collected.
---
 celest/units/core.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 586e3f0..2d7ff45 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -272,13 +272,10 @@ class CompoundUnit(BaseUnit):
             if isinstance(base, CompoundUnit):
                 for b, p in zip(base.bases, base.powers):
                     if b not in bases:
-                        if b not in bases:
-                            bases.append(b)
-                            powers.append(p * power)
-                        else:
-                            handle_repeated_units(b, p * power)
+                        bases.append(b)
+                        powers.append(p * power)
                     else:
-                        handle_repeated_units(b, p)
+                        handle_repeated_units(b, p * power)
             elif base not in bases:
                 bases.append(base)
                 powers.append(power)
-- 
2.43.0


From f2d57a188459501c17192057102fc4439aa25696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:29 +0000
Subject: [PATCH 09/38] fix: keep the scale factor of compound units

Conversion ignored the factor of a compound unit (2 * km converted as
km), nested factors were dropped ((0.5 * m) / s), and a power of a
non-SI unit was displayed with the factor of its base (km2 as
1000000.0 km2).
---
 celest/units/core.py     | 23 +++++++++++++++++++----
 celest/units/quantity.py | 15 +++------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 2d7ff45..0a69a6b 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -137,6 +137,18 @@ class NamedUnit(BaseUnit):
             namespace[self._short_name] = self
 
 
+def _total_scale(unit: BaseUnit) -> float:
+    """
+    Return the scale of the unit including the scales of a compound's bases.
+    """
+
+    scale = unit.scale
+    if isinstance(unit, CompoundUnit):
+        for base, power in zip(unit.bases, unit.powers):
+            scale *= base.scale ** power
+    return scale
+
+
 class Unit(NamedUnit, BaseUnit):
     """Unit(short_name, long_name, namespace=None, base_units=None)
 
@@ -166,7 +178,7 @@ class Unit(NamedUnit, BaseUnit):
         super().__init__(short_name, long_name, namespace)
 
         if base_units is not None:
-            self._scale = base_units.scale
+            self._scale = _total_scale(base_units)
             self._bases = base_units.bases
             self._powers = base_units.powers
         else:
@@ -222,12 +234,11 @@ class CompoundUnit(BaseUnit):
         base = bases[0]
         power = powers[0]
         if not isinstance(base, CompoundUnit) and len(bases) == 1 and power >= 0:
+            self._scale = scale
             if power == 0:
-                self._scale = scale * base.scale
                 self._bases = []
                 self._powers = []
             else:
-                self._scale = scale * base.scale ** power
                 self._bases = bases
                 self._powers = powers
         else:
@@ -269,7 +280,11 @@ class CompoundUnit(BaseUnit):
                 powers[index] = new_power
 
         for base, power in zip(self._bases, self._powers):
+            if power == 0:
+                continue
             if isinstance(base, CompoundUnit):
+                if base.scale != 1:
+                    self._scale *= base.scale ** power
                 for b, p in zip(base.bases, base.powers):
                     if b not in bases:
                         bases.append(b)
@@ -285,7 +300,7 @@ class CompoundUnit(BaseUnit):
         self._bases = bases
         self._powers = powers
 
-        self._is_unity = True if not len(self._bases) else False
+        self._is_unity = not len(self._bases) and self._scale == 1
 
     def is_unity(self) -> bool:
         return self._is_unity
diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 942c33a..79a78de 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -1,6 +1,6 @@
 
 
-from celest.units.core import CompoundUnit, Unit
+from celest.units.core import CompoundUnit, Unit, _total_scale
 from copy import deepcopy
 from typing import Any, Union
 
@@ -278,20 +278,11 @@ class Quantity:
             raise ValueError(
                 "New unit has a different dimension then the current unit.")
 
-        def _get_unit_scale(unit):
-            if isinstance(unit, CompoundUnit):
-                scale = 1.0
-                for base, power in zip(unit.bases, unit.powers):
-                    scale *= base.scale ** power
-                return scale
-            else:
-                return unit.scale
-
         quantity_copy = deepcopy(self)
 
         if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= _get_unit_scale(
-                quantity_copy.unit) / _get_unit_scale(new_unit)
+            quantity_copy._data *= _total_scale(
+                quantity_copy.unit) / _total_scale(new_unit)
             quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From d66567b43097048c5aea98cae01db9bae23e746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 10/38] fix: cancel dimensions without raising AttributeError

The exponent of a cancelled dimension was popped from a number, so a
ratio such as km / m had no dimension.
---
 celest/units/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index c08645f..2872a03 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -90,7 +90,7 @@ def get_dimensions_from_unit(unit):
             new_power = dimension_powers[dimension_index] + power
             if new_power == 0:
                 dimensions.pop(dimension_index)
-                new_power.pop(dimension_index)
+                dimension_powers.pop(dimension_index)
             else:
                 dimension_powers[dimension_index] = new_power
         else:
-- 
2.43.0


From 7b37662779db5fc89b5b26eda12518bacd845796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 11/38] fix: compare dimensions independently of the order of
 factors

m * s and s * m (and m ** 2 and m ** 2.0) had different dimension
strings, so quantities of equal dimension could not be converted, added
or compared.
---
 celest/units/display.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 2872a03..3db74ec 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -57,14 +57,18 @@ UNIT_TO_DIMENSION_DICTIONARY = {
 }
 
 
+DIMENSION_ORDER = "LTDA"
+
+
 def get_dimension_string(unit):
     numerator_strings = []
     denominator_strings = []
 
     dimensions, powers = get_dimensions_from_unit(unit)
 
-    for dimension, power in zip(dimensions, powers):
-        unit_string = dimension + ("" if abs(power) == 1 else str(abs(power)))
+    for dimension, power in sorted(zip(dimensions, powers),
+                                   key=lambda x: DIMENSION_ORDER.index(x[0])):
+        unit_string = dimension + ("" if abs(power) == 1 else "%g" % abs(power))
         if power > 0:
             numerator_strings.append(unit_string)
         else:
-- 
2.43.0


From 9775bca783267a2ae6edb7e608071819a549eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:58 +0000
Subject: [PATCH 12/38] fix: compare array quantities elementwise with !=, <=
 and >=

These operators applied 'not' and 'or' to whole arrays and raised
ValueError; != also reported a quantity as equal to any other type.
---
 celest/units/quantity.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 79a78de..020c1cf 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -181,7 +181,13 @@ class Quantity:
             return NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data != other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __lt__(self, other):
         if isinstance(other, Quantity):
@@ -193,7 +199,13 @@ class Quantity:
             return NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data <= other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __gt__(self, other):
         if isinstance(other, Quantity):
@@ -205,7 +217,13 @@ class Quantity:
             return NotImplemented
 
     def __ge__(self, other):
-        return self.__eq__(other) or self.__gt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data >= other.to(self._unit)
+        else:
+            return NotImplemented
 
     @property
     def data(self) -> Any:
-- 
2.43.0


From 3cc2d831931ff9ba0baa14149f0815d98cc6cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:58 +0000
Subject: [PATCH 13/38] fix: convert quantities that hold integer arrays

The in-place multiplication by a float raised a casting error.
---
 celest/units/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 020c1cf..0610c2a 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -299,8 +299,8 @@ class Quantity:
         quantity_copy = deepcopy(self)
 
         if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= _total_scale(
-                quantity_copy.unit) / _total_scale(new_unit)
+            quantity_copy._data = quantity_copy._data * (_total_scale(
+                quantity_copy.unit) / _total_scale(new_unit))
             quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From 9a0bbc2ebe09f66de13d2fe3c1e7135ddfce1a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:16 +0000
Subject: [PATCH 14/38] fix: validate ground location angles in the unit they
 are given in

The limits of 90 and 180 degrees were compared with the raw numbers, so
a latitude of 3 radians was accepted and one of 3000 arcminutes was
rejected.
---
 celest/coordinates/ground_location.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index afa628c..ca0e877 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -70,13 +70,14 @@ class GroundLocation:
             Unit of the `height` measure.
         """
 
-        if latitude < -90 or latitude > 90:
+        self._latitude = Quantity(latitude, angular_unit)
+        self._longitude = Quantity(longitude, angular_unit)
+
+        if abs(self._latitude.to(u.deg)) > 90:
             raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if longitude < -180 or longitude > 180:
+        if abs(self._longitude.to(u.deg)) > 180:
             raise ValueError("Longitude must be between -180 and 180 degrees.")
 
-        self._latitude = Quantity(latitude, angular_unit)
-        self._longitude = Quantity(longitude, angular_unit)
         self._height = Quantity(height, length_unit)
 
     def __str__(self) -> str:
-- 
2.43.0


From 5bf8f0c407de72888ea52fa879b3020cb10653aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:16 +0000
Subject: [PATCH 15/38] fix: carry rounded seconds in sexagesimal strings
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The seconds were rounded after the minutes were truncated, so angles
just below a full minute printed as e.g. 37°25′60.00″.
---
 celest/angle_strings.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/celest/angle_strings.py b/celest/angle_strings.py
index c0bb645..1ba92dd 100644
--- a/celest/angle_strings.py
+++ b/celest/angle_strings.py
@@ -55,9 +55,12 @@ def _get_sexagesimal_string(degree_angle: float) -> str:
         Sexagesimal representation string of `degree_angle`.
     """
 
-    degree_string = "%.3s" % str(int(degree_angle)).zfill(2)
-    minute_string = "%.2s" % str(int(degree_angle * 60 % 60)).zfill(2)
-    second_string = str("%.2f" % (degree_angle * 3600 % 60)).zfill(5)
+    minutes, centiseconds = divmod(round(degree_angle * 360000), 6000)
+    degrees, minutes = divmod(minutes, 60)
+
+    degree_string = str(degrees).zfill(2)
+    minute_string = str(minutes).zfill(2)
+    second_string = str("%.2f" % (centiseconds / 100)).zfill(5)
 
     return degree_string + DEGREE_SYMBOL + minute_string + MINUTE_SYMBOL + \
         second_string + SECOND_SYMBOL
-- 
2.43.0


From ca4ffbdfef1e0527ed4a57424218cb0d16fcc9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 16/38] fix: measure azimuth from North in both hemispheres

The reference tangent ran towards the nearest pole, so azimuths of
southern ground locations were measured from South, and it was undefined
on the equator (division by sin(0)).
---
 celest/coordinates/transforms.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0e0f45b..a89a17d 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -355,13 +355,12 @@ def _azimuth(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         location.itrs_z.to(u.km)
     ])
 
-    latitude = location.latitude.to(u.rad)
-    radius = location.radius.to(u.km)
+    radius = np.linalg.norm(ground_itrs)
 
     ground_to_satellite = sat_itrs - ground_itrs
 
-    z_axis_vector = [0, 0, radius / np.sin(latitude)]
-    surface_tangent = z_axis_vector - ground_itrs
+    z_axis_vector = [0, 0, radius ** 2]
+    surface_tangent = z_axis_vector - ground_itrs[2] * ground_itrs
 
     sat_to_ground_on_normal = np.dot(ground_to_satellite, ground_itrs) / radius ** 2
     sat_to_ground_on_normal = np.array([sat_to_ground_on_normal *
-- 
2.43.0


From 38887cdad1cecaa0cac46caf3eb34706d1fd51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 17/38] fix: keep the angle between parallel vectors defined

Rounding could push the cosine of the angle past one, and the angle of
(anti)parallel vectors, e.g. a satellite at the zenith, was NaN.
---
 celest/coordinates/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index a89a17d..2897879 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -397,7 +397,7 @@ def _get_ang(u, v) -> np.ndarray:
 
     numerator = np.sum(u * v, axis=(ua or va))
     denominator = np.linalg.norm(u, axis=ua) * np.linalg.norm(v, axis=va)
-    ang = np.degrees(np.arccos(numerator / denominator))
+    ang = np.degrees(np.arccos(np.clip(numerator / denominator, -1, 1)))
 
     return ang
 
-- 
2.43.0


From eb8c6b5439600e8b91102ba8963b651cc48f5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:17 +0000
Subject: [PATCH 18/38] fix: convert ITRS to geodetic latitude and converge
 every altitude

---
 celest/coordinates/transforms.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 2897879..a863e44 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -180,11 +180,9 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
 
     itrs_x = itrs.x.to(u.km)
     itrs_y = itrs.y.to(u.km)
-    itrs_z = itrs.z.to(u.km)
 
-    latitude = np.arctan(itrs_z / np.sqrt(itrs_x ** 2 + itrs_y ** 2))
+    latitude, height = _geodetic_latitude_and_altitude(itrs)
     longitude = np.arctan2(itrs_y, itrs_x)
-    height = _altitude(itrs)
 
     return WGS84(julian, latitude, longitude, height, u.rad, u.km)
 
@@ -221,6 +219,18 @@ def _altitude(itrs: ITRS) -> np.ndarray:
         raise ValueError(f"Input data is in the {itrs.__class__} frame and not"
                          " the ITRS frame.")
 
+    _, altitude = _geodetic_latitude_and_altitude(itrs)
+
+    return altitude
+
+
+def _geodetic_latitude_and_altitude(itrs: ITRS) -> Tuple[np.ndarray, np.ndarray]:
+    """Return the geodetic latitude in radians and altitude in kilometers.
+
+    The latitude and altitude are refined together until no entry changes by
+    more than the tolerance; see `_altitude` for the method.
+    """
+
     a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
 
     tol = 10e-10
@@ -233,22 +243,22 @@ def _altitude(itrs: ITRS) -> np.ndarray:
     p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
 
     h = np.sqrt(itrs_x ** 2 + itrs_y ** 2 + itrs_z ** 2) - np.sqrt(a * b)
-    phi = np.arctan((itrs_z / p) * (1 - (e ** 2 * a) / (a + h)) ** -1)
+    phi = np.arctan2(itrs_z, p * (1 - (e ** 2 * a) / (a + h)))
 
     def new_vals(a, b, e, p, phi, z):
         N = a / np.sqrt(np.cos(phi) ** 2 + b ** 2 / a ** 2 * np.sin(phi) ** 2)
-        h = p / np.cos(phi) - N
-        phi = np.arctan((z / p) * (1 - (e ** 2 * N) / (N + h)) ** -1)
+        h = p * np.cos(phi) + z * np.sin(phi) - a ** 2 / N
+        phi = np.arctan2(z, p * (1 - (e ** 2 * N) / (N + h)))
 
         return h, phi
 
     hp, phip = new_vals(a, b, e, p, phi, itrs_z)
 
-    while (np.mean(hp - h) > a * tol) or (np.mean(phip - phi) > tol):
+    while (np.max(np.abs(hp - h)) > a * tol) or (np.max(np.abs(phip - phi)) > tol):
         h, phi = hp, phip
         hp, phip = new_vals(a, b, e, p, phi, itrs_z)
 
-    return h
+    return phip, hp
 
 
 def _wgs84_to_itrs(wgs84: WGS84) -> ITRS:
-- 
2.43.0


From 461c15a9cc57152ec325b51a20a23c4ef9bdb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:01 +0000
Subject: [PATCH 19/38] fix: correct the constant term of the zeta precession
 angle

---
 celest/coordinates/astronomical_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 8e87482..c68d05f 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -261,7 +261,7 @@ def conventional_precession_angles(julian: Quantity) -> Tuple:
 
 def _get_zeta_precession_angle(julian: Quantity) -> Quantity:
     t1, t2, t3, t4, t5 = _calculate_raw_elapsed_jd_century_powers(julian, 5)
-    result = 2.59796176 + 2306.0809506 * t1 + 0.3019015 * t2 + \
+    result = 2.5976176 + 2306.0809506 * t1 + 0.3019015 * t2 + \
         0.0179663 * t3 - 0.0000327 * t4 - 0.0000002 * t5
     return Quantity(result, u.arcsec)
 
-- 
2.43.0


From 495ca678f46c8b0b2aa820c57de8964776e14c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 20/38] fix: apply the obliquity rate once in the nutation
 matrix

---
 celest/coordinates/nutation_precession_matrices.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index b020d0e..fc5a479 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -2,7 +2,6 @@
 
 from celest.coordinates.astronomical_quantities import (
     _calculate_raw_elapsed_jd_century_powers,
-    mean_obliquity,
     nutation_components,
     conventional_precession_angles
 )
@@ -131,7 +130,7 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
 
     nutation_in_longitude, nutation_in_obliquity = nutation_components(julian)
     t1, t2, t3 = _calculate_raw_elapsed_jd_century_powers(julian, 3)
-    eps_A = mean_obliquity(julian).to(u.arcsec) - 46.84024 * t1 - 0.00059 * t2 + 0.001813 * t3
+    eps_A = 84381.448 - 46.84024 * t1 - 0.00059 * t2 + 0.001813 * t3
 
     a1 = np.radians(eps_A / 3600)
     a2 = - nutation_in_longitude.to(u.rad)
-- 
2.43.0


From 32402b469e287be6ec4bead422e6c39b5c8613cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 21/38] fix: keep apparent sidereal time within one rotation

---
 celest/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/time.py b/celest/time.py
index 5ebabed..45e58e4 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -480,7 +480,7 @@ class Time:
         gmst = self.gmst().to(u.hourangle)
         eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
 
-        return Quantity(gmst + eqn_of_equinoxes, u.hourangle)
+        return Quantity((gmst + eqn_of_equinoxes) % 24, u.hourangle)
 
     def last(self, longitude: np.ndarray) -> Quantity:
         """Return Local Apparent Sidereal Time.
-- 
2.43.0


From 53d42ed7ef43c10f672217c674eb1562b8e1cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 22/38] fix: return no windows when a satellite is never
 visible

---
 celest/encounter/window_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index b1d5ae4..35628eb 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -87,6 +87,8 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
+        if len(window_index_set) == 0:
+            continue
         rise_time = julian[window_index_set[0] - 1]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
-- 
2.43.0


From dd75b9ecd59dc19aea1b3e0fe6df59c29c8cbb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 23/38] fix: start a window open at the first sample at that
 sample

---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index 35628eb..26f902e 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -89,7 +89,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
     for window_index_set in window_indices:
         if len(window_index_set) == 0:
             continue
-        rise_time = julian[window_index_set[0] - 1]
+        rise_time = julian[max(window_index_set[0] - 1, 0)]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
 
-- 
2.43.0


From 8bceef47322453750e4037300ebeb2b776d3f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:19 +0000
Subject: [PATCH 24/38] fix: close the ephemeris when a date lies outside of
 its range

---
 celest/encounter/window_generator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index 26f902e..497f86d 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -123,12 +123,13 @@ def _get_sun_gcrs(julian: np.ndarray) -> GCRS:
     ephem = pkg_resources.resource_filename(__name__, '../data/de421.bsp')
     kernal = SPK.open(ephem)
 
-    ssb2sunb_pos = kernal[0, 10].compute(julian)
-    ssb2eb_pos = kernal[0, 3].compute(julian)
-    eb2e_pos = kernal[3, 399].compute(julian)
-    e2sun_pos = (ssb2sunb_pos - ssb2eb_pos - eb2e_pos).T
-
-    SPK.close(kernal)
+    try:
+        ssb2sunb_pos = kernal[0, 10].compute(julian)
+        ssb2eb_pos = kernal[0, 3].compute(julian)
+        eb2e_pos = kernal[3, 399].compute(julian)
+        e2sun_pos = (ssb2sunb_pos - ssb2eb_pos - eb2e_pos).T
+    finally:
+        SPK.close(kernal)
 
     return GCRS(julian, e2sun_pos[:, 0], e2sun_pos[:, 1], e2sun_pos[:, 2], u.km)
 
-- 
2.43.0


From 13367f73259c66b5a9a8a2e577ec9025de6c582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:46 +0000
Subject: [PATCH 25/38] fix: save satellites that have no velocity data

---
 celest/satellite.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/celest/satellite.py b/celest/satellite.py
index ed273e8..3476346 100644
--- a/celest/satellite.py
+++ b/celest/satellite.py
@@ -262,24 +262,32 @@ class Satellite:
         """
 
         gcrs_position = _itrs_to_gcrs(self.position)
-        gcrs_velocity = _itrs_to_gcrs(self.velocity)
 
         header = "Satellite Position and Velocity"
         data = [
             ["Time", self.position.time],
             ["Itrs X", self.position.x],
             ["Itrs Y", self.position.y],
-            ["Itrs Z", self.position.z],
-            ["Itrs VX", self.velocity.x],
-            ["Itrs VY", self.velocity.y],
-            ["Itrs VZ", self.velocity.z],
+            ["Itrs Z", self.position.z]
+        ]
+        if self.velocity is not None:
+            data += [
+                ["Itrs VX", self.velocity.x],
+                ["Itrs VY", self.velocity.y],
+                ["Itrs VZ", self.velocity.z]
+            ]
+        data += [
             ["Gcrs X", gcrs_position.x],
             ["Gcrs Y", gcrs_position.y],
-            ["Gcrs Z", gcrs_position.z],
-            ["Gcrs VX", gcrs_velocity.x],
-            ["Gcrs VY", gcrs_velocity.y],
-            ["Gcrs VZ", gcrs_velocity.z]
+            ["Gcrs Z", gcrs_position.z]
         ]
+        if self.velocity is not None:
+            gcrs_velocity = _itrs_to_gcrs(self.velocity)
+            data += [
+                ["Gcrs VX", gcrs_velocity.x],
+                ["Gcrs VY", gcrs_velocity.y],
+                ["Gcrs VZ", gcrs_velocity.z]
+            ]
         writer = TextFileWriter(file_name, header)
         writer.add_layer(data=data)
         writer.save()
-- 
2.43.0


From fb48f6e5dfb0aa8c87ab278dc3dfc8a225ca5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:46 +0000
Subject: [PATCH 26/38] fix: size text file columns for their widest entry

---
 celest/file_save.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index 3032a6b..4a471b0 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -212,10 +212,10 @@ def _get_column_information(label: str, value: Any, value_format:
 
 def _get_maximum_value_width(value: Any, value_format: str) -> int:
     if isinstance(value, Quantity):
-        return len(value_format % np.max(value.data))
+        return max(len(value_format % entry) for entry in value.data)
     elif isinstance(value, np.ndarray):
-        if isinstance(value.dtype, (int, float)):
-            return len(value_format % np.max(value))
+        if np.issubdtype(value.dtype, np.number):
+            return max(len(value_format % entry) for entry in value)
         else:
             return len(max(value.astype(str), key=len))
     else:
-- 
2.43.0


From a4190e841326a9f00d4c13ff011aaacc7c27ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:46 +0000
Subject: [PATCH 27/38] fix: store the look angle of a request as a quantity

---
 celest/schedule/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index f2168c7..89098a5 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -113,7 +113,7 @@ class Scheduler(ALNS):
             Quantity(duration, u.s),
             priority,
             quality,
-            look_ang,
+            None if look_ang is None else Quantity(look_ang, u.deg),
             vtws
         )
 
-- 
2.43.0


From c73c6f131bf256b78ea9a4b0976fa551069ac646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:46 +0000
Subject: [PATCH 28/38] fix: let random removal reach the last request

---
 celest/schedule/removal_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/removal_operators.py b/celest/schedule/removal_operators.py
index ad22f1c..3e0996d 100644
--- a/celest/schedule/removal_operators.py
+++ b/celest/schedule/removal_operators.py
@@ -21,7 +21,7 @@ def random_removal(request_handler, number_to_remove):
         request_handler.unschedule_all_requests()
         return request_handler
 
-    unchecked_indices = [i for i in range(0, len(request_handler) - 1)]
+    unchecked_indices = [i for i in range(0, len(request_handler))]
     while number_to_remove > 0:
         request_index = random.choice(unchecked_indices)
         if request_handler.is_request_scheduled(request_index):
-- 
2.43.0


From ba2cbbc38341259da99910648ee7e988519ad1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:51 +0000
Subject: [PATCH 29/38] fix: report the attitude at the start of a scheduled
 observation

---
 celest/schedule/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 89098a5..1cf21be 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -175,10 +175,10 @@ class Scheduler(ALNS):
 
                 idx = request[RequestIndices.vtw_index]
                 attitude = request[RequestIndices.vtw_list][idx].attitude
-                attitude_idx = np.where(
-                    attitude.time.to(u.jd2000).data ==
-                    request[RequestIndices.scheduled_start_time]
-                )[0]
+                start_time = request[RequestIndices.scheduled_start_time]
+                attitude_idx = [np.argmin(np.abs(
+                    attitude.time.to(u.jd2000) - start_time.to(u.jd2000)
+                ))]
                 time = attitude.time.data[attitude_idx]
                 roll = attitude.roll.data[attitude_idx]
                 pitch = attitude.pitch.data[attitude_idx]
-- 
2.43.0


From 80ab8cb849c3a2af5a3389f9091b6926c942a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:51 +0000
Subject: [PATCH 30/38] fix: score accepted solutions against the solution they
 replace

---
 celest/schedule/alns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 0a25bfa..35ad067 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -130,11 +130,11 @@ class ALNS:
             score = _REJECT_SCORE
 
             if self._accept(temporary_solution, current_solution, temperature):
-                current_solution = copy.deepcopy(temporary_solution)
-                if self.cost_function(temporary_solution) > self.cost_function(current_solution):
+                if self.cost_function(temporary_solution) < self.cost_function(current_solution):
                     score = _BETTER_SCORE
                 else:
                     score = _ACCEPT_SCORE
+                current_solution = copy.deepcopy(temporary_solution)
 
             if self.cost_function(temporary_solution) < self.cost_function(best_solution):
                 best_solution = copy.deepcopy(temporary_solution)
-- 
2.43.0


From abfccaff8262e162ff158c6ceaaea8803c5003c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:51 +0000
Subject: [PATCH 31/38] fix: accept solutions without dividing by a zero cost
 or temperature

---
 celest/schedule/alns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 35ad067..82ab837 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -246,8 +246,10 @@ class ALNS:
         current_cost = self.cost_function(current_solution)
         temporary_cost = self.cost_function(temporary_solution)
 
-        if temporary_cost < current_cost:
+        if temporary_cost <= current_cost:
             return True
+        elif T * current_cost == 0:
+            return False
         else:
             probability = math.exp(100 * (temporary_cost - current_cost) /
                                    (T * current_cost))
-- 
2.43.0


From 2092a7f6965dc57dc7b8eedb029d6c799aeb905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:03 +0000
Subject: [PATCH 32/38] fix: select operators uniformly when every weight has
 decayed to zero

---
 celest/schedule/alns.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 82ab837..81c40c3 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -177,6 +177,8 @@ class ALNS:
             list of probabilities.
         """
 
+        if sum(weights) == 0:
+            return [1 / len(weights) for _ in weights]
         return [weight / sum(weights) for weight in weights]
 
     def _get_repair_index(self) -> int:
-- 
2.43.0


From 8e3e188bf5b340d653470dcaf8f39213f8278dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:03 +0000
Subject: [PATCH 33/38] fix: measure the overlap between windows symmetrically

---
 celest/schedule/request_handler.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0af848c..8676b9a 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -159,19 +159,9 @@ class RequestHandler:
         return not (vtw1.set_time < vtw2.rise_time) | (vtw2.set_time < vtw1.rise_time)
 
     def _julian_day_overlap_between_vtws(self, vtw1, vtw2) -> float:
-        s1, s2 = vtw1.rise_time, vtw2.rise_time
-        e1, e2 = vtw1.set_time, vtw2.set_time
-
-        if (e1 < s2) | (e2 < s1):
-            return 0
-        elif (s1 < s2) & (e2 < e1):
-            return e2 - s2
-        elif (s2 < s1) & (e1 < e2):
-            return e1 - s1
-        elif s2 < e1:
-            return e1 - s2
-        elif s1 < e2:
-            return e2 - s1
+        start = max(vtw1.rise_time.data, vtw2.rise_time.data)
+        end = min(vtw1.set_time.data, vtw2.set_time.data)
+        return max(0, end - start)
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From f7013fe3554657b53533e1b8543d459f38d497e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:25 +0000
Subject: [PATCH 34/38] fix: sort windows of equal conflict degree

---
 celest/schedule/request_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 8676b9a..7d4f1e3 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -173,7 +173,7 @@ class RequestHandler:
                 vtw_indices.append(vtw_index)
 
             self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw for _, vtw in sorted(zip(conflict_degree, vtw_list))]
+                [vtw_list[index] for _, index in sorted(zip(conflict_degree, vtw_indices))]
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-- 
2.43.0


From 22da07039a8fa0b4a32e592bc0a44cef9db381b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:25 +0000
Subject: [PATCH 35/38] fix: keep the window of a scheduled request when
 windows are sorted

---
 celest/schedule/request_handler.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 7d4f1e3..7341863 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -172,12 +172,22 @@ class RequestHandler:
                 conflict_degree.append(self._conflict_degree(vtw))
                 vtw_indices.append(vtw_index)
 
-            self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw_list[index] for _, index in sorted(zip(conflict_degree, vtw_indices))]
+            self._reorder_vtws(
+                self.requests[request_index],
+                [index for _, index in sorted(zip(conflict_degree, vtw_indices))]
+            )
+
+    def _reorder_vtws(self, request, vtw_indices):
+        vtw_list = request[RequestIndices.vtw_list]
+        request[RequestIndices.vtw_list] = [vtw_list[index] for index in vtw_indices]
+        if request[RequestIndices.is_scheduled]:
+            request[RequestIndices.vtw_index] = \
+                vtw_indices.index(request[RequestIndices.vtw_index])
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-            request[RequestIndices.vtw_list] = sorted(
-                request[RequestIndices.vtw_list],
-                key=lambda x: x.rise_time.data
-            )
+            vtw_list = request[RequestIndices.vtw_list]
+            self._reorder_vtws(request, sorted(
+                range(len(vtw_list)),
+                key=lambda index: vtw_list[index].rise_time.data
+            ))
-- 
2.43.0


From 6d328602ca480d55336c5ccd9a6c37f4e881fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:25 +0000
Subject: [PATCH 36/38] fix: count each scheduled request once

---
 celest/schedule/request_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 7341863..21bc131 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -59,11 +59,12 @@ class RequestHandler:
         ])
 
     def schedule_request(self, request_index, vtw_index, start, duration):
+        if not self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests += 1
         self.requests[request_index][RequestIndices.is_scheduled] = True
         self.requests[request_index][RequestIndices.vtw_index] = vtw_index
         self.requests[request_index][RequestIndices.scheduled_start_time] = start
         self.requests[request_index][RequestIndices.scheduled_duration] = duration
-        self.number_of_scheduled_requests += 1
 
     def unschedule_all_requests(self):
         for index in range(self.number_of_requests):
@@ -71,11 +72,12 @@ class RequestHandler:
         self.number_of_scheduled_requests = 0
 
     def unschedule_request(self, request_index):
+        if self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests -= 1
         self.requests[request_index][RequestIndices.is_scheduled] = False
         self.requests[request_index][RequestIndices.vtw_index] = None
         self.requests[request_index][RequestIndices.scheduled_start_time] = None
         self.requests[request_index][RequestIndices.scheduled_duration] = None
-        self.number_of_scheduled_requests -= 1
 
     def is_request_scheduled(self, request_index):
         return self.requests[request_index][RequestIndices.is_scheduled]
-- 
2.43.0


From d40cfc0bcdd5c754c689c4005a24588da7301660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:56 +0000
Subject: [PATCH 37/38] fix: refer GCRS/ITRS rotation to the true equinox
 consistently

Precession used +zeta and nutation rotated about the y instead of the z axis
of the ecliptic frame, while Earth rotation used the (CIO based) Earth rotation
angle. Use R3(GAST) R1(-eps') R3(-dpsi) R1(eps) R3(-z) R2(theta) R3(-zeta) B.
On tests/test_data/coordinate_validation_set.txt the rms error drops from
280 m to 32 m.
---
 .../nutation_precession_matrices.py           | 18 ++++++++---------
 celest/coordinates/transforms.py              | 20 ++++++++++++++++---
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index fc5a479..493913d 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -81,7 +81,7 @@ def precession_matrix(julian: Quantity) -> np.ndarray:
 
     zeta, theta, z = conventional_precession_angles(julian)
 
-    a1 = zeta.to(u.rad)
+    a1 = - zeta.to(u.rad)
     a2 = theta.to(u.rad)
     a3 = - z.to(u.rad)
 
@@ -142,13 +142,13 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
 
     matrix = np.zeros((julian.data.size, 3, 3))
     matrix[:, 0, 0] = c2
-    matrix[:, 0, 1] = s1 * s2
-    matrix[:, 0, 2] = - c1 * s2
-    matrix[:, 1, 0] = s2 * s3
-    matrix[:, 1, 1] = c1 * c3 - s1 * c2 * s3
-    matrix[:, 1, 2] = s1 * c3 + c1 * c2 * s3
-    matrix[:, 2, 0] = s2 * c3
-    matrix[:, 2, 1] = - c1 * s3 - s1 * c2 * c3
-    matrix[:, 2, 2] = - s1 * s3 + c1 * c2 * c3
+    matrix[:, 0, 1] = c1 * s2
+    matrix[:, 0, 2] = s1 * s2
+    matrix[:, 1, 0] = - s2 * c3
+    matrix[:, 1, 1] = c1 * c2 * c3 - s1 * s3
+    matrix[:, 1, 2] = s1 * c2 * c3 + c1 * s3
+    matrix[:, 2, 0] = s2 * s3
+    matrix[:, 2, 1] = - c1 * c2 * s3 - s1 * c3
+    matrix[:, 2, 2] = c1 * c3 - s1 * c2 * s3
 
     return matrix
diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index a863e44..6e6da8f 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -1,6 +1,5 @@
 
 
-from celest.coordinates.astronomical_quantities import earth_rotation_angle
 from celest.coordinates.frames.azel import AzEl
 from celest.coordinates.frames.gcrs import GCRS
 from celest.coordinates.frames.itrs import ITRS
@@ -17,6 +16,7 @@ from celest.constants import (
     WGS84_MAJOR_AXIS_KM,
     WGS83_FIRST_ECCENTRICITY
 )
+from celest.units.quantity import Quantity
 from celest import units as u
 from copy import deepcopy
 from typing import Tuple
@@ -61,7 +61,7 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     gcrs_z = gcrs.z.data.reshape((-1, 1))
     gcrs = np.concatenate((gcrs_x, gcrs_y, gcrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    era = _apparent_sidereal_time(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
@@ -75,6 +75,20 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     return ITRS(julian.data, itrs[:, 0], itrs[:, 1], itrs[:, 2], unit)
 
 
+def _apparent_sidereal_time(julian: Quantity) -> Quantity:
+    """Return the Earth's rotation relative to the true equinox of date.
+
+    The precession and nutation matrices refer positions to the true equinox
+    of date, from which sidereal time (not the Earth rotation angle, measured
+    from the celestial intermediate origin) is reckoned.
+    """
+
+    # celest.time itself imports from this package.
+    from celest.time import Time
+
+    return Time(julian.to(u.jd2000)).gast()
+
+
 def _rotate_by_earth_rotation_angle(data, degree_era):
     """Rotate vectors about the z-axis by the Earth rotation angle.
 
@@ -140,7 +154,7 @@ def _itrs_to_gcrs(itrs: ITRS) -> GCRS:
     itrs_z = itrs.z.data.reshape((-1, 1))
     itrs = np.concatenate((itrs_x, itrs_y, itrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    era = _apparent_sidereal_time(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
-- 
2.43.0


From 6f38e8a258a87444e5dbaeabb0a8b828b9e6edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:00 +0000
Subject: [PATCH 38/38] fix: format numeric columns of text files next to text
 columns

---
 celest/file_save.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index 4a471b0..9ca0247 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -224,9 +224,9 @@ def _get_maximum_value_width(value: Any, value_format: str) -> int:
 
 def _get_and_reshape_column_data(value: Any) -> np.ndarray:
     if isinstance(value, Quantity):
-        return value.data.reshape((-1, 1))
+        return value.data.reshape((-1, 1)).astype(object)
     else:
-        return value.reshape((-1, 1))
+        return value.reshape((-1, 1)).astype(object)
 
 
 def _write_column_data_to_file(file: IO, column_widths: list,
-- 
2.43.0

