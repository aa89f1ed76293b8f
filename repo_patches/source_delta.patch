From 26a0f0a8d175693a0ce9811069c430ef2909e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 01/43] fix: refuse to aggregate child parameters of a
 different type

A parent of e.g. scalar and timeseries (or point and average timeseries)
children could be requested in any type and then returned meaningless sums or
failed with unrelated errors.
---
 openscm/core/parameters.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 09d199b..07c9fab 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -226,6 +226,26 @@ class _Parameter:
 
         return self
 
+    def can_be_aggregated_as(self, parameter_type: ParameterType) -> bool:
+        """
+        Check whether this parameter (and all of its child parameters) can contribute to
+        a parent parameter which is read as :obj:`parameter_type`.
+
+        Parameters
+        ----------
+        parameter_type
+            Parameter type the parent parameter is to be read as
+
+        Returns
+        -------
+        bool
+            If ``True``, this parameter can be aggregated as :obj:`parameter_type`
+        """
+        return self.parameter_type in (None, parameter_type) and all(
+            child.can_be_aggregated_as(parameter_type)
+            for child in self.children.values()
+        )
+
     def attempt_read(
         self,
         parameter_type: ParameterType,
@@ -249,7 +269,8 @@ class _Parameter:
         Raises
         ------
         ParameterTypeError
-            If parameter has already been read from or written to in a different type
+            If parameter (or one of the child parameters it aggregates) has already been
+            read from or written to in a different type
         ParameterAggregationError
             If parameter has child parameters which cannot be aggregated (for boolean
             and string parameters)
@@ -257,6 +278,11 @@ class _Parameter:
         if self.parameter_type is not None and self.parameter_type != parameter_type:
             raise ParameterTypeError
         if self.parameter_type is None:
+            if parameter_type != ParameterType.GENERIC and any(
+                not child.can_be_aggregated_as(parameter_type)
+                for child in self.children.values()
+            ):
+                raise ParameterTypeError
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
-- 
2.43.0


From 19f6507de6b5ef3a43695a70ad6d66cd52ae8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:40 +0000
Subject: [PATCH 02/43] fix: keep the parameter type open when a generic read
 of a parent is refused

---
 openscm/core/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 07c9fab..71f1191 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -278,7 +278,9 @@ class _Parameter:
         if self.parameter_type is not None and self.parameter_type != parameter_type:
             raise ParameterTypeError
         if self.parameter_type is None:
-            if parameter_type != ParameterType.GENERIC and any(
+            if parameter_type == ParameterType.GENERIC and self.children:
+                raise ParameterAggregationError
+            if any(
                 not child.can_be_aggregated_as(parameter_type)
                 for child in self.children.values()
             ):
@@ -288,8 +290,6 @@ class _Parameter:
             if parameter_type == ParameterType.SCALAR:
                 self.data = float("NaN")
             elif parameter_type == ParameterType.GENERIC:
-                if self.children:
-                    raise ParameterAggregationError
                 self.data = None
             else:  # parameter is a timeseries
                 self.data = np.full(
-- 
2.43.0


From 8f4fb0c0e951a7f272d1512776638c41aea87106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 03/43] fix: refuse new sub-parameters below a parameter read
 in aggregated form

Only the direct parent was checked, so that a view of a grandparent silently
left out sub-parameters added after it had been read.
---
 openscm/core/parameters.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 71f1191..217c614 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -184,8 +184,9 @@ class _Parameter:
         Raises
         ------
         ParameterReadError
-            If the child parameter would need to be added, but this parameter has
-            already been read from. In this case a child parameter cannot be added.
+            If the child parameter would need to be added, but this parameter or one of
+            its parent parameters has already been read from. In this case a child
+            parameter cannot be added.
         ParameterWrittenError
             If the child parameter would need to be added, but this parameter has
             already been written to. In this case a child parameter cannot be added.
@@ -194,8 +195,13 @@ class _Parameter:
         if res is None:
             if self.has_been_written_to:
                 raise ParameterWrittenError
-            if self.has_been_read_from:
-                raise ParameterReadError
+            # an ancestor which has been read from aggregates over the child parameters
+            # there were at that time
+            ancestor: Optional["_Parameter"] = self
+            while ancestor is not None:
+                if ancestor.has_been_read_from:
+                    raise ParameterReadError
+                ancestor = ancestor.parent
             res = _Parameter(name, self.region)
             res.parent = self
             self.children[name] = res
-- 
2.43.0


From 14e6000e12887dd7efc4d11776d7e4c4c16e6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 04/43] fix: undo a view request which fails

A request with e.g. an undefined unit fixed type and unit of the parameter
(which could not be viewed any more after that) and left newly created
parameters in the hierarchy.
---
 openscm/core/parameters.py   | 13 +++++++
 openscm/core/parameterset.py | 71 +++++++++++++++++++++++++-----------
 openscm/core/regions.py      | 11 ++++++
 3 files changed, 74 insertions(+), 21 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 217c614..8169e22 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -337,6 +337,19 @@ class _Parameter:
         self.attempt_read(parameter_type, unit, time_points)
         self.has_been_written_to = True
 
+    def remove_if_unused(self) -> None:
+        """
+        Remove this parameter from its parent (and then, likewise, its parent), or from
+        its region, if nobody has requested it or any sub parameter of it.
+        """
+        if self.children or self.parameter_type is not None:
+            return
+        if self.parent is None:
+            self.region.remove_parameter(self.name)
+        else:
+            del self.parent.children[self.name]
+            self.parent.remove_if_unused()
+
     @property
     def full_name(self) -> Tuple[str, ...]:
         """
diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index 6dd69a7..03306a6 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -1,7 +1,8 @@
 """
 Bundling parameters in a parameter set.
 """
-from typing import Optional, Union
+from contextlib import contextmanager
+from typing import Iterator, Optional, Union
 
 import numpy as np
 
@@ -135,6 +136,38 @@ class ParameterSet:
         # len(name) == 0
         raise ValueError("No parameter name given")
 
+    @contextmanager
+    def _request_parameter(
+        self, name: HierarchicalName, region: HierarchicalName
+    ) -> Iterator[_Parameter]:
+        """
+        Get a parameter (create and add it if not found) in order to request a view to
+        it. If the request fails the parameter is left as it was before.
+
+        Parameters
+        ----------
+        name
+            :ref:`Hierarchical name <parameter-hierarchy>` of the parameter
+        region
+            Hierarchical name of the region
+
+        Yields
+        ------
+        _Parameter
+            Parameter found or newly created.
+        """
+        parameter = self._get_or_create_parameter(
+            name, self._get_or_create_region(region)
+        )
+        state = dict(vars(parameter))
+        try:
+            yield parameter
+        except BaseException:
+            vars(parameter).clear()
+            vars(parameter).update(state)
+            parameter.remove_if_unused()
+            raise
+
     def scalar(
         self, name: HierarchicalName, unit: str, region: HierarchicalName = ("World",)
     ) -> ScalarView:
@@ -164,12 +197,9 @@ class ParameterSet:
         ValueError
             Name not given or invalid region
         """
-        parameter = self._get_or_create_parameter(
-            name, self._get_or_create_region(region)
-        )
-
-        parameter.attempt_read(ParameterType.SCALAR, unit)
-        return ScalarView(parameter, unit)
+        with self._request_parameter(name, region) as parameter:
+            parameter.attempt_read(ParameterType.SCALAR, unit)
+            return ScalarView(parameter, unit)
 
     def timeseries(  # pylint: disable=too-many-arguments
         self,
@@ -218,14 +248,16 @@ class ParameterSet:
         timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
         interpolation = InterpolationType.from_interpolation_type(interpolation)
         extrapolation = ExtrapolationType.from_extrapolation_type(extrapolation)
-        parameter = self._get_or_create_parameter(
-            name, self._get_or_create_region(region)
-        )
-
-        parameter.attempt_read(timeseries_type, unit, time_points)
-        return TimeseriesView(
-            parameter, unit, time_points, timeseries_type, interpolation, extrapolation
-        )  # TimeseriesView
+        with self._request_parameter(name, region) as parameter:
+            parameter.attempt_read(timeseries_type, unit, time_points)
+            return TimeseriesView(
+                parameter,
+                unit,
+                time_points,
+                timeseries_type,
+                interpolation,
+                extrapolation,
+            )
 
     def generic(
         self, name: HierarchicalName, region: HierarchicalName = ("World",)
@@ -256,12 +288,9 @@ class ParameterSet:
         ValueError
             Name not given or invalid region
         """
-        parameter = self._get_or_create_parameter(
-            name, self._get_or_create_region(region)
-        )
-
-        parameter.attempt_read(ParameterType.GENERIC)
-        return GenericView(parameter)
+        with self._request_parameter(name, region) as parameter:
+            parameter.attempt_read(ParameterType.GENERIC)
+            return GenericView(parameter)
 
     def info(
         self, name: HierarchicalName, region: HierarchicalName = ("World",)
diff --git a/openscm/core/regions.py b/openscm/core/regions.py
index ad2d719..501dab3 100644
--- a/openscm/core/regions.py
+++ b/openscm/core/regions.py
@@ -122,6 +122,17 @@ class _Region:
             self._parameters[name] = res
         return res
 
+    def remove_parameter(self, name: str) -> None:
+        """
+        Remove a root parameter from this region.
+
+        Parameters
+        ----------
+        name
+            Name
+        """
+        del self._parameters[name]
+
     def get_parameter(
         self, name: "parameters.HierarchicalName"
     ) -> Optional["parameters._Parameter"]:
-- 
2.43.0


From cd4551c89018b4ccf53366030ad221ac46ae1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:34 +0000
Subject: [PATCH 05/43] fix: do not mark a scalar as written when the value
 cannot be converted

---
 openscm/core/views.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index be0af3b..4b78f33 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -10,7 +10,11 @@ import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
 from pandas.core.arrays.base import ExtensionOpsMixin
 
-from ..errors import ParameterEmptyError, TimeseriesPointsValuesMismatchError
+from ..errors import (
+    ParameterEmptyError,
+    ParameterReadonlyError,
+    TimeseriesPointsValuesMismatchError,
+)
 from .parameters import ParameterInfo, ParameterType, _Parameter
 from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
@@ -220,12 +224,15 @@ class ScalarView(ParameterInfo):
         """
         Value of scalar parameter
         """
+        if self._parameter.children:
+            raise ParameterReadonlyError
+        data = self._unit_converter.convert_to(v)
         if not self._writable:
             self._parameter.attempt_write(
                 ParameterType.SCALAR, self._unit_converter.target
             )
             self._writable = True
-        self._parameter.data = self._unit_converter.convert_to(v)
+        self._parameter.data = data
         self._parameter.version += 1
 
     @property
-- 
2.43.0


From 4ab00b533fd799d58b4c9236a8c799d987d84c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 06/43] fix: leave a timeseries as it was when writing it fails

Values of the wrong length, or which could not be converted, left the parameter
marked as written (readable as NaN by others) and the view's cache modified.
---
 openscm/core/views.py | 62 ++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 4b78f33..a437b52 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -4,7 +4,8 @@ and time information.
 """
 
 import numbers
-from typing import Any, Optional, Sequence, Tuple, cast
+from contextlib import contextmanager
+from typing import Any, Iterator, Optional, Sequence, Tuple, cast
 
 import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
@@ -107,8 +108,8 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
-        self._ndarray[key] = val
-        self.__write__()
+        with self._parameter_view._modification():
+            self._ndarray[key] = val
 
     def __iter__(self):
         self.__read__()
@@ -358,22 +359,46 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._version = self._parameter.version
 
     def _check_write(self):
-        if not self._writable:
-            self._parameter.attempt_write(
-                self._timeseries_converter._timeseries_type,
-                self._unit_converter.target,
-                self._timeseries_converter._target,
-            )
-            self._writable = True
+        if self._parameter.children:
+            raise ParameterReadonlyError
 
     def _write(self):
         if not self._locked:
-            self._parameter.data = self._timeseries_converter.convert_to(
+            data = self._timeseries_converter.convert_to(
                 self._unit_converter.convert_to(self._data)
             )
+            if not self._writable:
+                self._parameter.attempt_write(
+                    self._timeseries_converter._timeseries_type,
+                    self._unit_converter.target,
+                    self._timeseries_converter._target,
+                )
+                self._writable = True
+            self._parameter.data = data
             self._parameter.version += 1
             self._version = self._parameter.version
 
+    @contextmanager
+    def _modification(self) -> Iterator[None]:
+        """
+        Context in which the cached data can be modified and after which it is written.
+
+        If modifying or writing the data fails, it is left as it was before.
+        """
+        self._check_write()
+        data = self._data
+        backup = None if data is None else data.copy()
+        try:
+            yield
+            self._write()
+        except BaseException:
+            self._data = data
+            if data is None:
+                self._timeseries = None
+            else:
+                np.copyto(data, backup)
+            raise
+
     def _get_values(self) -> np.ndarray:
         if self._parameter.children:
             return cast(
@@ -419,14 +444,15 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         Value of the full timeseries
         """
         self._check_write()
-        if len(v) != self._timeseries_converter.target_length:
+        values = np.asarray(v)
+        if len(values) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
-        if self._data is None:
-            self._data = np.asarray(v).copy()
-            self._timeseries = _Timeseries(self._data, self)
-        else:
-            np.copyto(self._data, np.asarray(v))
-        self._write()
+        with self._modification():
+            if self._data is None:
+                self._data = values.copy()
+                self._timeseries = _Timeseries(self._data, self)
+            else:
+                np.copyto(self._data, values)
 
     @property
     def unit(self) -> Optional[str]:
-- 
2.43.0


From 3e6c6017e12c7447141f14fa63c4a22bfdb3a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 07/43] fix: refuse element writes and ufunc outputs of an
 aggregated timeseries

Writing single elements, in-place operators and ufuncs with an output argument
bypassed the read-only check of parameters with child parameters; ufunc.at
changed the cached values without writing them to the parameter.
---
 openscm/core/views.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index a437b52..3c3a3b0 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -4,7 +4,7 @@ and time information.
 """
 
 import numbers
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from typing import Any, Iterator, Optional, Sequence, Tuple, cast
 
 import numpy as np
@@ -33,6 +33,15 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     _ndarray: np.ndarray
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
+        # `at` modifies its first argument
+        modified = inputs[:1] if method == "at" else kwargs.get("out", ())
+        with ExitStack() as modifications:
+            for i in modified:
+                if isinstance(i, type(self)):
+                    modifications.enter_context(i._parameter_view._modification())
+            return self._apply_ufunc(ufunc, method, *inputs, **kwargs)
+
+    def _apply_ufunc(self, ufunc, method, *inputs, **kwargs):
         args = [
             i.__read__()._ndarray if isinstance(i, type(self)) else i for i in inputs
         ]
@@ -47,7 +56,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             if ufunc.nout == 1:
                 results = (results,)
             results = tuple(
-                (output.__write__() if isinstance(output, type(self)) else result)
+                (output if isinstance(output, type(self)) else result)
                 for result, output in zip(results, outputs)
             )
             return results[0] if len(results) == 1 else results
@@ -96,10 +105,6 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         self._parameter_view._read()
         return self
 
-    def __write__(self):
-        self._parameter_view._write()
-        return self
-
     def __getitem__(self, item):
         self.__read__()
         result = self._ndarray[item]
-- 
2.43.0


From f155784c1f05b409dee516452facd91c135b609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:16 +0000
Subject: [PATCH 08/43] fix: update aggregated timeseries when a child
 parameter has been written

---
 openscm/core/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 3c3a3b0..b81260c 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -359,7 +359,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif self._version != self._parameter.version:
+        elif self._parameter.children or self._version != self._parameter.version:
+            # the version of a parameter does not change with its child parameters
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
-- 
2.43.0


From e562b77b9c1b279fe9dc90a78537c70bb46c85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 09/43] fix: keep others' writes when writing single elements
 of a timeseries

Writing an element of values obtained earlier wrote the other elements as last
seen by this view, undoing what others had written since.
---
 openscm/core/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index b81260c..52f7f76 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -38,6 +38,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         with ExitStack() as modifications:
             for i in modified:
                 if isinstance(i, type(self)):
+                    i.__read__()
                     modifications.enter_context(i._parameter_view._modification())
             return self._apply_ufunc(ufunc, method, *inputs, **kwargs)
 
@@ -113,6 +114,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
+        self.__read__()
         with self._parameter_view._modification():
             self._ndarray[key] = val
 
-- 
2.43.0


From 6e187bee8f19b95826068ba40c0e9dbdf15f6b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 10/43] fix: use current values in arithmetic with values of a
 timeseries view

Values obtained earlier were only updated for some operations. Also do not hand
out the view's own cache when converting values to an array.
---
 openscm/core/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 52f7f76..e93baa4 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -74,10 +74,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     def _create_arithmetic_method(cls, op):
         def arithmetic_method(self, other):
             if isinstance(other, cls):
-                other = other._ndarray
+                other = other.__read__()._ndarray
 
             with np.errstate(all="ignore"):
-                return op(self._ndarray, other)
+                return op(self.__read__()._ndarray, other)
 
         arithmetic_method.__name__ = "__{}__".format(op.__name__)
         arithmetic_method.__qualname__ = "{cl}.__{name}__".format(
@@ -124,10 +124,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             yield i
 
     def __repr__(self):
-        return "timeseries({})".format(repr(self._ndarray))
+        return "timeseries({})".format(repr(self.__read__()._ndarray))
 
     def __array__(self, dtype=None):
-        return np.asarray(self._ndarray, dtype=dtype)
+        return np.array(self.__read__()._ndarray, dtype=dtype)
 
     def __len__(self):
         return len(self._ndarray)
-- 
2.43.0


From 0cc3053305b841603a17fc322af8ae2fb0d6ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 11/43] fix: allow to read and write fractional values after
 writing integers

The view's cache keeps the number type of the values first written, and could
not be updated with floating point values after that.
---
 openscm/core/views.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index e93baa4..7bda7db 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -363,9 +363,17 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._version = self._parameter.version
         elif self._parameter.children or self._version != self._parameter.version:
             # the version of a parameter does not change with its child parameters
-            np.copyto(self._data, self._get_values())
+            self._update_data(self._get_values())
             self._version = self._parameter.version
 
+    def _update_data(self, values: np.ndarray) -> None:
+        if np.can_cast(values.dtype, self._data.dtype, casting="same_kind"):
+            np.copyto(self._data, values)
+        else:  # e.g. values read after integers have been written with this view
+            self._data = values.copy()
+            if self._timeseries is not None:
+                self._timeseries._ndarray = self._data
+
     def _check_write(self):
         if self._parameter.children:
             raise ParameterReadonlyError
@@ -405,6 +413,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                 self._timeseries = None
             else:
                 np.copyto(data, backup)
+                if self._timeseries is not None:
+                    self._timeseries._ndarray = data
             raise
 
     def _get_values(self) -> np.ndarray:
@@ -460,7 +470,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                 self._data = values.copy()
                 self._timeseries = _Timeseries(self._data, self)
             else:
-                np.copyto(self._data, values)
+                self._update_data(values)
 
     @property
     def unit(self) -> Optional[str]:
-- 
2.43.0


From 0234352c3354a9f6af748222ceaa846a1526ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 12/43] fix: publish exactly the writes made while a timeseries
 view was locked

The first write to a locked view marked the parameter as written (readable as
NaN), reading a locked view dropped its unpublished values when others had
written, and unlocking without writes failed or overwrote newer values.
---
 openscm/core/views.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 7bda7db..c07b71e 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -274,6 +274,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     write)?
     """
 
+    _pending: bool
+    """Has this view been written to since it has been locked?"""
+
     _timeseries: Optional[_Timeseries]
     """Time series handler"""
 
@@ -327,7 +330,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
         self._data = None
         self._locked = False
+        self._pending = False
         self._timeseries = None
+        self._version = parameter.version
         self._writable = False
 
         def get_data_views_for_children_or_parameter(
@@ -358,6 +363,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             )
 
     def _read(self):
+        if self._pending:
+            return
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
@@ -379,7 +386,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             raise ParameterReadonlyError
 
     def _write(self):
-        if not self._locked:
+        if self._locked:
+            self._pending = True
+        else:
             data = self._timeseries_converter.convert_to(
                 self._unit_converter.convert_to(self._data)
             )
@@ -392,6 +401,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                 self._writable = True
             self._parameter.data = data
             self._parameter.version += 1
+            self._pending = False
             self._version = self._parameter.version
 
     @contextmanager
@@ -502,10 +512,16 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Unlock this view (i.e., update the underlying parameter on every write).
 
-        Updates the underlying parameter.
+        Updates the underlying parameter if this view has been written to since it has
+        been locked.
         """
         self._locked = False
-        self._write()
+        if self._pending:
+            try:
+                self._write()
+            except BaseException:
+                self._locked = True
+                raise
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From 203ae52eeb85996389d243322e7d76ca5d7f1d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 13/43] fix: do not mix up metric contexts of concurrent unit
 conversions

A context is enabled for the whole (shared) registry, so that conversions in
other threads were carried out in it, and loading the contexts at their first
use could happen twice.
---
 openscm/core/units.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 6d23e2d..2564f6d 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -109,6 +109,7 @@ prevent inadvertent conversions from 'NOx' to e.g. 'N2O', the conversion 'NOx' <
     >>> uc.convert_from(1)
     0.9565217391304348
 """
+import threading
 import warnings
 from typing import Dict, Optional, Sequence, Union
 
@@ -459,6 +460,11 @@ The unit registry contains all of the recognised units.
 """
 _unit_registry.add_standards()
 
+_unit_registry_lock = threading.RLock()
+"""
+Lock to be held when converting units with the (shared) unit registry
+"""
+
 
 class UnitConverter:
     """
@@ -502,19 +508,21 @@ class UnitConverter:
         self._source = source
         self._target = target
 
-        source_unit = _unit_registry.Unit(source)
-        target_unit = _unit_registry.Unit(target)
+        # contexts are enabled for the unit registry as a whole
+        with _unit_registry_lock:
+            source_unit = _unit_registry.Unit(source)
+            target_unit = _unit_registry.Unit(target)
 
-        s1 = _unit_registry.Quantity(1, source_unit)
-        s2 = _unit_registry.Quantity(-1, source_unit)
+            s1 = _unit_registry.Quantity(1, source_unit)
+            s2 = _unit_registry.Quantity(-1, source_unit)
 
-        if context is None:
-            t1 = s1.to(target_unit)
-            t2 = s2.to(target_unit)
-        else:
-            with _unit_registry.context(context):
+            if context is None:
                 t1 = s1.to(target_unit)
                 t2 = s2.to(target_unit)
+            else:
+                with _unit_registry.context(context):
+                    t1 = s1.to(target_unit)
+                    t2 = s2.to(target_unit)
 
         if np.isnan(t1) or np.isnan(t2):
             warn_msg = (
-- 
2.43.0


From 23d8763716d8c3589edb1a411bbaf223bc4d2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 14/43] fix: interpolate data frames with both average and
 point timeseries

The time point added for average timeseries was kept for the point timeseries
interpolated after them.
---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4beb8ce..30bcc53 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1008,13 +1008,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
             time_points = self.time_points
+            target_time_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
                 # With an average time series we are making the assumption that the last value is the
                 # average value between t[-1] and (t[-1] - t[-2]). This will ensure that both the
                 # point and average timeseries can use the same time grid.
                 delta_t = target_times[-1] - target_times[-2]
-                target_times = np.concatenate(
+                target_time_points = np.concatenate(
                     (target_times, [target_times[-1] + delta_t])
                 )
 
@@ -1023,7 +1024,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             timeseries_converter = TimeseriesConverter(
                 time_points,
-                target_times,
+                target_time_points,
                 p_type,
                 InterpolationType.from_interpolation_type(interpolation_type),
                 ExtrapolationType.from_extrapolation_type(extrapolation_type),
-- 
2.43.0


From 4e9a75d85cab45580651185e322bf06a81b74719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 15/43] fix: keep guessed parameter types when interpolating

Whether the guesses ended up in the metadata depended on the types of the
other metadata columns; with numeric ones all values were lost.
---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 30bcc53..927a4fa 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -999,7 +999,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                 )
             return r
 
-        res._meta.apply(guess, axis=1)
+        res._meta = res._meta.apply(guess, axis=1)
 
         # Resize dataframe to new index length
         old_data = res._data
-- 
2.43.0


From bb4e616371a7e29f47bd5c660ae3dd4d9f6347b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 16/43] fix: leave the data frame as it was when renaming it in
 place fails

---
 openscm/scmdataframe/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 927a4fa..13d22b8 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -853,16 +853,17 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         ValueError
             Column is not in meta or renaming will cause non-unique metadata
         """
-        ret = copy.deepcopy(self) if not inplace else self
+        meta = self.meta
         for col, _mapping in mapping.items():
-            if col not in self.meta.columns:
+            if col not in meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            ret._meta[col] = ret._meta[col].replace(  # pylint: disable=protected-access
-                _mapping
-            )
-            if ret._meta.duplicated().any():  # pylint: disable=protected-access
+            meta[col] = meta[col].replace(_mapping)
+            if meta.duplicated().any():
                 raise ValueError("Renaming to non-unique metadata for {}!".format(col))
 
+        ret = copy.deepcopy(self) if not inplace else self
+        ret._meta = meta  # pylint: disable=protected-access
+
         if not inplace:
             return ret
 
-- 
2.43.0


From 974192b69e08884460cd6a12636079f322352f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 17/43] fix: leave the data frame as it was when converting
 units in place fails

Timeseries converted before the one which cannot be converted, and the column
for the unit context, remained changed.
---
 openscm/scmdataframe/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 13d22b8..a288068 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1254,7 +1254,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             with the converted units.
         """
         # pylint: disable=protected-access
-        ret = self if inplace else self.copy()
+        ret = self.copy()
 
         if "unit_context" not in ret._meta:
             ret._meta["unit_context"] = None
@@ -1271,6 +1271,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         if not inplace:
             return ret
+        self._data, self._meta = ret._data, ret._meta
         return None
 
     def relative_to_ref_period_mean(
-- 
2.43.0


From 0bd75f3f81dcdd30d3d447608a054095ba85ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 18/43] fix: leave the time axis as it was when setting it
 fails

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index a288068..6690844 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -445,8 +445,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Provides direct access to set "time" as well as the columns in :attr:`meta`.
         """
         if key == "time":
-            self._time_points = TimePoints(value)
-            self._data.index = self._time_points.to_index()
+            time_points = TimePoints(value)
+            self._data.index = time_points.to_index()
+            self._time_points = time_points
             return value
         return self.set_meta(value, name=key)
 
-- 
2.43.0


From 7bbb5d2ce7f11d61507196cca32818ed751dc3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 19/43] fix: copy time points so that later changes of the
 given array have no effect

---
 openscm/core/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b872cae..ea21e03 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -171,7 +171,7 @@ class TimePoints:  # TODO: track type of timeseries
         values
             Time points array to handle
         """
-        self._values = _format_datetime(np.asarray(values))
+        self._values = _format_datetime(np.array(values))
 
     @property
     def values(self) -> np.ndarray:
-- 
2.43.0


From 7f603153332103a3785c341ab570732db2e97e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 20/43] fix: do not hand out the time axis of a data frame for
 modification

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 6690844..b0085df 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -539,7 +539,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         Time points of the data
         """
-        return self._time_points.values
+        return self._time_points.values.copy()
 
     def timeseries(self, meta: Optional[List[str]] = None) -> pd.DataFrame:
         """
-- 
2.43.0


From d88311da75affd78b10f37d4b330e3953c367602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 21/43] fix: include all levels of the region hierarchy in the
 data frame

Timeseries of regions more than one level below the root were dropped.
---
 openscm/scmdataframe/__init__.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index f032309..629c796 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from ..core.parameters import ParameterInfo, ParameterType, _Parameter
 from ..core.parameterset import ParameterSet
+from ..core.regions import _Region
 from .base import ScmDataFrameBase, df_append  # noqa: F401
 
 
@@ -108,17 +109,13 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     data = []
 
     root_params: Dict[Tuple, ParameterInfo] = {}
-    for (
-        _,
-        value,
-    ) in parameterset._root._parameters.items():  # pylint: disable=protected-access
-        root_params.update(walk_parameters(value))
-    for (
-        _,
-        r,
-    ) in parameterset._root._children.items():  # pylint: disable=protected-access
-        for _, value in r._parameters.items():  # pylint: disable=protected-access
+    def walk_regions(region: _Region) -> None:
+        for value in region._parameters.values():  # pylint: disable=protected-access
             root_params.update(walk_parameters(value))
+        for child in region._children.values():  # pylint: disable=protected-access
+            walk_regions(child)
+
+    walk_regions(parameterset._root)  # pylint: disable=protected-access
 
     for (param_name, region), p_info in root_params.items():
         # All meta values are stored as generic value (AKA no units)
-- 
2.43.0


From 2a9f2a35f4eafb6ed7b079c96a7fa1541de201f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 22/43] fix: keep metadata values of -999 when appending data
 frames

---
 openscm/scmdataframe/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index b0085df..e081897 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1497,6 +1497,9 @@ def df_append(
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
     na_fill_value = -999
+    while any((df.meta == na_fill_value).any().any() for df in joint_dfs):
+        na_fill_value -= 1  # do not mistake actual metadata for missing metadata
+
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
-- 
2.43.0


From 188bccec11a54a915cc1110f78ed681863c3f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 23/43] fix: accept several ranges in month and day filters

Ranges were deleted from the list given by the caller (which was changed by
this), and with more than one range the wrong elements or none were deleted.
---
 openscm/scmdataframe/filters.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 32ea694..f8c64af 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -346,7 +346,7 @@ def time_match(
         increasing integers (i.e. "Nov-Feb" will not work, one must use ["Nov-Dec",
         "Jan-Feb"] instead)
     """
-    times_list = [times] if isinstance(times, (int, str)) else times
+    times_list = [times] if isinstance(times, (int, str)) else list(times)
 
     def conv_strs(strs_to_convert, conv_codes, name):
         res = None
@@ -368,9 +368,9 @@ def time_match(
         return res
 
     if isinstance(times_list[0], str):
-        to_delete = []
+        single_times = []
         to_append = []  # type: List
-        for i, timeset in enumerate(times_list):
+        for timeset in times_list:
             # ignore type as already established we're looking at strings
             if "-" in timeset:  # type: ignore
                 ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
@@ -383,12 +383,10 @@ def time_match(
 
                 # + 1 to include last month
                 to_append += [j for j in range(ints[0], ints[1] + 1)]
-                to_delete.append(i)
+            else:
+                single_times.append(timeset)
 
-        for i in to_delete:
-            del times_list[i]
-
-        times_list = conv_strs(times_list, conv_codes, name)
+        times_list = conv_strs(single_times, conv_codes, name)
         times_list += to_append
 
     return is_in(data, times_list)
-- 
2.43.0


From 76cc99718d0199f40fc07160b7b872e4c93d3c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 24/43] fix: do not change the index of data passed to a new
 data frame

---
 openscm/scmdataframe/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index e081897..274e386 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -231,8 +231,7 @@ def _from_ts(
     ValueError
         Not all required columns are present
     """
-    if not isinstance(df, pd.DataFrame):
-        df = pd.DataFrame(df)
+    df = pd.DataFrame(df).copy()
     if index is not None:
         if isinstance(index, np.ndarray):
             df.index = TimePoints(index).to_index()
@@ -244,7 +243,7 @@ def _from_ts(
         missing = list(set(REQUIRED_COLS) - set(columns.keys()))
         raise ValueError("missing required columns `{}`!".format(missing))
 
-    df.index.name = "time"
+    df.index = df.index.rename("time")
 
     num_ts = len(df.columns)
     for c_name, col in columns.items():
-- 
2.43.0


From 941f87cc6a02cbbf0efdc5193705581466b98e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 25/43] fix: guess parameter types missing for some timeseries
 only

Timeseries without a parameter type lost their values when interpolating a data
frame in which other timeseries (appended before) have one.
---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 274e386..70787d4 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -988,7 +988,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             res._sort_meta_cols()
 
         def guess(r):
-            if r.parameter_type is None:
+            if pd.isnull(r.parameter_type):
                 warnings.warn(
                     "`parameter_type` metadata not available. Guessing parameter types where unavailable."
                 )
-- 
2.43.0


From e885b10ae81dcbc267ddf4be586dc614f8c4cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 26/43] fix: parse dates independently of the current date

Time points given without a day (e.g. 2010-05) were taken as today's day of the
given month.
---
 openscm/core/time.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index ea21e03..38ad729 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -107,8 +107,26 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
     )
 
 
+def parse_datetime_string(inp: str) -> datetime.datetime:
+    """
+    Parse a string to a date and time, independent of when this is done.
+
+    Parameters
+    ----------
+    inp
+        String to parse. Anything not given, e.g. the day, is taken from the first of
+        January 1970, midnight.
+
+    Returns
+    -------
+    datetime.datetime
+        Parsed date and time
+    """
+    return parser.parse(inp, default=datetime.datetime(1970, 1, 1))
+
+
 _ufunc_float_year_to_datetime = np.frompyfunc(_float_year_to_datetime, 1, 1)
-_ufunc_str_to_datetime = np.frompyfunc(parser.parse, 1, 1)
+_ufunc_str_to_datetime = np.frompyfunc(parse_datetime_string, 1, 1)
 
 
 def _parse_datetime(inp: np.ndarray) -> np.ndarray:
-- 
2.43.0


From faa65b6446451f8ae21293852714fced103da6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 27/43] fix: parse dates for data frames of pyam independently
 of the current date

---
 openscm/scmdataframe/pyam_compat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/pyam_compat.py b/openscm/scmdataframe/pyam_compat.py
index 3c17c66..25d5e78 100644
--- a/openscm/scmdataframe/pyam_compat.py
+++ b/openscm/scmdataframe/pyam_compat.py
@@ -4,7 +4,7 @@ handled.
 """
 import datetime
 
-from dateutil import parser
+from ..core.time import parse_datetime_string
 
 try:
     from pyam import IamDataFrame
@@ -28,7 +28,7 @@ try:
 
                 def convert_str_to_datetime(inp):
                     try:
-                        return parser.parse(inp)
+                        return parse_datetime_string(inp)
                     except ValueError:
                         return inp
 
-- 
2.43.0


From 3dab140ca1241daff8e1746f1fc0e4a15ec8b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 28/43] fix: allow time points of different resolution

Time points were compared by their numbers, e.g. days and seconds since 1970, so
that views with time points of different resolution read wrong values.
---
 openscm/core/time.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 38ad729..76ef98c 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -306,6 +306,27 @@ def create_time_points(  # TODO: replace by simpler function
     )
 
 
+def _time_points_to_numbers(time_points: np.ndarray) -> np.ndarray:
+    """
+    Convert time points to numbers, seconds since 1970 for :class:`np.datetime64` (in
+    whatever resolution).
+
+    Parameters
+    ----------
+    time_points
+        Time points
+
+    Returns
+    -------
+    :class:`np.ndarray` of :class:`np.int64`
+        Converted time points
+    """
+    time_points = np.array(time_points)
+    if time_points.dtype.kind == "M":
+        time_points = time_points.astype("datetime64[s]")
+    return time_points.astype(_TARGET_TYPE, copy=True)
+
+
 def _calc_interval_averages(
     continuous_representation: Callable[[float], float], target_intervals: np.ndarray
 ) -> np.ndarray:
@@ -434,8 +455,8 @@ class TimeseriesConverter:
         InsufficientDataError
             Timeseries too short to extrapolate
         """
-        self._source = np.array(source_time_points).astype(_TARGET_TYPE, copy=True)
-        self._target = np.array(target_time_points).astype(_TARGET_TYPE, copy=True)
+        self._source = _time_points_to_numbers(source_time_points)
+        self._target = _time_points_to_numbers(target_time_points)
         self._timeseries_type = timeseries_type
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
-- 
2.43.0


From 45c3711f6443a447e2d7d8535f6591c5313ada6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 29/43] fix: keep slices of timeseries up to date when the type
 of values changes

A slice handed out while integers were stored kept its old values once
values of another type had been read or written.
---
 openscm/core/views.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index c07b71e..d4b3dbf 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -88,7 +88,12 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     _create_comparison_method = _create_arithmetic_method
 
-    def __init__(self, input_array: np.ndarray, parameter_view: "TimeseriesView"):
+    def __init__(
+        self,
+        input_array: np.ndarray,
+        parameter_view: "TimeseriesView",
+        slice_of: Optional[Tuple["_Timeseries", slice]] = None,
+    ):
         """
         Initialize.
 
@@ -98,19 +103,30 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             Array to handle
         parameter_view
             :class:`TimeseriesView` this timeseries belongs to
+        slice_of
+            Timeseries this is a slice of and the slice, if any
         """
         self._ndarray = np.asarray(input_array)
         self._parameter_view = parameter_view
+        self._slice_of = slice_of
 
     def __read__(self):
         self._parameter_view._read()
+        if self._slice_of is not None:
+            # the data might have been replaced by data of another type
+            timeseries, item = self._slice_of
+            self._ndarray = timeseries.__read__()._ndarray[item]
         return self
 
     def __getitem__(self, item):
         self.__read__()
         result = self._ndarray[item]
         if not isinstance(item, int):
-            result = type(self)(result, self._parameter_view)
+            result = type(self)(
+                result,
+                self._parameter_view,
+                (self, item) if isinstance(item, slice) else None,
+            )
         return result
 
     def __setitem__(self, key, val):
-- 
2.43.0


From a48b182dc21b51f8a1e63fe4d84fd07f7824fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 30/43] fix: do not use uninitialised memory for the results of
 DICE

---
 openscm/adapters/dice.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 1fbb530..d0f3d09 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -235,18 +235,18 @@ class DICE(Adapter):
         v.b32 = v.b23.value * v.mueq.value / v.mleq.value
         v.b33 = 1 - v.b32
 
-        v.mat.values = np.empty(self._timestep_count)
+        v.mat.values = np.zeros(self._timestep_count)
         v.mat.values[0] = v.mat0.value
-        v.ml.values = np.empty(self._timestep_count)
+        v.ml.values = np.zeros(self._timestep_count)
         v.ml.values[0] = v.ml0.value
-        v.mu.values = np.empty(self._timestep_count)
+        v.mu.values = np.zeros(self._timestep_count)
         v.mu.values[0] = v.mu0.value
-        v.tatm.values = np.empty(self._timestep_count)
+        v.tatm.values = np.zeros(self._timestep_count)
         v.tatm.values[0] = v.tatm0.value
-        v.tocean.values = np.empty(self._timestep_count)
+        v.tocean.values = np.zeros(self._timestep_count)
         v.tocean.values[0] = v.tocean0.value
 
-        v.forc.values = np.empty(self._timestep_count)
+        v.forc.values = np.zeros(self._timestep_count)
         v.forc.values[0] = (
             v.fco22x.value * log2(v.mat0.value / v.mateq.value) + v.fex0.value
         )
-- 
2.43.0


From e0ce409d2ccdc007e8e66ac46c3b0839c198731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 31/43] fix: do not truncate times when interpolating the
 forcing of other greenhouse gases in DICE

---
 openscm/adapters/dice.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index d0f3d09..9262680 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -338,9 +338,12 @@ class DICE(Adapter):
         ):
             forcoth = v.fex1.value
         else:
+            # Divide first: the product of a float and a time delta is truncated
             forcoth = v.fex0.value + (v.fex1.value - v.fex0.value) * (
-                v.period_length.value * self._timestep
-            ) / (v.forcoth_saturation_time.value - v.start_time.value)
+                v.period_length.value
+                * self._timestep
+                / (v.forcoth_saturation_time.value - v.start_time.value)
+            )
 
         # Original: "Increase in radiative forcing (watts per m2 from 1900)"
         v.forc.values[self._timestep] = (
-- 
2.43.0


From 4f74b703b8a2ea21ca2ff23e98b3cc9ee8a91f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 32/43] fix: never count parameters as written before they have
 data

---
 openscm/core/parameters.py | 8 +++++++-
 openscm/core/views.py      | 5 +++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 8169e22..4eadf9c 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -3,7 +3,7 @@ Parameter handling.
 """
 
 from enum import Enum
-from typing import TYPE_CHECKING, Dict, Optional, Sequence, Tuple, Union
+from typing import TYPE_CHECKING, Any, Dict, Optional, Sequence, Tuple, Union
 
 import numpy as np
 
@@ -314,6 +314,7 @@ class _Parameter:
         parameter_type: ParameterType,
         unit: Optional[str] = None,
         time_points: Optional[np.ndarray] = None,
+        data: Any = None,
     ) -> None:
         """
         Tell parameter that its data will be written to.
@@ -326,6 +327,9 @@ class _Parameter:
             Unit to be written; only for scalar and timeseries parameters
         time_points
             Timeseries time points; only for timeseries parameters
+        data
+            First data written, if already known: stored before the parameter counts as
+            written, such that it never does without data (even if interrupted)
 
         Raises
         ------
@@ -335,6 +339,8 @@ class _Parameter:
         if self.children:
             raise ParameterReadonlyError
         self.attempt_read(parameter_type, unit, time_points)
+        if data is not None:
+            self.data = data
         self.has_been_written_to = True
 
     def remove_if_unused(self) -> None:
diff --git a/openscm/core/views.py b/openscm/core/views.py
index d4b3dbf..9dc8769 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -253,7 +253,7 @@ class ScalarView(ParameterInfo):
         data = self._unit_converter.convert_to(v)
         if not self._writable:
             self._parameter.attempt_write(
-                ParameterType.SCALAR, self._unit_converter.target
+                ParameterType.SCALAR, self._unit_converter.target, data=data
             )
             self._writable = True
         self._parameter.data = data
@@ -413,6 +413,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                     self._timeseries_converter._timeseries_type,
                     self._unit_converter.target,
                     self._timeseries_converter._target,
+                    data=data,
                 )
                 self._writable = True
             self._parameter.data = data
@@ -583,7 +584,7 @@ class GenericView(ParameterInfo):
         Value of generic parameter
         """
         if not self._writable:
-            self._parameter.attempt_write(ParameterType.GENERIC)
+            self._parameter.attempt_write(ParameterType.GENERIC, data=v)
             self._writable = True
         self._parameter.data = v
         self._parameter.version += 1
-- 
2.43.0


From d9f6fc5911388092e852b20183927dfec3d08713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 33/43] fix: list all available contexts whether or not they
 have been used before

---
 openscm/core/units.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 2564f6d..d37bf22 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -275,10 +275,16 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         Overload pint's :func:`enable_contexts` to load contexts once (the first time
         they are used) to avoid (unnecessary) file operations on import.
         """
+        self.ensure_contexts_loaded()
+        super().enable_contexts(*names_or_contexts, **kwargs)
+
+    def ensure_contexts_loaded(self) -> None:
+        """
+        Load contexts unless already done.
+        """
         if not self._contexts_loaded:
             self._load_contexts()
         self._contexts_loaded = True
-        super().enable_contexts(*names_or_contexts, **kwargs)
 
     def _add_mass_emissions_joint_version(self, symbol: str) -> None:
         """
@@ -571,7 +577,11 @@ class UnitConverter:
         """
         Available contexts for unit conversions
         """
-        return list(_unit_registry._contexts.keys())  # pylint: disable=protected-access
+        with _unit_registry_lock:
+            _unit_registry.ensure_contexts_loaded()
+            return list(
+                _unit_registry._contexts.keys()  # pylint: disable=protected-access
+            )
 
     @property
     def unit_registry(self) -> ScmUnitRegistry:
-- 
2.43.0


From 054d5347c8920dff7b095e62616a10bb94bfadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:19 +0000
Subject: [PATCH 34/43] fix: keep metadata aligned with timeseries when setting
 metadata by index

---
 openscm/scmdataframe/base.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 70787d4..2d37a65 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -894,8 +894,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Raises
         ------
         ValueError
-            No name can be determined from inputs or index cannot be coerced to
-            :class:`pd.MultiIndex`
+            No name can be determined from inputs, index cannot be coerced to
+            :class:`pd.MultiIndex`, is not unique or has entries without timeseries
         """
         # check that name is valid and doesn't conflict with data columns
         # mypy doesn't recognise if
@@ -925,17 +925,26 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         meta = pd.Series(meta, index=index, name=name)
 
-        df = self.meta.reset_index()
+        if meta.index.has_duplicates:
+            raise ValueError("index is not unique")
         if all(index.names):
-            df = df.set_index(index.names)
-        self._meta = (
-            pd.merge(df, meta, left_index=True, right_index=True, how="outer")
-            .reset_index()
-            .set_index("index")
-        )
-        # Edge case of using a different index on meta
-        if "level_0" in self._meta:
-            self._meta.drop("level_0", axis=1, inplace=True)
+            if isinstance(index, pd.MultiIndex):
+                keys = pd.MultiIndex.from_frame(self._meta[list(index.names)])
+            else:
+                keys = pd.Index(self._meta[index.name])
+        else:
+            keys = self._meta.index
+        positions = meta.index.get_indexer(keys)
+        unknown = meta.index.delete(positions[positions >= 0])
+        if len(unknown) > 0:
+            raise ValueError("index has entries without timeseries")
+
+        # keep the order of the timeseries as it has to match the one of the data
+        column = meta.reindex(keys)
+        column.index = self._meta.index
+        if name in self._meta:
+            column = column.where(positions >= 0, self._meta[name])
+        self._meta[name] = column
         self._sort_meta_cols()
 
     def interpolate(  # pylint: disable=too-many-locals
-- 
2.43.0


From f5f4bbee0773564577cbe508e95f5dc18e5ae12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:19 +0000
Subject: [PATCH 35/43] fix: make the order of timeseries independent of the
 hash seed

---
 openscm/scmdataframe/base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 2d37a65..fc4cefa 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -169,7 +169,9 @@ def _format_long_data(df):
         msg = "invalid time format, must have either `year` or `time`!"
         raise ValueError(msg)
 
-    extra_cols = list(set(cols) - set(REQUIRED_COLS + [time_col, "value"]))
+    extra_cols = [
+        c for c in df.columns if c not in REQUIRED_COLS + [time_col, "value"]
+    ]
     df = df.pivot_table(columns=REQUIRED_COLS + extra_cols, index=time_col).value
     meta = df.columns.to_frame(index=None)
     df.columns = meta.index
@@ -1212,7 +1214,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         cols = [cols] if isinstance(cols, str) else cols
         ts = self.timeseries()
-        group_cols = list(set(ts.index.names) - set(cols))
+        group_cols = [c for c in ts.index.names if c not in cols]
         grouper = ts.groupby(group_cols)
 
         if operation == "median":
@@ -1501,7 +1503,7 @@ def df_append(
     for df in joint_dfs:
         joint_meta += df.meta.columns.tolist()
 
-    joint_meta_set = set(joint_meta)
+    joint_meta = list(dict.fromkeys(joint_meta))  # unique, in reproducible order
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
     na_fill_value = -999
@@ -1509,21 +1511,21 @@ def df_append(
         na_fill_value -= 1  # do not mistake actual metadata for missing metadata
 
     for i, _ in enumerate(joint_dfs):
-        for col in joint_meta_set:
+        for col in joint_meta:
             if col not in joint_dfs[i].meta:
                 joint_dfs[i].set_meta(na_fill_value, name=col)
 
     # we want to put data into timeseries format and pass into format_ts instead of
     # _format_data
     data = pd.concat(
-        [d.timeseries().reorder_levels(joint_meta_set) for d in joint_dfs], sort=False
+        [d.timeseries().reorder_levels(joint_meta) for d in joint_dfs], sort=False
     )
 
     data = data.reset_index()
-    data[list(joint_meta_set)] = data[joint_meta_set].replace(
+    data[joint_meta] = data[joint_meta].replace(
         to_replace=np.nan, value=na_fill_value
     )
-    data = data.set_index(list(joint_meta_set))
+    data = data.set_index(joint_meta)
     if duplicate_msg and data.index.duplicated().any():
         warn_handle_res = _handle_potential_duplicates_in_append(data, duplicate_msg)
         if warn_handle_res is not None:
-- 
2.43.0


From 7bb6d18f760933e205635ea2971d8a14ccd839ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:38 +0000
Subject: [PATCH 36/43] fix: allow to filter data frames which are empty

---
 openscm/core/time.py            | 12 +++++++-----
 openscm/scmdataframe/base.py    |  4 ++--
 openscm/scmdataframe/filters.py | 11 +++++++----
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 76ef98c..a9088b4 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -219,7 +219,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Year of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "year")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "year")
 
     def months(self) -> np.ndarray:
         """
@@ -230,7 +230,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Month of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "month")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "month")
 
     def days(self) -> np.ndarray:
         """
@@ -241,7 +241,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "day")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "day")
 
     def hours(self) -> np.ndarray:
         """
@@ -252,7 +252,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Hour of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "hour")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "hour")
 
     def weekdays(self) -> np.ndarray:
         """
@@ -263,7 +263,9 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of the week of each time point
         """
-        return np.vectorize(datetime.datetime.weekday)(self._values.astype(object))
+        return np.vectorize(datetime.datetime.weekday, otypes=[int])(
+            self._values.astype(object)
+        )
 
 
 def create_time_points(  # TODO: replace by simpler function
diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index fc4cefa..5bbb94c 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -714,8 +714,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Filtering cannot be performed on requested column
         """
         regexp = filters.pop("regexp", False)
-        keep_ts = np.array([True] * len(self._data))
-        keep_meta = np.array([True] * len(self.meta))
+        keep_ts = np.array([True] * len(self._data), dtype=bool)
+        keep_meta = np.array([True] * len(self.meta), dtype=bool)
 
         # filter by columns and list of values
         for col, values in filters.items():
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index f8c64af..3162716 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -34,7 +34,7 @@ def is_in(vals: List, items: List) -> np.ndarray:
         Array of the same length as :obj:`vals` where the element is ``True`` if the
         corresponding element of :obj:`vals` is in :obj:`items` and False otherwise
     """
-    return np.array([v in items for v in vals])
+    return np.array([v in items for v in vals], dtype=bool)
 
 
 def find_depth(
@@ -101,7 +101,7 @@ def find_depth(
     def apply_test(val):
         return test(len(pipe.findall(val.replace(regexp, ""))))
 
-    return np.array([b for b in [apply_test(m) for m in meta_col]])
+    return np.array([b for b in [apply_test(m) for m in meta_col]], dtype=bool)
 
 
 def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
@@ -151,7 +151,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
         Filtering is performed on a string metadata column which contains
         :class:`np.nan` and :obj:`has_nan` is ``False``
     """
-    matches = np.array([False] * len(meta_col))
+    matches = np.array([False] * len(meta_col), dtype=bool)
     _values = (
         [values]
         if not isinstance(values, Iterable) or isinstance(values, str)
@@ -164,7 +164,10 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     _meta_col = meta_col.copy()
     if has_nan:
         _meta_col.loc[
-            [np.isnan(i) if not isinstance(i, str) else False for i in _meta_col]
+            np.array(
+                [np.isnan(i) if not isinstance(i, str) else False for i in _meta_col],
+                dtype=bool,
+            )
         ] = ""
 
     for s in _values:
-- 
2.43.0


From efaaaafe345905f44a243943271c06eb68f27ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:42 +0000
Subject: [PATCH 37/43] fix: match all characters of filters literally except
 for wildcards

---
 openscm/scmdataframe/filters.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 3162716..fa23b8a 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -172,16 +172,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = (
-                str(s)
-                .replace("|", "\\|")
-                .replace(".", r"\.")  # `.` has to be replaced before `*`
-                .replace("*", ".*")
-                .replace("+", r"\+")
-                .replace("(", r"\(")
-                .replace(")", r"\)")
-                .replace("$", "\\$")
-            ) + "$"
+            _regexp = re.escape(str(s)).replace(r"\*", ".*") + "$"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From ed20ef04d49400eee48d50a38824c5085ad222ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 38/43] fix: keep values next to missing ones when the time
 grid does not change

---
 openscm/core/time.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index a9088b4..9177568 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -620,6 +620,12 @@ class TimeseriesConverter:
         np.ndarray
             Converted time period average data for timeseries :obj:`values`
         """
+        if np.array_equal(source_time_points, target_time_points) and (
+            np.ndim(values) == 1 and not np.iscomplexobj(values)
+        ):
+            # nothing to interpolate; keeps values next to missing ones
+            return np.array(values, dtype=float)
+
         if self._timeseries_type == ParameterType.AVERAGE_TIMESERIES:
             return _calc_interval_averages(
                 self._calc_continuous_representation(
-- 
2.43.0


From 7b2df102ae40c6239ea1693a0f11a55a9516d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 39/43] fix: understand units containing parentheses in
 metadata when converting to a parameter set

---
 openscm/scmdataframe/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 5bbb94c..b66cfda 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -524,11 +524,12 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                 timeseries_type=timeseries_type,
             ).values = vals.values
 
-        unit_regexp = re.compile(r".*\(.*\)")
+        # last pair of parentheses, which may contain further ones one level deep
+        unit_regexp = re.compile(r"(.*)\(((?:[^()]|\([^()]*\))*)\)\s*$")
         for k, v in meta_values.iteritems():
-            if unit_regexp.match(k):
-                para_name = k.split("(")[0].strip()
-                para_unit = k.split("(")[1].split(")")[0].strip()
+            match = unit_regexp.match(k)
+            if match:
+                para_name, para_unit = (part.strip() for part in match.groups())
                 parameterset.scalar(para_name, para_unit).value = v
             else:
                 parameterset.generic(k).value = v
-- 
2.43.0


From 1f1eccc6a9f6914f043b909eebeb85dc914c99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:36 +0000
Subject: [PATCH 40/43] fix: refuse to convert several timeseries of one
 variable and region to a parameter set

---
 openscm/scmdataframe/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index b66cfda..b36f84f 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -478,8 +478,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Raises
         ------
         ValueError
-            Not all timeseries have the same metadata or :obj:`climate_model` is given
-            and does not equal "unspecified"
+            Not all timeseries have the same metadata, several timeseries (in different
+            units or of different types) are of the same variable and region, or
+            :obj:`climate_model` is given and does not equal "unspecified"
         """
         # pylint: disable=too-many-locals
 
@@ -488,6 +489,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         ).drop_duplicates()
         if len(meta_values) > 1:
             raise ValueError("Not all timeseries have identical metadata")
+        if self._meta.duplicated(["variable", "region"]).any():
+            raise ValueError("Several timeseries for the same variable and region")
         meta_values = meta_values.squeeze()
 
         if meta_values.get("climate_model", "unspecified") != "unspecified":
-- 
2.43.0


From f3ddd10c42feae7127031ccc773052e1e09455db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:43 +0000
Subject: [PATCH 41/43] fix: parse dates independently of the current year and
 the local time zone

---
 openscm/core/time.py         | 35 +++++++++++++++++++++++++++++++----
 openscm/scmdataframe/base.py |  4 ++--
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 9177568..6b3e7c5 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -10,13 +10,13 @@ dedicated `Jupyter Notebook
 
 import datetime
 from enum import Enum
-from typing import Any, Callable, Dict, Sequence, Union
+from typing import Any, Callable, Dict, Optional, Sequence, Union
 
 import numpy as np
 import pandas as pd
 import scipy.integrate as integrate
 import scipy.interpolate as interpolate
-from dateutil import parser
+from dateutil import parser, tz
 
 from ..errors import InsufficientDataError
 from .parameters import ParameterType
@@ -107,9 +107,34 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
     )
 
 
+class _ParserInfo(parser.parserinfo):
+    """
+    Information for parsing dates which does not depend on the current date.
+    """
+
+    def convertyear(self, year: int, century_specified: bool = False) -> int:
+        """
+        Convert two-digit years (in the same way as :func:`time.strptime`).
+        """
+        if year < 100 and not century_specified:
+            return year + (1900 if year >= 69 else 2000)
+        return year
+
+
+def _get_timezone(
+    name: Optional[str], offset: Optional[int]
+) -> Optional[datetime.tzinfo]:
+    # without an offset the name only has a meaning in the local time zone
+    return None if offset is None else tz.tzoffset(name, offset)
+
+
+_date_parser = parser.parser(_ParserInfo())
+
+
 def parse_datetime_string(inp: str) -> datetime.datetime:
     """
-    Parse a string to a date and time, independent of when this is done.
+    Parse a string to a date and time, independent of when and in which time zone this
+    is done.
 
     Parameters
     ----------
@@ -122,7 +147,9 @@ def parse_datetime_string(inp: str) -> datetime.datetime:
     datetime.datetime
         Parsed date and time
     """
-    return parser.parse(inp, default=datetime.datetime(1970, 1, 1))
+    return _date_parser.parse(
+        inp, default=datetime.datetime(1970, 1, 1), tzinfos=_get_timezone
+    )
 
 
 _ufunc_float_year_to_datetime = np.frompyfunc(_float_year_to_datetime, 1, 1)
diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index b36f84f..6fe781f 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -13,7 +13,6 @@ from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
 import numpy as np
 import pandas as pd
-from dateutil import parser
 
 from ..core.parameters import HIERARCHY_SEPARATOR
 from ..core.parameterset import ParameterSet
@@ -23,6 +22,7 @@ from ..core.time import (
     ParameterType,
     TimePoints,
     TimeseriesConverter,
+    parse_datetime_string,
 )
 from ..core.units import UnitConverter
 from .filters import (
@@ -199,7 +199,7 @@ def _format_wide_data(df):
                         datetime.datetime.strptime(i, "%Y-%m-%d %H:%M:%S")
                     except ValueError:
                         # this is super slow so avoid if possible
-                        parser.parse(str(i))  # if no ValueError, this is datetime
+                        parse_datetime_string(str(i))  # if no ValueError, this is datetime
                     time_cols = True
                 except ValueError:
                     extra_cols.append(i)  # some other string
-- 
2.43.0


From a26941700419ef0e9d619d89228b1a2e1c052f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:18 +0000
Subject: [PATCH 42/43] fix: take the coefficients and settings of a DICE run
 consistently at its reset

Changing b12, b23, the rounding convention, the start time or the period length between
two steps affected only some of the places where they are used.
---
 openscm/adapters/dice.py | 48 +++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 9262680..06c2880 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -116,6 +116,11 @@ class DICE(Adapter):
                 "tatm",
                 "tocean",
                 "forc",
+                "co2_to_c",
+                "run_start",
+                "period",
+                "m12",
+                "m23",
                 "b11",
                 "b21",
                 "b22",
@@ -151,22 +156,27 @@ class DICE(Adapter):
     def _initialize_run_parameters(self) -> None:
         self._timestep = 0
 
+        # These determine the views and thus only change together with them
+        self._values.run_start = self._values.start_time.value
+        self._values.period = self._values.period_length.value
+        self._values.co2_to_c = 3.666 if self._values.original_rounding.value else 1
+
         self._timestep_count = (
             int(
-                (self._values.stop_time.value - self._values.start_time.value)
-                / self._values.period_length.value
+                (self._values.stop_time.value - self._values.run_start)
+                / self._values.period
             )
             + 1  # include self._stop_time
         )
         time_points = create_time_points(
-            self._values.start_time.value,
-            self._values.period_length.value,
+            self._values.run_start,
+            self._values.period,
             self._timestep_count,
             ParameterType.POINT_TIMESERIES,
         )
         time_points_for_averages = create_time_points(
-            self._values.start_time.value,
-            self._values.period_length.value,
+            self._values.run_start,
+            self._values.period,
             self._timestep_count,
             ParameterType.AVERAGE_TIMESERIES,
         )
@@ -229,10 +239,12 @@ class DICE(Adapter):
         v = self._values  # just for convenience
 
         # Original: "Carbon cycle transition matrix"
-        v.b11 = 1 - v.b12.value
-        v.b21 = v.b12.value * v.mateq.value / v.mueq.value
-        v.b22 = 1 - v.b21 - v.b23.value
-        v.b32 = v.b23.value * v.mueq.value / v.mleq.value
+        v.m12 = v.b12.value
+        v.m23 = v.b23.value
+        v.b11 = 1 - v.m12
+        v.b21 = v.m12 * v.mateq.value / v.mueq.value
+        v.b22 = 1 - v.b21 - v.m23
+        v.b32 = v.m23 * v.mueq.value / v.mleq.value
         v.b33 = 1 - v.b32
 
         v.mat.values = np.zeros(self._timestep_count)
@@ -289,7 +301,7 @@ class DICE(Adapter):
         Calculate a single time step.
         """
         self._timestep += 1
-        self._current_time += self._values.period_length.value
+        self._current_time += self._values.period
         v = self._values  # just for convenience
 
         # Original: "Carbon concentration increase in atmosphere (GtC from 1750)"
@@ -298,21 +310,21 @@ class DICE(Adapter):
             v.mat.values[self._timestep - 1] * v.b11
             + v.mu.values[self._timestep - 1] * v.b21
             + v.E.values[self._timestep - 1]
-            * float(v.period_length.value / YEAR)
-            / (3.666 if v.original_rounding.value else 1),
+            * float(v.period / YEAR)
+            / v.co2_to_c,
         )
 
         # Original: "Carbon concentration increase in lower oceans (GtC from 1750)"
         v.ml.values[self._timestep] = max(
             v.ml_lower.value,
             v.ml.values[self._timestep - 1] * v.b33
-            + v.mu.values[self._timestep - 1] * v.b23.value,
+            + v.mu.values[self._timestep - 1] * v.m23,
         )
 
         # Original: "Carbon concentration increase in shallow oceans (GtC from 1750)"
         v.mu.values[self._timestep] = max(
             v.mu_lower.value,
-            v.mat.values[self._timestep - 1] * v.b12.value
+            v.mat.values[self._timestep - 1] * v.m12
             + v.mu.values[self._timestep - 1] * v.b22
             + v.ml.values[self._timestep - 1] * v.b32,
         )
@@ -333,16 +345,16 @@ class DICE(Adapter):
 
         # Original: "Exogenous forcing for other greenhouse gases"
         if (
-            v.start_time.value + v.period_length.value * self._timestep
+            v.run_start + v.period * self._timestep
             >= v.forcoth_saturation_time.value
         ):
             forcoth = v.fex1.value
         else:
             # Divide first: the product of a float and a time delta is truncated
             forcoth = v.fex0.value + (v.fex1.value - v.fex0.value) * (
-                v.period_length.value
+                v.period
                 * self._timestep
-                / (v.forcoth_saturation_time.value - v.start_time.value)
+                / (v.forcoth_saturation_time.value - v.run_start)
             )
 
         # Original: "Increase in radiative forcing (watts per m2 from 1900)"
-- 
2.43.0


From c73a59ec48a8ec329eb9cfef469c3045e7118d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:05 +0000
Subject: [PATCH 43/43] fix: filter by level alone works with regexp=True

---
 openscm/scmdataframe/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 6fe781f..c72d723 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -760,9 +760,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                 if "variable" not in filters.keys():
                     keep_meta &= pattern_match(
                         self.meta["variable"],
-                        "*",
+                        "*",  # matches everything, whether or not regexp is set
                         values,
-                        regexp=regexp,
                         has_nan=has_nan,
                         separator=self.data_hierarchy_separator,
                     ).values
-- 
2.43.0

