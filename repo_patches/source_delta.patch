From 04252db83dd152b739c8ddb942af5c2e1c388b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:05 +0000
Subject: [PATCH 01/47] fix: adding zero rates with different regularity no
 longer gives nan regularity

---
 src/libecalc/common/utils/rates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 3dd2b56..7f9c3b6 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -775,7 +775,10 @@ class TimeSeriesRate(TimeSeries[float]):
                     periods=self.periods,
                     values=elementwise_sum(self.values, other.values).tolist(),
                     unit=self.unit,
-                    regularity=(sum_calendar_day / sum_stream_day).tolist(),
+                    # No stream day rate means there is nothing to convert, avoid nan from dividing by zero
+                    regularity=np.divide(
+                        sum_calendar_day, sum_stream_day, out=np.zeros_like(sum_stream_day), where=sum_stream_day != 0.0
+                    ).tolist(),
                     rate_type=self.rate_type,
                 )
         else:
-- 
2.43.0


From bbd44a71bfd32b7bca8c8490b3fa48b4cf1aea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:10 +0000
Subject: [PATCH 02/47] fix: forward-fill resampling uses the value in force,
 also when it starts between the new dates

---
 src/libecalc/common/utils/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 7f9c3b6..b7a357b 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -199,7 +199,7 @@ class TimeSeries[TimeSeriesValue](BaseModel, ABC):
             self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date
         )
         new_time_steps = new_periods.start_dates
-        ds_resampled = ds.reindex(new_time_steps).ffill()
+        ds_resampled = ds.reindex(new_time_steps, method="ffill").ffill()
 
         return self.__class__(
             periods=new_periods,
-- 
2.43.0


From 8e7097db22ffef778d35235571670f9906464663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:18 +0000
Subject: [PATCH 03/47] fix: reject expressions with a missing or unsupported
 operator instead of dropping operands

---
 src/libecalc/expression/expression_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 5c0f03a..7aab605 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -123,6 +123,7 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
     stack: list[Node] = []
     for token in postfix_tokens:
         if token.tag == TokenTag.operator:
+            get_operator(token)  # raises ValueError for operators that are not supported
             try:
                 right = stack.pop()
             except IndexError as e:
@@ -136,6 +137,9 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
         else:
             stack.append(Node(token=token))
 
+    if len(stack) != 1:
+        raise ValueError("An operator is missing between operands" if stack else "Expression is empty")
+
     return stack.pop()
 
 
-- 
2.43.0


From 165256598069bc182c447ca9cf958bffdfa1441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:21 +0000
Subject: [PATCH 04/47] fix: subset of variables for a period that extends
 beyond, or lies outside, the time vector

---
 src/libecalc/common/time_utils.py | 2 +-
 src/libecalc/common/variables.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/common/time_utils.py b/src/libecalc/common/time_utils.py
index fa39865..ac75498 100644
--- a/src/libecalc/common/time_utils.py
+++ b/src/libecalc/common/time_utils.py
@@ -173,7 +173,7 @@ class Periods:
 
     @property
     def all_dates(self) -> list[datetime]:
-        return self.start_dates + [self.end_dates[-1]]
+        return self.start_dates + self.end_dates[-1:]
 
     @property
     def start_dates(self) -> list[datetime]:
diff --git a/src/libecalc/common/variables.py b/src/libecalc/common/variables.py
index 77ee09a..02b88e2 100644
--- a/src/libecalc/common/variables.py
+++ b/src/libecalc/common/variables.py
@@ -77,8 +77,8 @@ class VariablesMap:
 
         # Check if the start and end of the period of interest are equal to dates in the global time vector
         if period_start in self._time_vector and period_end in self._time_vector:
-            start_index = self._time_vector.index(period.start)
-            end_index = self._time_vector.index(period.end)
+            start_index = self._time_vector.index(period_start)
+            end_index = self._time_vector.index(period_end)
         else:
             raise ProgrammingError(
                 "Trying to access a period that does not exist in the global time vector. Please contact eCalc support."
-- 
2.43.0


From ad617f4f5ee66acfa8ddbed2771d5e27c3a1fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:44 +0000
Subject: [PATCH 05/47] fix: time-dependent variables given in any date order
 keep their own values

---
 .../yaml/mappers/variables_mapper/variables_mapper.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
index 918fd59..c8397c1 100644
--- a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
@@ -35,7 +35,7 @@ class VariableProcessor:
             variable_periods = Periods.create_periods(sorted(self.variable), include_before=False)
             processed_expressions = {
                 period: variable.value.evaluate(variables, fill_length=len(periods))
-                for period, variable in zip(variable_periods, self.variable.values())
+                for period, variable in zip(variable_periods, (self.variable[date] for date in sorted(self.variable)))
             }
 
             variable_result = []
-- 
2.43.0


From 604398ee6b5dfa9d20e0ca2fe47552c614b779cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:29 +0000
Subject: [PATCH 06/47] fix: a regularity of zero is used as zero, not replaced
 by the default

---
 src/libecalc/domain/regularity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/regularity.py b/src/libecalc/domain/regularity.py
index 5f2efa3..00e1576 100644
--- a/src/libecalc/domain/regularity.py
+++ b/src/libecalc/domain/regularity.py
@@ -31,7 +31,7 @@ class Regularity:
         self.expression_evaluator = expression_evaluator
         try:
             self.temporal_expression = TemporalExpression(
-                expression=expression_input or self.default_expression_value(),
+                expression=expression_input if expression_input is not None else self.default_expression_value(),
                 target_period=target_period,
                 expression_evaluator=expression_evaluator,
             )
-- 
2.43.0


From 31aa5f46617f466f083ea3a7edce801316d6d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:59 +0000
Subject: [PATCH 07/47] fix: a condition that is the number 0 switches the
 consumer off instead of being ignored

---
 .../presentation/yaml/mappers/consumer_function_mapper.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index cc58f8e..24aca89 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -178,7 +178,7 @@ class ConditionedModel(Protocol):
 
 
 def _map_condition(energy_usage_model: ConditionedModel) -> str | int | float | None:
-    if energy_usage_model.condition:
+    if energy_usage_model.condition is not None:
         condition_value = energy_usage_model.condition
         return condition_value
     elif energy_usage_model.conditions:
-- 
2.43.0


From 6d06ccd7a6ff65bda4cbe006cc90f0ebd044b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:46 +0000
Subject: [PATCH 08/47] fix: CONDITIONS given for a venting emitter rate are
 applied

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 02bf75e..16a5fd8 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -46,6 +46,7 @@ from libecalc.presentation.yaml.domain.yaml_component import YamlComponent
 from libecalc.presentation.yaml.mappers.consumer_function_mapper import (
     ConsumerFunctionMapper,
     InvalidEnergyUsageModelException,
+    _map_condition,
 )
 from libecalc.presentation.yaml.mappers.yaml_mapping_context import MappingContext
 from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
@@ -569,7 +570,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=emission.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=emission.rate.condition,
+                                condition=_map_condition(emission.rate),
                             ),
                             unit=emission.rate.unit.to_unit(),
                             rate_type=emission.rate.type,
@@ -598,7 +599,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=data.volume.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=data.volume.rate.condition,
+                                condition=_map_condition(data.volume.rate),
                             ),
                             unit=data.volume.rate.unit.to_unit(),
                             rate_type=data.volume.rate.type,
-- 
2.43.0


From b448bec2ec7aa2b362961a0e3d504665a6ce3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:13 +0000
Subject: [PATCH 09/47] fix: a venting emitter that lists the same emission
 more than once keeps all of them

---
 .../domain/infrastructure/emitters/venting_emitter.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/infrastructure/emitters/venting_emitter.py b/src/libecalc/domain/infrastructure/emitters/venting_emitter.py
index 445408a..426ce40 100644
--- a/src/libecalc/domain/infrastructure/emitters/venting_emitter.py
+++ b/src/libecalc/domain/infrastructure/emitters/venting_emitter.py
@@ -182,11 +182,12 @@ class DirectVentingEmitter(VentingEmitter):
             emission_rate = emission.emission_rate.get_stream_day_values()
             unit = emission.emission_rate.unit
             emission_rate = unit.to(Unit.TONS_PER_DAY)(emission_rate)
-            emissions[emission.name] = TimeSeriesStreamDayRate(
+            rate = TimeSeriesStreamDayRate(
                 periods=emission.emission_rate.get_periods(),
                 values=emission_rate,
                 unit=Unit.TONS_PER_DAY,
             )
+            emissions[emission.name] = emissions[emission.name] + rate if emission.name in emissions else rate
         return emissions
 
 
@@ -207,11 +208,12 @@ class OilVentingEmitter(VentingEmitter, StorageContainer):
 
             emission_rate = [oil_rate * factor for oil_rate, factor in zip(oil_rates, factors)]
             emission_rate = Unit.KILO_PER_DAY.to(Unit.TONS_PER_DAY)(emission_rate)
-            emissions[emission.name] = TimeSeriesStreamDayRate(
+            rate = TimeSeriesStreamDayRate(
                 periods=self.volume.oil_volume_rate.get_periods(),
                 values=emission_rate,
                 unit=Unit.TONS_PER_DAY,
             )
+            emissions[emission.name] = emissions[emission.name] + rate if emission.name in emissions else rate
         return emissions
 
     def get_oil_rates(self) -> list[float]:
-- 
2.43.0


From 040d2d7e4a9e196471078dcd88f5b1136a9931e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:30 +0000
Subject: [PATCH 10/47] fix: HEAD_MARGIN of a pump chart is converted from
 meter liquid column to J/kg

---
 .../presentation/yaml/mappers/facility_input.py        | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index b789dc2..f87a56c 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,5 @@
 from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
 from libecalc.domain.resource import Resource
@@ -17,6 +18,11 @@ def _get_float_column_or_none(resource: Resource, header: str) -> list[float] |
         return None
 
 
+def _head_margin_in_joule_per_kg(facility_data: YamlPumpChartSingleSpeed | YamlPumpChartVariableSpeed) -> float:
+    """The head margin is given in meter liquid column, while the pump chart is in joule per kg."""
+    return Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN.to(Unit.POLYTROPIC_HEAD_JOULE_PER_KG)(facility_data.head_margin)
+
+
 def _create_pump_model_single_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartSingleSpeed,
@@ -24,7 +30,7 @@ def _create_pump_model_single_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_head_margin_in_joule_per_kg(facility_data),
     )
 
 
@@ -35,7 +41,7 @@ def _create_pump_chart_variable_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_head_margin_in_joule_per_kg(facility_data),
     )
 
 
-- 
2.43.0


From 70ce07f5e2e8624158047ecfcaa12de135798ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:23 +0000
Subject: [PATCH 11/47] fix: a pump at its maximum rate or head is not failed
 by rounding errors

A pump that sends overshooting rate over a cross-over is allocated its
maximum rate, but was often found invalid there because the maximum rate
back-calculated to a head some 1e-12 above the chart.
---
 src/libecalc/domain/process/pump/pump.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/domain/process/pump/pump.py b/src/libecalc/domain/process/pump/pump.py
index e86127c..b63b21d 100644
--- a/src/libecalc/domain/process/pump/pump.py
+++ b/src/libecalc/domain/process/pump/pump.py
@@ -12,6 +12,9 @@ from libecalc.domain.process.value_objects.chart.chart import ChartData
 
 EPSILON = 1e-15
 
+# Relative tolerance on the limits of the pump chart, to not fail a pump that runs at its maximum due to rounding errors
+CAPACITY_TOLERANCE = 1e-9
+
 
 class PumpModel:
     """Create a Pump instance.
@@ -224,13 +227,15 @@ class PumpModel:
         and can be calculated) Those that fall outside the working area, means that this pump(s) is not able to handle
         those rates/heads (alone)
         """
+        is_above_maximum_head = head > maximum_head_at_rate * (1 + CAPACITY_TOLERANCE)
+        is_above_maximum_rate = rate_m3_per_hour > self._pump_chart.maximum_rate * (1 + CAPACITY_TOLERANCE)
         failure_status = (
             PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE
-            if (head > maximum_head_at_rate and rate_m3_per_hour > self._pump_chart.maximum_rate)
+            if (is_above_maximum_head and is_above_maximum_rate)
             else PumpFailureStatus.ABOVE_MAXIMUM_HEAD_AT_RATE
-            if head > maximum_head_at_rate
+            if is_above_maximum_head
             else PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE
-            if rate_m3_per_hour > self._pump_chart.maximum_rate
+            if is_above_maximum_rate
             else PumpFailureStatus.NO_FAILURE
         )
 
-- 
2.43.0


From abcf702506fa19b34bb6acfcb8f85213ad67010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:51 +0000
Subject: [PATCH 12/47] fix: report the largest maximum usage from shore within
 each exported period

---
 src/libecalc/presentation/exporter/queries.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/presentation/exporter/queries.py b/src/libecalc/presentation/exporter/queries.py
index c367740..5a24bac 100644
--- a/src/libecalc/presentation/exporter/queries.py
+++ b/src/libecalc/presentation/exporter/queries.py
@@ -268,11 +268,9 @@ class MaxUsageFromShoreQuery(Query):
         # Max usage from shore is time series float (values)
         # The maximum value with in each period in sorted_results should be found for the new periods
 
+        max_usage = TimeSeriesFloat(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit)
         return {
-            period: TimeSeriesFloat(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit)
-            .resample(freq=frequency)
-            .for_period(period)
-            .max
+            period: max(value for p, value in max_usage.datapoints() if Period.intersects(p, period))
             for period in resample_periods(periods=installation_graph.get_periods(), frequency=frequency)
         }
 
-- 
2.43.0


From 6ce32c88f58616c04c30e4ade2102fbb3990fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:08 +0000
Subject: [PATCH 13/47] fix: find the maximum rate of a sampled compressor at
 the given pressures

---
 .../core/sampled/compressor_model_sampled.py       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 517a281..6455b35 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -148,10 +148,16 @@ class CompressorModelSampled:
         number_of_calculation_points = len(suction_pressures) if suction_pressures is not None else 1
         if self.support_max_rate:
             if self._qhull_sampled.support_max_rate:
-                return np.full(
-                    shape=number_of_calculation_points,
-                    fill_value=self._qhull_sampled.get_max_rate(),  # type: ignore[call-arg]
-                )
+                max_rate: NDArray[np.float64] | float | None
+                if isinstance(self._qhull_sampled, CompressorModelSampled3D):
+                    max_rate = self._qhull_sampled.get_max_rate(ps=suction_pressures, pd=discharge_pressures)
+                elif isinstance(self._qhull_sampled, CompressorModelSampled2DRatePd):
+                    max_rate = self._qhull_sampled.get_max_rate(discharge_pressure=discharge_pressures)
+                elif isinstance(self._qhull_sampled, CompressorModelSampled2DRatePs):
+                    max_rate = self._qhull_sampled.get_max_rate(ps=suction_pressures)
+                else:
+                    max_rate = self._qhull_sampled.get_max_rate()
+                return np.full(shape=number_of_calculation_points, fill_value=max_rate)
             else:
                 return np.full(shape=number_of_calculation_points, fill_value=self._degenerated_rate)
         else:
-- 
2.43.0


From 0839d44341fc7c37bdf3fa23f30b09292ed3d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:42 +0000
Subject: [PATCH 14/47] fix: tell upper from lower working area boundaries by
 the hull's outward normals

---
 .../core/sampled/convex_hull_common.py        | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
index 748e1ef..b259721 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
@@ -106,23 +106,9 @@ def get_lower_upper_qhull(qh: ConvexHull, axis: int = 0, case_2d: str = "rate_ps
     These functions are used for further computation of functions to be used for
     projection of (rate, ps, pd) points.
     """
-    # Select one point in the middle of the convex hull
-    test_point = (qh.max_bound + qh.min_bound) / 2
-
-    non_boundary_simplices = np.argwhere(qh.equations[:, axis] != 0.0)[:, 0]
-    eqs_non_boundary_unified = qh.equations[non_boundary_simplices, :] / qh.equations[
-        non_boundary_simplices, axis
-    ].reshape(-1, 1)
-
-    eval_axes = [x for x in range(qh.ndim) if x != axis]
-    test_values = -1 * eqs_non_boundary_unified[:, -1]
-    for ax in eval_axes:
-        test_values -= eqs_non_boundary_unified[:, ax] * test_point[ax]
-
-    # The upper simplices are the ones with hyperplane test value larger than the internal point
-    # The lower simplices are the ones with hyperplane test values smaller
-    upper_simplices_indices = non_boundary_simplices[test_values >= test_point[axis]]
-    lower_simplices_indices = non_boundary_simplices[test_values <= test_point[axis]]
+    # Qhull normals point out of the hull
+    upper_simplices_indices = np.argwhere(qh.equations[:, axis] > 0.0)[:, 0]
+    lower_simplices_indices = np.argwhere(qh.equations[:, axis] < 0.0)[:, 0]
 
     # Find the points of the upper and lower simplices
     upper_point_indices = np.unique(qh.simplices[upper_simplices_indices, :].reshape(-1, 1))
-- 
2.43.0


From 88c043480a84392325144e2c2fdc6894e1a04f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:54 +0000
Subject: [PATCH 15/47] fix: points projected on to the boundary of a sampled
 compressor's working area are not lost to rounding errors

---
 .../sampled/compressor_model_sampled_2d.py    | 10 +++++++---
 .../core/sampled/convex_hull_common.py        | 20 +++++++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
index 34aec5b..948e0c5 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_2d.py
@@ -11,6 +11,7 @@ from libecalc.domain.process.compressor.core.sampled.constants import (
 )
 from libecalc.domain.process.compressor.core.sampled.convex_hull_common import (
     get_lower_upper_qhull,
+    interpolate_in_working_area,
     sort_ndarray_by_column,
 )
 
@@ -55,6 +56,7 @@ class CompressorModelSampled2DRatePd:
             fill_value=np.nan,
             rescale=True,
         )
+        self._center = sampled_data[self.variable_order_2d].to_numpy().mean(axis=0)
 
         # we define a convex hull for the working area for the compressor
         # for any point (rate, Dp) in the convex hull we can draw a line between
@@ -160,7 +162,7 @@ class CompressorModelSampled2DRatePd:
             rate=rate, discharge_pressure=discharge_pressure
         )
         x_for_interpolator = np.stack((rate_projected, pd_projected), axis=-1)
-        return np.array(self._interpolator(x_for_interpolator))
+        return interpolate_in_working_area(self._interpolator, x_for_interpolator, center=self._center)
 
     def get_max_rate(self, discharge_pressure: NDArray[np.float64]) -> float:
         """AKA: find_maximum_compatible_rate.
@@ -222,6 +224,7 @@ class CompressorModelSampled2DRatePs:
             fill_value=np.nan,
             rescale=True,
         )
+        self._center = sampled_data[self.variable_order_2d].to_numpy().mean(axis=0)
 
         convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
         (
@@ -268,7 +271,7 @@ class CompressorModelSampled2DRatePs:
     def evaluate(self, rate: NDArray[np.float64], suction_pressure: NDArray[np.float64], **kwargs):
         rate_projected, ps_projected = self._project_variables_for_evaluation(rate=rate, ps=suction_pressure)
         x_for_interpolator = np.stack((rate_projected, ps_projected), axis=-1)
-        energy_consumption = self._interpolator(x_for_interpolator)
+        energy_consumption = interpolate_in_working_area(self._interpolator, x_for_interpolator, center=self._center)
 
         return energy_consumption
 
@@ -297,6 +300,7 @@ class CompressorModelSampled2DPsPd:
             fill_value=np.nan,
             rescale=True,
         )
+        self._center = sampled_data[self.variable_order_2d].to_numpy().mean(axis=0)
 
         convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
         lower_pd_points_qh, _, _ = get_lower_upper_qhull(convex_hull, axis=self.pd_axis, case_2d="ps_pd")
@@ -331,7 +335,7 @@ class CompressorModelSampled2DPsPd:
     def evaluate(self, suction_pressure: NDArray[np.float64], discharge_pressure: NDArray[np.float64], **kwargs):
         ps_projected, pd_projected = self._project_variables_for_evaluation(ps=suction_pressure, pd=discharge_pressure)
         x_for_interpolator = np.stack((ps_projected, pd_projected), axis=-1)
-        energy_consumption = self._interpolator(x_for_interpolator)
+        energy_consumption = interpolate_in_working_area(self._interpolator, x_for_interpolator, center=self._center)
 
         return energy_consumption
 
diff --git a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
index b259721..a996317 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
@@ -22,6 +22,26 @@ def sort_ndarray_by_column(arr: NDArray[np.float64], column_index: int) -> NDArr
     return np.array(arr[arr[:, column_index].argsort()])
 
 
+def interpolate_in_working_area(
+    interpolator: LinearNDInterpolator, points: NDArray[np.float64], center: NDArray[np.float64]
+) -> NDArray[np.float64]:
+    """Interpolate at points that may have been projected on to the boundary of the working area, and due to rounding
+    errors may be just outside it.
+
+    Args:
+        interpolator: Interpolator defined in the working area
+        points: Array with one interpolation point per row
+        center: A point inside the working area
+
+    Returns:
+        The interpolated values, NaN for points outside the working area
+    """
+    values = np.array(interpolator(points))
+    outside = np.argwhere(np.isnan(values))[:, 0]
+    values[outside] = interpolator(points[outside] + 1e-12 * (center - points[outside]))
+    return values
+
+
 @dataclass
 class Node:
     coordinates: list[float]
-- 
2.43.0


From 058ac60ac068994e28987241a864900d82331b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:47 +0000
Subject: [PATCH 16/47] fix: a two-dimensional sampled compressor whose largest
 rate is at the extreme pressure does not crash

---
 .../process/compressor/core/sampled/convex_hull_common.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
index a996317..b56f116 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/convex_hull_common.py
@@ -227,8 +227,10 @@ def get_lower_upper_qhull(qh: ConvexHull, axis: int = 0, case_2d: str = "rate_ps
                 do_monotonic = False
                 upper_monotonic_correct_points = None
             if do_monotonic:
-                upper_monotonic_correct_point_indices = np.unique(
-                    qh.simplices[upper_monotonic_correct_simplices_indices, :].reshape(-1, 1)
+                # The point with the largest rate is always included, it may be the only one
+                upper_monotonic_correct_point_indices = np.union1d(
+                    qh.simplices[upper_monotonic_correct_simplices_indices, :],
+                    qh.vertices[np.argmax(qh.points[qh.vertices, axis])],
                 )
                 upper_monotonic_correct_points = qh.points[upper_monotonic_correct_point_indices, :]
     else:
-- 
2.43.0


From 254054717cd6017923dd524c983744be44494be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:03 +0000
Subject: [PATCH 17/47] fix: report duplicate values of one-dimensional sampled
 compressor data instead of crashing on the report

---
 .../compressor/core/sampled/compressor_model_sampled_1d.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
index 42269dc..e3d16aa 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled_1d.py
@@ -103,7 +103,7 @@ class CompressorModelSampled1D:
             msg = (
                 f"1D compressor sampled data require unique variable input values. "
                 f"I got non-unique {self._x_column_name} values "
-                f"{', '.join(duplicates)}"
+                f"{', '.join(str(duplicate) for duplicate in duplicates)}"
             )
             logger.error(msg)
             raise IllegalStateException(msg)
-- 
2.43.0


From a2173a6c3e39cd827ad7eede82a8469d072f8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:21 +0000
Subject: [PATCH 18/47] fix: a turbine is overloaded when its adjusted load
 exceeds the maximum load

---
 .../domain/infrastructure/energy_components/turbine/turbine.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
index 219fde3..c72cb4f 100644
--- a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
+++ b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
@@ -72,7 +72,7 @@ class Turbine:
         load_list = array_to_list(load_adjusted) or []
         efficiency_list = array_to_list(efficiency) or []  # type: ignore[arg-type]
         fuel_usage_list = array_to_list(fuel_usage) or []
-        exceeds_max_list = array_to_list(load > self._maximum_load) or []
+        exceeds_max_list = array_to_list(load_adjusted > self._maximum_load) or []
 
         return TurbineResult(
             load=load_list,
-- 
2.43.0


From e3c3d6685299d1d94c6603afbf559d1e7e99f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:45 +0000
Subject: [PATCH 19/47] fix: find the maximum rate of a sampled compressor with
 turbine

---
 src/libecalc/domain/process/compressor/core/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index b0b0d51..74f6150 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -68,13 +68,17 @@ class CompressorWithTurbineModel:
 
         return compressor_energy_function_result
 
+    def _get_fluid_model(self) -> FluidModel | list[FluidModel | None] | None:
+        """Sampled compressor models do not have a fluid"""
+        return None if isinstance(self.compressor_model, CompressorModelSampled) else self.compressor_model._fluid_model
+
     def _calculate_remaining_capacity_in_train_given_standard_rate(
         self, standard_rate: float, suction_pressure: float, discharge_pressure: float, max_power: float
     ) -> float:
         """Expression used in optimization to find the rate that utilizes the compressor trains capacity."""
 
         self.compressor_model.set_evaluation_input(
-            fluid_model=self.compressor_model._fluid_model,
+            fluid_model=self._get_fluid_model(),
             rate=np.asarray([standard_rate]),
             suction_pressure=np.asarray([suction_pressure]),
             discharge_pressure=np.asarray([discharge_pressure]),
@@ -103,7 +107,7 @@ class CompressorWithTurbineModel:
         assert max_standard_rate is not None
         # Check if the obtained results are within the maximum load that the turbine can deliver
         self.compressor_model.set_evaluation_input(
-            fluid_model=self.compressor_model._fluid_model,
+            fluid_model=self._get_fluid_model(),
             rate=max_standard_rate,
             suction_pressure=suction_pressures,
             discharge_pressure=discharge_pressures,
-- 
2.43.0


From deca7288985295fb615f890206ed93fe3101c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 20/47] fix: account for the power adjustment when limiting the
 maximum rate by the turbine

---
 src/libecalc/domain/process/compressor/core/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index 74f6150..679244c 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -115,7 +115,10 @@ class CompressorWithTurbineModel:
         results_max_standard_rate = self.compressor_model.evaluate()
         energy_result = results_max_standard_rate.get_energy_result()
 
-        max_power = self.turbine_model.max_power
+        # The compressor power at which the adjusted power is what the turbine can deliver
+        max_power = (
+            self.turbine_model.max_power - self._energy_usage_adjustment_constant
+        ) / self._energy_usage_adjustment_factor
 
         if energy_result.power is not None:
             powers = np.asarray(energy_result.power.values)
-- 
2.43.0


From 643e86a0f3f32f8067fa221bc780dc42717cc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:02 +0000
Subject: [PATCH 21/47] fix: a sampled compressor at its largest fuel usage is
 not failed by rounding errors

---
 .../core/sampled/compressor_model_sampled.py         | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 6455b35..8fd0fe8 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -245,10 +245,14 @@ class CompressorModelSampled:
             discharge_pressure[indices_to_evaluate] if discharge_pressure is not None else np.array([])
         )
 
-        interpolated_consumer_values[indices_to_evaluate] = self._qhull_sampled.evaluate(
-            rate=rate_to_evaluate,
-            suction_pressure=ps_to_evaluate,
-            discharge_pressure=pd_to_evaluate,
+        # Interpolated values exceed the largest sampled value due to rounding errors only
+        interpolated_consumer_values[indices_to_evaluate] = np.minimum(
+            self._qhull_sampled.evaluate(
+                rate=rate_to_evaluate,
+                suction_pressure=ps_to_evaluate,
+                discharge_pressure=pd_to_evaluate,
+            ),
+            np.max(self.energy_usage_values),
         )
 
         turbine = self.Turbine(
-- 
2.43.0


From 9e8f55d6b8f7591a2ee7ad2483168ec576dcf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:31 +0000
Subject: [PATCH 22/47] fix: report the recirculation of a common ASV train
 that cannot reach its pressure

---
 .../core/train/compressor_train_common_shaft.py           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 0b48cd9..77a03a2 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1064,13 +1064,17 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             and constraints.discharge_pressure > train_result_for_minimum_mass_rate.discharge_pressure
         ):
             # will never reach target pressure, too high
-            return train_result_for_minimum_mass_rate
+            return _calculate_train_result_given_additional_mass_rate(
+                additional_mass_rate_kg_per_hour=minimum_mass_rate - minimum_mass_rate_kg_per_hour
+            )
         if (
             constraints.discharge_pressure is not None
             and constraints.discharge_pressure < train_result_for_maximum_mass_rate.discharge_pressure
         ):
             # will never reach target pressure, too low
-            return train_result_for_maximum_mass_rate
+            return _calculate_train_result_given_additional_mass_rate(
+                additional_mass_rate_kg_per_hour=maximum_mass_rate - minimum_mass_rate_kg_per_hour
+            )
 
         # This method requires discharge_pressure for the Newton iteration
         assert constraints.discharge_pressure is not None
-- 
2.43.0


From 1742376cbb1bce0e167a393c081fa96e3140c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:31 +0000
Subject: [PATCH 23/47] fix: search the maximum common mass rate from a
 feasible mass rate

---
 .../compressor/core/train/compressor_train_common_shaft.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 77a03a2..5d97c4f 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1031,8 +1031,9 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
 
             # found one solution, now find min and max
+            feasible_mass_rate = minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)
             minimum_mass_rate = -maximize_x_given_boolean_condition_function(
-                x_min=-(minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)),
+                x_min=-feasible_mass_rate,
                 x_max=-minimum_mass_rate,
                 bool_func=lambda x: (
                     _calculate_train_result_given_mass_rate(
@@ -1043,7 +1044,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 maximum_number_of_iterations=20,
             )
             maximum_mass_rate = maximize_x_given_boolean_condition_function(
-                x_min=(minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)),
+                x_min=feasible_mass_rate,
                 x_max=maximum_mass_rate,
                 bool_func=lambda x: (
                     _calculate_train_result_given_mass_rate(
-- 
2.43.0


From 53f3dd92b2c52841630d16439fdf5433a642f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:31 +0000
Subject: [PATCH 24/47] fix: keep all stages of a common ASV train within
 capacity when searching the mass rate

---
 .../train/compressor_train_common_shaft.py    | 36 +++++++------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 5d97c4f..97c055c 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -953,6 +953,10 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 constraints=constraints,
             )
 
+        def _is_feasible(train_result: CompressorTrainResultSingleTimeStep) -> bool:
+            """The same mass rate through all the stages, and all the stages able to handle it."""
+            return train_result.mass_rate_asv_corrected_is_constant_for_stages and train_result.within_capacity
+
         # outer bounds for minimum and maximum mass rate without individual recirculation on stages will be the
         # minimum and maximum mass rate for the first stage at the current (fixed) shaft speed, adjusted for the
         # volume entering the first stage
@@ -981,33 +985,25 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(
             mass_rate_kg_per_hour=float(maximum_mass_rate)
         )
-        if train_result_for_minimum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
-            if not train_result_for_maximum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+        if _is_feasible(train_result_for_minimum_mass_rate):
+            if not _is_feasible(train_result_for_maximum_mass_rate):
                 # find the maximum additional_mass_rate that gives train_results.is_valid
                 maximum_mass_rate = maximize_x_given_boolean_condition_function(
                     x_min=0.0,
                     x_max=maximum_mass_rate,
-                    bool_func=lambda x: (
-                        _calculate_train_result_given_mass_rate(
-                            mass_rate_kg_per_hour=x
-                        ).mass_rate_asv_corrected_is_constant_for_stages
-                    ),
+                    bool_func=lambda x: _is_feasible(_calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x)),
                     convergence_tolerance=1e-3,
                     maximum_number_of_iterations=20,
                 )
                 train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(
                     mass_rate_kg_per_hour=maximum_mass_rate
                 )
-        elif train_result_for_maximum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+        elif _is_feasible(train_result_for_maximum_mass_rate):
             # find the minimum additional_mass_rate that gives all points internal
             minimum_mass_rate = -maximize_x_given_boolean_condition_function(
                 x_min=-maximum_mass_rate,
                 x_max=-minimum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=-x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
-                ),
+                bool_func=lambda x: _is_feasible(_calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=-x)),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
             )
@@ -1021,7 +1017,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             train_result_for_mass_rate = _calculate_train_result_given_mass_rate(
                 mass_rate_kg_per_hour=minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)
             )
-            while not train_result_for_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+            while not _is_feasible(train_result_for_mass_rate):
                 inc += 0.1
                 if inc >= 1:
                     logger.error("Single speed train with Common ASV pressure control has no solution!")
@@ -1035,22 +1031,14 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             minimum_mass_rate = -maximize_x_given_boolean_condition_function(
                 x_min=-feasible_mass_rate,
                 x_max=-minimum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=-x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
-                ),
+                bool_func=lambda x: _is_feasible(_calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=-x)),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
             )
             maximum_mass_rate = maximize_x_given_boolean_condition_function(
                 x_min=feasible_mass_rate,
                 x_max=maximum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
-                ),
+                bool_func=lambda x: _is_feasible(_calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x)),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
             )
-- 
2.43.0


From 00d4ed58d171643080e4f5ae1ead96cbf95214d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:46 +0000
Subject: [PATCH 25/47] fix: apply the maximum power with individual ASV
 pressure control

---
 .../compressor/core/train/compressor_train_common_shaft.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 97c055c..ab7e667 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -895,6 +895,11 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             outlet_stream=stage_result.outlet_stream,
             speed=self.shaft.get_speed(),
             stage_results=stage_results,
+            above_maximum_power=(
+                sum(stage_result.power_megawatt for stage_result in stage_results) > self.maximum_power
+                if self.maximum_power
+                else False
+            ),
             target_pressure_status=target_pressure_status,
         )
 
-- 
2.43.0


From 500496d3d20531de25c2ace671db7a15d0413eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:46 +0000
Subject: [PATCH 26/47] fix: check the maximum power of a train choked to its
 maximum discharge pressure

---
 .../compressor/core/train/compressor_train_common_shaft.py       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index ab7e667..9551e1e 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -698,6 +698,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
                 train_result.stage_results = new_train_result.stage_results
                 train_result.outlet_stream = new_train_result.outlet_stream
+                train_result.above_maximum_power = new_train_result.above_maximum_power
                 train_result.target_pressure_status = self.check_target_pressures(
                     constraints=constraints,
                     results=train_result,
-- 
2.43.0


From 8704a8c9ec115544232b1de0e789de750f826848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 27/47] fix: connect the streams of a multiple streams
 compressor train by name, not by position

The streams and their rates are given in the order of STREAMS, while the train expects them in the order of
its ports: stage by stage, outgoing before ingoing. Streams listed in another order were mixed up.
---
 .../yaml/mappers/consumer_function_mapper.py  | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 24aca89..1aae63b 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -266,6 +266,35 @@ def validate_pressures(
                     )
 
 
+def _get_stream_indices_in_port_order(
+    model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures,
+) -> list[int]:
+    """
+    The streams of a train may be defined in any order, while the ports of the train are ordered by stage: the inlet of
+    the train first, then for each stage the outgoing streams followed by the ingoing streams.
+
+    Returns: the indices of the streams, in the order of the ports they belong to
+    """
+    stage_of_stream: dict[str, int] = {}
+    for stage_index, stage in enumerate(model.stages):
+        for stream_reference in stage.stream or []:
+            stage_of_stream.setdefault(stream_reference, stage_index)
+
+    def port_order(index: int) -> tuple[int, bool]:
+        stream = model.streams[index]
+        stage_index = stage_of_stream.get(stream.name, len(model.stages))
+        return stage_index, isinstance(stream, YamlMultipleStreamsStreamIngoing)
+
+    stream_indices = sorted(range(len(model.streams)), key=port_order)
+    inlets = [
+        index
+        for index in stream_indices
+        if isinstance(model.streams[index], YamlMultipleStreamsStreamIngoing)
+        and stage_of_stream.get(model.streams[index].name) == 0
+    ]
+    return inlets[:1] + [index for index in stream_indices if index not in inlets[:1]]
+
+
 class CompressorModelMapper:
     def __init__(self, resources: Resources, reference_service: ReferenceService, configuration: YamlValidator):
         self._reference_service = reference_service
@@ -757,11 +786,12 @@ class CompressorModelMapper:
             )
         ]
 
+        # The train expects its streams in the order of its ports
         fluid_models = [
             self._get_fluid_model(stream_config.fluid_model)
             if isinstance(stream_config, YamlMultipleStreamsStreamIngoing)
             else None
-            for stream_config in model.streams
+            for stream_config in (model.streams[i] for i in _get_stream_indices_in_port_order(model))
         ]
 
         if not any(fluid_models):
@@ -816,6 +846,17 @@ class CompressorModelMapper:
             power_interpolation_values=power_interpolation_values,
         )
 
+    def sort_rates_by_port(self, reference: str, rates: list[YamlExpressionType]) -> list[YamlExpressionType]:
+        """Sort rates given in the order of STREAMS, into the order of the ports of the train."""
+        model = self._reference_service.get_compressor_model(reference)
+        if isinstance(model, YamlCompressorWithTurbine):
+            return self.sort_rates_by_port(model.compressor_model, rates)
+        if not isinstance(model, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures) or len(rates) != len(
+            model.streams
+        ):
+            return rates
+        return [rates[i] for i in _get_stream_indices_in_port_order(model)]
+
     def create_compressor_model(
         self,
         reference: str,
@@ -1193,7 +1234,9 @@ class ConsumerFunctionMapper:
                 regularity=regularity,
                 consumption_rate_type=RateType.CALENDAR_DAY,
             )
-            for rate_expression in model.rate_per_stream
+            for rate_expression in self._compressor_model_mapper.sort_rates_by_port(
+                model.compressor_train_model, model.rate_per_stream
+            )
         ]
 
         rates_per_stream_values = [rates.get_stream_day_values() for rates in rates_per_stream]
-- 
2.43.0


From 02321dceee505e4786626dbaacc54ffc63b5853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 28/47] fix: let streams in and out of the train take part in
 individual ASV pressure control

Streams leaving ahead of a stage were not taken out, and streams entering made the evaluation crash.
---
 .../train/compressor_train_common_shaft.py    | 105 ++++++++++++------
 .../process/compressor/core/train/stage.py    |  12 +-
 2 files changed, 85 insertions(+), 32 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 9551e1e..09d2e86 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -30,6 +30,7 @@ from libecalc.domain.process.core.results.compressor import TargetPressureStatus
 from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag
 from libecalc.process.fluid_stream.fluid_model import FluidModel
 from libecalc.process.fluid_stream.fluid_service import FluidService
+from libecalc.process.fluid_stream.fluid_stream import FluidStream
 from libecalc.process.shaft import Shaft, SingleSpeedShaft, VariableSpeedShaft
 
 
@@ -208,43 +209,20 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         assert constraints.suction_pressure is not None
         assert isinstance(self._fluid_model, list)
 
-        fluid_streams = []
-        for i, port in enumerate(self.ports):
-            if port.is_inlet_port:
-                stream_fluid_model = self._fluid_model[i]
-                if stream_fluid_model is not None:
-                    fluid_streams.append(
-                        self._fluid_service.create_stream_from_standard_rate(
-                            fluid_model=stream_fluid_model,
-                            pressure_bara=constraints.suction_pressure,
-                            temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
-                            standard_rate_m3_per_day=constraints.rates[i],
-                        )
-                    )
+        fluid_streams = self._get_inlet_streams(constraints=constraints)
 
         previous_stage_outlet_stream = train_inlet_stream = fluid_streams[0]
-        inlet_stream_counter = 1
         stage_results = []
 
         for stage_number, stage in enumerate(self.stages):
             stage_inlet_stream = previous_stage_outlet_stream
 
-            rates_out_of_splitter = [
-                constraints.rates[stream_number]
-                for stream_number in self.outlet_port_connected_to_stage.get(stage_number, [])
-            ]
-            streams_in_to_mixer = []
-            for stream_number in self.inlet_port_connected_to_stage.get(stage_number, []):
-                if stream_number > 0:
-                    if inlet_stream_counter < len(fluid_streams):
-                        # Create fluid at stage inlet conditions using fluid service
-                        new_fluid = stage.fluid_service.create_fluid(
-                            fluid_streams[inlet_stream_counter].fluid_model,
-                            stage_inlet_stream.pressure_bara,
-                            stage_inlet_stream.temperature_kelvin,
-                        )
-                        streams_in_to_mixer.append(fluid_streams[inlet_stream_counter].with_new_fluid(new_fluid))
-                        inlet_stream_counter += 1
+            rates_out_of_splitter, streams_in_to_mixer = self._get_side_streams(
+                stage_number=stage_number,
+                constraints=constraints,
+                inlet_streams=fluid_streams,
+                stage_inlet_stream=stage_inlet_stream,
+            )
 
             stage_results.append(
                 stage.evaluate(
@@ -272,6 +250,62 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             target_pressure_status=target_pressure_status,
         )
 
+    def _get_inlet_streams(self, constraints: CompressorTrainEvaluationInput) -> list[FluidStream]:
+        """The ingoing streams of the train, in the order of the ports."""
+        assert constraints.rates is not None
+        assert constraints.suction_pressure is not None
+        assert isinstance(self._fluid_model, list)
+
+        return [
+            self._fluid_service.create_stream_from_standard_rate(
+                fluid_model=fluid_model,
+                pressure_bara=constraints.suction_pressure,
+                temperature_kelvin=self.stages[0].inlet_temperature_kelvin,
+                standard_rate_m3_per_day=constraints.rates[i],
+            )
+            for i, (port, fluid_model) in enumerate(zip(self.ports, self._fluid_model))
+            if port.is_inlet_port and fluid_model is not None
+        ]
+
+    def _get_side_streams(
+        self,
+        stage_number: int,
+        constraints: CompressorTrainEvaluationInput,
+        inlet_streams: list[FluidStream],
+        stage_inlet_stream: FluidStream,
+    ) -> tuple[list[float], list[FluidStream]]:
+        """
+        The streams leaving and entering the train ahead of a stage.
+
+        Args:
+            stage_number: The stage the streams are connected to
+            constraints: The constraints for the evaluation
+            inlet_streams: The ingoing streams of the train, in the order of the ports
+            stage_inlet_stream: The stream from the previous stage, the ingoing streams get its conditions
+
+        Returns:
+            The rates of the outgoing streams, and the ingoing streams
+        """
+        assert constraints.rates is not None
+        rates_out_of_splitter = [
+            constraints.rates[stream_number]
+            for stream_number in self.outlet_port_connected_to_stage.get(stage_number, [])
+        ]
+        inlet_ports = [i for i, port in enumerate(self.ports) if port.is_inlet_port]
+        streams_in_to_mixer = []
+        for stream_number in self.inlet_port_connected_to_stage.get(stage_number, []):
+            inlet_stream_number = inlet_ports.index(stream_number)
+            if 0 < inlet_stream_number < len(inlet_streams):
+                inlet_stream = inlet_streams[inlet_stream_number]
+                # Create fluid at stage inlet conditions using fluid service
+                new_fluid = self.stages[stage_number].fluid_service.create_fluid(
+                    inlet_stream.fluid_model,
+                    stage_inlet_stream.pressure_bara,
+                    stage_inlet_stream.temperature_kelvin,
+                )
+                streams_in_to_mixer.append(inlet_stream.with_new_fluid(new_fluid))
+        return rates_out_of_splitter, streams_in_to_mixer
+
     def _validate_stages(self, stages: list[CompressorTrainStage]):
         # Check that the compressor stages have overlapping speed ranges
         min_speed_per_stage = []
@@ -875,13 +909,22 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             suction_pressure=constraints.suction_pressure,
             discharge_pressure=constraints.discharge_pressure,
         )
+        inlet_streams = self._get_inlet_streams(constraints=constraints)
         inlet_stream_stage = inlet_stream_train
         stage_results = []
-        for stage in self.stages:
+        for stage_number, stage in enumerate(self.stages):
+            rates_out_of_splitter, streams_in_to_mixer = self._get_side_streams(
+                stage_number=stage_number,
+                constraints=constraints,
+                inlet_streams=inlet_streams,
+                stage_inlet_stream=inlet_stream_stage,
+            )
             outlet_pressure_for_stage = inlet_stream_stage.pressure_bara * pressure_ratio_per_stage
             stage_result = stage.evaluate_given_speed_and_target_discharge_pressure(
                 target_discharge_pressure=outlet_pressure_for_stage,
                 inlet_stream_stage=inlet_stream_stage,
+                rates_out_of_splitter=rates_out_of_splitter,
+                streams_in_to_mixer=streams_in_to_mixer,
             )
             inlet_stream_stage = stage_result.outlet_stream
             stage_results.append(stage_result)
diff --git a/src/libecalc/domain/process/compressor/core/train/stage.py b/src/libecalc/domain/process/compressor/core/train/stage.py
index 58eb21b..359be1c 100644
--- a/src/libecalc/domain/process/compressor/core/train/stage.py
+++ b/src/libecalc/domain/process/compressor/core/train/stage.py
@@ -279,6 +279,8 @@ class CompressorTrainStage:
         self,
         inlet_stream_stage: FluidStream,
         target_discharge_pressure: float,
+        rates_out_of_splitter: list[float] | None = None,
+        streams_in_to_mixer: list[FluidStream] | None = None,
     ) -> CompressorTrainStageResultSingleTimeStep:
         """
         Calculate the result of a single-speed compressor stage given a target discharge pressure.
@@ -297,6 +299,8 @@ class CompressorTrainStage:
             inlet_stream_stage (FluidStream): The inlet stream for the stage, containing pressure, temperature,
                 and other fluid properties.
             target_discharge_pressure (float): The target discharge pressure for the stage in bar absolute [bara].
+            rates_out_of_splitter (list[float] | None, optional): Additional rates to the LegacySplitter if defined.
+            streams_in_to_mixer (list[FluidStream] | None, optional): Additional streams to the LegacyMixer if defined.
 
         Returns:
             CompressorTrainStageResultSingleTimeStep: The result of the evaluation for the compressor stage,
@@ -307,6 +311,8 @@ class CompressorTrainStage:
         self.rate_modifier.mass_rate_to_recirculate = 0
         result_no_recirculation = self.evaluate(
             inlet_stream_stage=inlet_stream_stage,
+            rates_out_of_splitter=rates_out_of_splitter,
+            streams_in_to_mixer=streams_in_to_mixer,
         )
 
         # result_no_recirculation.inlet_stream.density_kg_per_m3 will have correct pressure and temperature
@@ -315,13 +321,15 @@ class CompressorTrainStage:
 
         max_recirculation = max(
             maximum_rate * float(result_no_recirculation.inlet_stream.density)
-            - inlet_stream_stage.mass_rate_kg_per_h
+            - result_no_recirculation.inlet_stream.mass_rate_kg_per_h
             - EPSILON,
             0,
         )
         self.rate_modifier.mass_rate_to_recirculate = max_recirculation
         result_max_recirculation = self.evaluate(
             inlet_stream_stage=inlet_stream_stage,
+            rates_out_of_splitter=rates_out_of_splitter,
+            streams_in_to_mixer=streams_in_to_mixer,
         )
         if result_no_recirculation.discharge_pressure < target_discharge_pressure:
             return result_no_recirculation
@@ -334,6 +342,8 @@ class CompressorTrainStage:
             self.rate_modifier.mass_rate_to_recirculate = additional_mass_rate
             return self.evaluate(
                 inlet_stream_stage=inlet_stream_stage,
+                rates_out_of_splitter=rates_out_of_splitter,
+                streams_in_to_mixer=streams_in_to_mixer,
             )
 
         result_mass_rate = find_root(
-- 
2.43.0


From 63f33772eb59b119489c008ad1a920f859aca3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 29/47] fix: use the pressure after the choke when checking the
 interstage pressure

With a downstream choke as the pressure control ahead of the interstage pressure, the pressure before the choke
was compared to the requested interstage pressure, and the train reported as not able to meet it.
---
 src/libecalc/domain/process/compressor/core/train/base.py | 8 +++++++-
 .../core/train/compressor_train_common_shaft.py           | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 49a2051..2799ff5 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -308,11 +308,15 @@ class CompressorTrainModel(ABC):
         self,
         constraints: CompressorTrainEvaluationInput,
         results: CompressorTrainResultSingleTimeStep | list[CompressorTrainStageResultSingleTimeStep],
+        intermediate_pressure: float | None = None,
     ) -> TargetPressureStatus:
         """Check to see how the calculated pressures compare to the required pressures
         Args:
             constraints: The evaluation constraints given to the evaluation
             results: The results from the compressor train evaluation
+            intermediate_pressure: The pressure out of the part of the train ahead of the interstage pressure, if that
+                is not the discharge pressure of the last stage of that part. This is the case when there is a choke
+                downstream of the stage.
 
         Returns:
             TargetPressureStatus: The status of the target pressures
@@ -326,7 +330,9 @@ class CompressorTrainModel(ABC):
             train_suction_pressure = results.suction_pressure
             calculated_discharge_pressure = results.discharge_pressure
             stage_suction_pressure = results.stage_results[0].inlet_stream.pressure_bara
-            if constraints.rates is not None:
+            if intermediate_pressure is not None:
+                calculated_intermediate_pressure = intermediate_pressure
+            elif constraints.rates is not None:
                 calculated_intermediate_pressure = (
                     results.stage_results[self.stage_number_interstage_pressure - 1].discharge_pressure
                     if self.stage_number_interstage_pressure is not None
diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 09d2e86..dcdbba6 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1494,6 +1494,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         target_pressure_status = self.check_target_pressures(
             constraints=constraints,
             results=train_result,
+            intermediate_pressure=compressor_train_results_to_return_first_part.discharge_pressure,
         )
 
         train_result.target_pressure_status = target_pressure_status
-- 
2.43.0


From 0771f2877eded44002cc8485e0812bc965455ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 30/47] fix: control the pressure of the part of the train that
 governs the speed

When the rate requires a speed above the minimum speed, the pressure of the governing part may be too high
without pressure control.
---
 .../train/compressor_train_common_shaft.py    | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index dcdbba6..27aae0c 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1,4 +1,3 @@
-import math
 from copy import deepcopy
 from functools import partial
 from typing import Self
@@ -1401,15 +1400,18 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             upper_bound_for_speed=self.maximum_speed,  # original, complete compressor train
         )
 
-        if math.isclose(shaft_speed_first_part, self.minimum_speed, rel_tol=EPSILON):
-            compressor_train_results_first_part_with_optimal_speed_result = (
-                compressor_train_first_part.evaluate_with_pressure_control_given_constraints(
-                    constraints=constraints_first_part,
-                )
+        compressor_train_results_first_part_with_optimal_speed_result = (
+            compressor_train_first_part.calculate_compressor_train(
+                constraints=constraints_first_part,
             )
-        else:
+        )
+        if (
+            compressor_train_results_first_part_with_optimal_speed_result.target_pressure_status
+            == TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
+        ):
+            # The pressure is too high at the lowest possible speed, use pressure control to reduce it
             compressor_train_results_first_part_with_optimal_speed_result = (
-                compressor_train_first_part.calculate_compressor_train(
+                compressor_train_first_part.evaluate_with_pressure_control_given_constraints(
                     constraints=constraints_first_part,
                 )
             )
@@ -1431,15 +1433,18 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             upper_bound_for_speed=self.maximum_speed,
         )
 
-        if math.isclose(shaft_speed_last_part, self.minimum_speed, rel_tol=EPSILON):
-            compressor_train_results_last_part_with_optimal_speed_result = (
-                compressor_train_last_part.evaluate_with_pressure_control_given_constraints(
-                    constraints=constraints_last_part,
-                )
+        compressor_train_results_last_part_with_optimal_speed_result = (
+            compressor_train_last_part.calculate_compressor_train(
+                constraints=constraints_last_part,
             )
-        else:
+        )
+        if (
+            compressor_train_results_last_part_with_optimal_speed_result.target_pressure_status
+            == TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
+        ):
+            # The pressure is too high at the lowest possible speed, use pressure control to reduce it
             compressor_train_results_last_part_with_optimal_speed_result = (
-                compressor_train_last_part.calculate_compressor_train(
+                compressor_train_last_part.evaluate_with_pressure_control_given_constraints(
                     constraints=constraints_last_part,
                 )
             )
-- 
2.43.0


From a9164b86a1667fe10348b9fd5b99515c4666ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 31/47] fix: forget earlier recirculation when finding the
 maximum rate of a compressor train

---
 src/libecalc/domain/process/compressor/core/train/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 2799ff5..eb30937 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -398,6 +398,7 @@ class CompressorTrainModel(ABC):
                 discharge_pressures,
             )
         ):
+            self.reset_rate_modifiers()
             if suction_pressure_value <= 0 or discharge_pressure_value <= 0:
                 max_standard_rate[i] = 0.0
                 continue
-- 
2.43.0


From ef03b62b5cd4cf38406af82b5f519eaed127cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:08 +0000
Subject: [PATCH 32/47] fix: upstream choke solution uses the anti-surge
 recirculation of the choking found

---
 .../process/process_solver/pressure_control/upstream_choke.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index 7eb2d1a..cc0fabd 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -78,6 +78,8 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
             return self._simulator.run(inlet_stream=inlet_stream)
 
         finding = finder.find(choke_func)
+        # The last choking tried is not necessarily the one found: make the anti-surge recirculation that of the finding
+        choke_func(finding.configuration)
         choke_config = Configuration(
             configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration
         )
-- 
2.43.0


From e9502e920bbf3cc47a4e6ca5a1a4b37220615cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:08 +0000
Subject: [PATCH 33/47] fix: upstream choking just enough for an outlet
 pressure slightly above the target

---
 .../process_solver/pressure_control/upstream_choke.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index cc0fabd..c2b5fd8 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -54,10 +54,11 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
         target_pressure: FloatConstraint,
         inlet_stream: FluidStream,
     ) -> Solution[Sequence[Configuration[RecirculationConfiguration | ChokeConfiguration]]]:
-        # Use a small margin to avoid evaluating exactly at the physical/numerical extremes:
-        # ΔP = 0 (no choke) and ΔP = inlet_pressure (zero/negative suction pressure).
+        # Use a small margin to avoid evaluating exactly at the physical/numerical extreme
+        # ΔP = inlet_pressure (zero/negative suction pressure). The unchoked outlet pressure may be just above
+        # the target, so the least choking is none.
         delta_pressure_boundary = Boundary(
-            min=PRESSURE_CALCULATION_TOLERANCE,
+            min=0.0,
             max=inlet_stream.pressure_bara - PRESSURE_CALCULATION_TOLERANCE,
         )
 
-- 
2.43.0


From 228c4ee2b26ff5c0316b9b0d3f115656476f6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:08 +0000
Subject: [PATCH 34/47] fix: train capacity returned by FeasibilitySolver is
 feasible

---
 .../process/process_solver/feasibility_solver.py    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/process/process_solver/feasibility_solver.py b/src/libecalc/process/process_solver/feasibility_solver.py
index a2ca9b1..1e55ff6 100644
--- a/src/libecalc/process/process_solver/feasibility_solver.py
+++ b/src/libecalc/process/process_solver/feasibility_solver.py
@@ -58,14 +58,13 @@ class FeasibilitySolver:
         upper_bound_sm3_per_day: float,
     ) -> float:
         boundary = Boundary(min=0.0, max=upper_bound_sm3_per_day)
+
+        def probe(rate: float) -> BisectResult:
+            feasible = self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure)
+            return BisectResult(higher=feasible, accepted=feasible)
+
         try:
-            return self._search_strategy.search(
-                boundary=boundary,
-                func=lambda rate: BisectResult(
-                    higher=self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure),
-                    accepted=True,
-                ),
-            )
+            return self._search_strategy.search(boundary=boundary, func=probe)
         except DidNotConvergeError:
             return 0.0
 
-- 
2.43.0


From 76024b8d3e7e7da8d7eabaa57c1e149e57c8c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:08 +0000
Subject: [PATCH 35/47] fix: rates of common stream items follow the item, not
 the priority order

---
 .../process/stream_distribution/common_stream_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 71b0aef..045bf4b 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -66,7 +66,9 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
         adjusted_rates: dict[T, float] = {}
-        for item_id, rate in zip(self._get_sorted_items(), self._rates, strict=True):
+        rates = dict(zip(self._items, self._rates, strict=True))
+        for item_id in self._get_sorted_items():
+            rate = rates[item_id]
             overflow = self._get_overflow_out(item_id)
             overflow_rate = sum(overflow_map[item_id])
             current_rate = rate + overflow_rate
-- 
2.43.0


From adaefcaf8862210db949d8af9f6d8451964f8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:23 +0000
Subject: [PATCH 36/47] fix: number of stages of a train with unknown stages

A ratio that is a power of MAXIMUM_PRESSURE_RATIO_PER_STAGE got a stage too many by rounding,
a ratio of 1 gave no stages, and a timestep without gas or pressures (0) failed when it came first.
---
 .../yaml/mappers/simplified_train_mapping_utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
index 0a35293..a264aba 100644
--- a/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
+++ b/src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py
@@ -74,8 +74,16 @@ def calculate_number_of_stages(
         List of prepared CompressorTrainStage objects with charts
     """
     # Calculate number of stages needed based on maximum pressure ratio
-    pressure_ratios = discharge_pressures / suction_pressures
-    maximum_train_pressure_ratio = max(pressure_ratios)
+    # Timesteps without gas may have no pressures (0)
+    pressure_ratios = [
+        discharge_pressure / suction_pressure
+        for suction_pressure, discharge_pressure in zip(suction_pressures, discharge_pressures)
+        if suction_pressure > 0
+    ]
+    maximum_train_pressure_ratio = max(pressure_ratios, default=1.0)
+    if maximum_train_pressure_ratio <= 1:
+        return 1
 
     x = math.log(maximum_train_pressure_ratio) / math.log(maximum_pressure_ratio_per_stage)
-    return math.ceil(x)
+    # Do not add a stage because of rounding when the ratio is a power of the maximum ratio per stage
+    return max(1, math.ceil(x - 1e-9))
-- 
2.43.0


From cb27aac7c3737533be898549ff61bf3458e036e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 37/47] fix: refuse an outlet constraint when the last unit
 already has one

---
 .../presentation/yaml/mappers/process/process_partitioner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
index 5e6cdc7..c8ae9f4 100644
--- a/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
+++ b/src/libecalc/presentation/yaml/mappers/process/process_partitioner.py
@@ -70,6 +70,11 @@ class ProcessPartitioner:
             current_units = []
 
         if terminal_constraint is not None:
+            if not current_units:
+                raise EcalcValidationException(
+                    "A constraint cannot target the process pipeline outlet when the last process unit already has "
+                    "a constraint."
+                )
             sections.append(
                 MappedSection(
                     process_units=current_units,
-- 
2.43.0


From 75a33f59c2ebb764b7a5ad081e3ae74f4fefb41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 38/47] fix: pump at rest delivers its inlet pressure

---
 src/libecalc/process/pump/pump_process_simulation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/process/pump/pump_process_simulation.py b/src/libecalc/process/pump/pump_process_simulation.py
index c9baed2..f1cc58e 100644
--- a/src/libecalc/process/pump/pump_process_simulation.py
+++ b/src/libecalc/process/pump/pump_process_simulation.py
@@ -237,9 +237,13 @@ class PumpProcessSimulation(Entity[PumpProcessSimulationId]):
             pump_result.operational_discharge_pressure_bara
         )
         delivered_stream_before_choke = requested_stream.with_pressure(pump_result.operational_discharge_pressure_bara)
-        delivered_pressure_bara = min(
-            pump_result.operational_discharge_pressure_bara,
-            pump_result.required_discharge_pressure_bara,
+        delivered_pressure_bara = (
+            min(
+                pump_result.operational_discharge_pressure_bara,
+                pump_result.required_discharge_pressure_bara,
+            )
+            if requested_stream.mass_rate_kg_per_h > 0
+            else pump_result.operational_discharge_pressure_bara
         )
         delivered_stream_after_choke = requested_stream.with_pressure(delivered_pressure_bara)
 
-- 
2.43.0


From d4028654768664056459ed295427ddc3943f4ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 39/47] fix: constraint of a section that is not the last
 targets its last unit

---
 .../yaml/mappers/process_simulation_mapper.py          | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 17a9239..0667e0f 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -436,12 +436,10 @@ class ProcessSimulationMapper:
                 zip(process_pipeline_sections, mapped_sections, assembled_sections, strict=True)
             ):
                 # For the first n-1 sections, we put it at the last unit, for the nth section we put it before the outlet unit
-                constraint_position = -2
-                if nr == len(process_pipeline_sections):
-                    constraint_position = -1
-                target_process_unit_id = pipeline_section.get_process_units()[
-                    constraint_position
-                ].get_id()  # The last unit is the outlet, so we take the one before that
+                constraint_position = -1
+                if nr == len(process_pipeline_sections) - 1:
+                    constraint_position = -2  # The last unit is the outlet, so we take the one before that
+                target_process_unit_id = pipeline_section.get_process_units()[constraint_position].get_id()
                 # TODO: The mapped_section.target_process_unit_id is incorrect, as that is before we apply ASV and Pressure Control ...
                 try:
                     constraint = Constraint(
-- 
2.43.0


From bda26233f8eb6bd6b2ad53b7cbb912f9a15eabb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 40/47] fix: refuse pipeline events that change an unknown unit

---
 .../yaml/mappers/process_simulation_mapper.py            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
index 0667e0f..c81dd76 100644
--- a/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py
@@ -258,6 +258,13 @@ class ProcessSimulationMapper:
                     f"Pipeline event '{yaml_event.ref}' does not match any known process event."
                 )
 
+            change_target = unit_name_to_id.get(yaml_event.change_target)
+            if change_target is None:
+                raise EcalcValidationException(
+                    f"Pipeline event CHANGE_TARGET '{yaml_event.change_target}' does not refer to a unit in process "
+                    f"pipeline '{yaml_pipeline.name}'."
+                )
+
             if (change_to_yaml_process_unit := self._reference_service.get_process_unit(yaml_event.change_to)) is None:
                 raise EcalcValidationException(
                     f"Pipeline event CHANGE_TO '{yaml_event.change_to}' does not refer to a known process unit."
@@ -274,7 +281,7 @@ class ProcessSimulationMapper:
             events.append(
                 PipelineEvent(
                     action=PipelineEventAction(yaml_event.type.value),
-                    change_target=unit_name_to_id[yaml_event.change_target],
+                    change_target=change_target,
                     change_to=change_to_unit,
                     change_type=PipelineEventChangeType(yaml_event.change_type.value),
                     change_time=ecalc_event.start,
-- 
2.43.0


From f18fffd7095a0089daa436e4fac8ad829fdfd0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:01 +0000
Subject: [PATCH 41/47] fix: refuse dated values whose dates are out of order

---
 src/libecalc/common/temporal_model.py         | 40 +++++--------------
 src/libecalc/common/time_utils.py             | 36 ++++++++++++++++-
 .../yaml/mappers/component_mapper.py          | 30 +++++++-------
 3 files changed, 58 insertions(+), 48 deletions(-)

diff --git a/src/libecalc/common/temporal_model.py b/src/libecalc/common/temporal_model.py
index db347d5..ba4f570 100644
--- a/src/libecalc/common/temporal_model.py
+++ b/src/libecalc/common/temporal_model.py
@@ -3,39 +3,17 @@ from dataclasses import dataclass
 from datetime import datetime
 from typing import Self, TypeVar
 
-from libecalc.common.time_utils import Period, define_time_model_for_period
+from libecalc.common.time_utils import (
+    InvalidKeys,
+    InvalidTemporalModel,
+    Period,
+    UnsortedKeys,
+    define_time_model_for_period,
+)
 
-ModelType = TypeVar("ModelType")
-
-
-class InvalidTemporalModel(Exception): ...
-
-
-def _get_key_string(key: datetime | Period):
-    if isinstance(key, datetime):
-        return str(datetime)
-    else:
-        return str(key.start)
-
-
-def _get_keys_message(keys: list[datetime | Period]) -> str:
-    return ",".join(f"'{_get_key_string(key)}'" for key in keys)
+__all__ = ["InvalidKeys", "InvalidTemporalModel", "Model", "TemporalModel", "UnsortedKeys"]
 
-
-class InvalidKeys(InvalidTemporalModel):
-    def __init__(self, keys: list[datetime | Period]):
-        # Message to user, only mention dates since we don't take Periods as input
-        super().__init__(
-            f"All keys must be dates on the format 'YYYY-MM-DD', e.g. '1969-12-23'. Got {_get_keys_message(keys)}."
-        )
-
-
-class UnsortedKeys(InvalidTemporalModel):
-    def __init__(self, keys: list[datetime | Period]):
-        # Message to user, only mention dates since we don't take Periods as input
-        super().__init__(
-            f"Dates in a temporal model should be sorted with the earliest date first. Got {_get_keys_message(keys)}"
-        )
+ModelType = TypeVar("ModelType")
 
 
 @dataclass
diff --git a/src/libecalc/common/time_utils.py b/src/libecalc/common/time_utils.py
index ac75498..229d21d 100644
--- a/src/libecalc/common/time_utils.py
+++ b/src/libecalc/common/time_utils.py
@@ -10,6 +10,7 @@ import numpy as np
 import pandas as pd
 from numpy.typing import ArrayLike, NDArray
 
+from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
 from libecalc.common.errors.exceptions import (
     InvalidDateException,
     ProgrammingError,
@@ -213,6 +214,36 @@ class Periods:
         return Period(self.periods[0].start, self.periods[-1].end)
 
 
+class InvalidTemporalModel(EcalcValidationException): ...
+
+
+def _get_key_string(key: datetime | Period):
+    if isinstance(key, datetime):
+        return str(key)
+    else:
+        return str(key.start)
+
+
+def _get_keys_message(keys: list[datetime | Period]) -> str:
+    return ",".join(f"'{_get_key_string(key)}'" for key in keys)
+
+
+class InvalidKeys(InvalidTemporalModel):
+    def __init__(self, keys: list[datetime | Period]):
+        # Message to user, only mention dates since we don't take Periods as input
+        super().__init__(
+            f"All keys must be dates on the format 'YYYY-MM-DD', e.g. '1969-12-23'. Got {_get_keys_message(keys)}."
+        )
+
+
+class UnsortedKeys(InvalidTemporalModel):
+    def __init__(self, keys: list[datetime | Period]):
+        # Message to user, only mention dates since we don't take Periods as input
+        super().__init__(
+            f"Dates in a temporal model should be sorted with the earliest date first. Got {_get_keys_message(keys)}"
+        )
+
+
 def define_time_model_for_period(time_model_data: Any | None, target_period: Period) -> dict[Period, Any] | None:
     """Process time model based on the target period.
 
@@ -400,7 +431,10 @@ def default_temporal_model(data: Any, default_period: Period) -> dict[Period, An
     elif is_temporal_model(data):
         # Already a temporal model dictionary. Convert all keys to periods if they are dates
         if isinstance(next(iter(data)), date):
-            _dates = [convert_date_to_datetime(key) for key in data.keys()] + [datetime.max.replace(microsecond=0)]
+            _dates = [convert_date_to_datetime(key) for key in data.keys()]
+            if _dates != sorted(_dates):
+                raise UnsortedKeys(keys=_dates)
+            _dates.append(datetime.max.replace(microsecond=0))
             return {
                 Period(start=start_date, end=end_date): value
                 for start_date, end_date, value in zip(_dates[:-1], _dates[1:], data.values())
diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 16a5fd8..977932c 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -285,11 +285,10 @@ class EcalcModelMapper:
         except (InvalidReferenceException, MissingFuelReference, InvalidTemporalModel) as e:
             raise ModelValidationException(errors=[self._create_error(str(e), specific_path=fuel_yaml_path)]) from e
 
-        generator_set_model_data = define_time_model_for_period(
-            data.electricity2fuel, target_period=self._target_period
-        )
-
         try:
+            generator_set_model_data = define_time_model_for_period(
+                data.electricity2fuel, target_period=self._target_period
+            )
             generator_set_model = TemporalModel(
                 {
                     start_time: self._create_generator_set_model(model_reference)
@@ -465,21 +464,20 @@ class EcalcModelMapper:
         self, data: YamlElectricityConsumer | YamlFuelConsumer, id: uuid.UUID, yaml_path: YamlPath, defaults: Defaults
     ) -> FuelConsumerComponent | ElectricityConsumer | None:
         assert defaults.regularity is not None
-        energy_usage_model_mapper = ConsumerFunctionMapper(
-            configuration=self._configuration,
-            resources=self._resources,
-            references=self._references,
-            target_period=self._target_period,
-            expression_evaluator=self._expression_evaluator,
-            regularity=defaults.regularity,
-            energy_usage_model=data.energy_usage_model,
-            mapping_context=self._mapping_context,
-            consumer_id=id,
-        )
-
         consumes = ConsumptionType.ELECTRICITY if isinstance(data, YamlElectricityConsumer) else ConsumptionType.FUEL
 
         try:
+            energy_usage_model_mapper = ConsumerFunctionMapper(
+                configuration=self._configuration,
+                resources=self._resources,
+                references=self._references,
+                target_period=self._target_period,
+                expression_evaluator=self._expression_evaluator,
+                regularity=defaults.regularity,
+                energy_usage_model=data.energy_usage_model,
+                mapping_context=self._mapping_context,
+                consumer_id=id,
+            )
             energy_usage_model = energy_usage_model_mapper.from_yaml_to_dto(
                 consumes=consumes,
             )
-- 
2.43.0


From e34ae1de6a27f46402d346f64060d61e03026ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 42/47] fix: report invalid columns of input files as
 validation errors

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py    | 3 ++-
 .../presentation/yaml/mappers/consumer_function_mapper.py     | 4 ++--
 src/libecalc/presentation/yaml/mappers/facility_input.py      | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 977932c..1cc00cf 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -7,6 +7,7 @@ from pydantic import ValidationError
 from libecalc.common.component_type import ComponentType
 from libecalc.common.consumption_type import ConsumptionType
 from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
+from libecalc.common.errors.exceptions import InvalidResourceException
 from libecalc.common.temporal_model import InvalidTemporalModel, TemporalModel
 from libecalc.common.time_utils import Period, define_time_model_for_period
 from libecalc.common.variables import ExpressionEvaluator
@@ -261,7 +262,7 @@ class EcalcModelMapper:
                 name=model.name,
                 resource=resource,
             )
-        except EcalcValidationException as e:
+        except (EcalcValidationException, InvalidResourceException) as e:
             raise ModelValidationException(
                 errors=[self._create_reference_error(message=str(e), reference=reference)]
             ) from e
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 1aae63b..6a5ceca 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -884,7 +884,7 @@ class CompressorModelMapper:
                 return self._create_compressor_sampled(model, reference), None
             else:
                 assert_never(model)
-        except EcalcValidationException as e:
+        except (EcalcValidationException, InvalidResourceException) as e:
             raise ModelValidationException(errors=[self._create_error(str(e), reference=reference)]) from e
 
 
@@ -937,7 +937,7 @@ class TabularModelMapper:
                 headers=resource_headers,
                 data=resource_data,
             )
-        except EcalcValidationException as e:
+        except (EcalcValidationException, InvalidResourceException) as e:
             raise ModelValidationException(errors=[self._create_error(str(e), reference=reference)]) from e
 
 
diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index f87a56c..b3054d0 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,4 @@
-from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.errors.exceptions import HeaderNotFoundException
 from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
@@ -14,7 +14,7 @@ from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model im
 def _get_float_column_or_none(resource: Resource, header: str) -> list[float] | None:
     try:
         return resource.get_float_column(header)
-    except InvalidResourceException:
+    except HeaderNotFoundException:
         return None
 
 
-- 
2.43.0


From ca083aa0a28240a8c1b7394a7392406b56ccb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:55 +0000
Subject: [PATCH 43/47] fix: refuse tabulated consumers whose variables are not
 those of the table

---
 .../presentation/yaml/mappers/consumer_function_mapper.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 6a5ceca..49346ae 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -1099,6 +1099,13 @@ class ConsumerFunctionMapper:
         if consumes != energy_usage_type_as_consumption_type:
             raise InvalidConsumptionType(actual=energy_usage_type_as_consumption_type, expected=consumes)
 
+        variable_names = {variable.name for variable in model.variables}
+        if variable_names != set(energy_model.required_variables):
+            raise EcalcValidationException(
+                f"Variables must correspond to the columns of '{model.energy_function}'. "
+                f"Got {', '.join(sorted(variable_names))}, expected {', '.join(sorted(energy_model.required_variables))}."
+            )
+
         power_loss_factor_expression = TimeSeriesExpression(
             expression=model.power_loss_factor, expression_evaluator=period_evaluator
         )
-- 
2.43.0


From 5b66e924f6fd346e6a9b6e5b92fff5d26ddfd426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 44/47] fix: refuse consumer systems whose settings lack rates
 or cross over to unknown consumers

---
 ...yaml_energy_usage_model_consumer_system.py | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
index 8c5bac0..ef4336e 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
@@ -1,3 +1,4 @@
+from collections.abc import Sequence
 from typing import Literal
 
 from pydantic import Field, field_validator, model_validator
@@ -98,6 +99,29 @@ class YamlPumpSystemOperationalSettings(YamlCompressorSystemOperationalSetting):
     )
 
 
+def _validate_operational_settings(
+    operational_settings: Sequence[YamlCompressorSystemOperationalSetting],
+    number_of_consumers: int,
+    total_system_rate: YamlExpressionType,
+) -> None:
+    """Validate that the rates can be found for each operational setting, and that crossovers are to known consumers."""
+    if len(operational_settings) == 0:
+        raise ValueError("At least one operational setting must be specified.")
+
+    for setting_num, setting in enumerate(operational_settings, start=1):
+        if setting.rates is None and setting.rate_fractions is None:
+            raise ValueError(f"Operational setting {setting_num}: One of RATES or RATE_FRACTIONS must be specified.")
+
+        if setting.rate_fractions is not None and total_system_rate is None:
+            raise ValueError(f"Operational setting {setting_num}: RATE_FRACTIONS requires TOTAL_SYSTEM_RATE.")
+
+        if any(not 0 <= consumer <= number_of_consumers for consumer in setting.crossover or []):
+            raise ValueError(
+                f"Operational setting {setting_num}: CROSSOVER must be 0 or the number of a consumer in the system, "
+                f"got {setting.crossover}."
+            )
+
+
 class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
     type: Literal["COMPRESSOR_SYSTEM"] = Field(
         ...,
@@ -168,6 +192,9 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
         discharge pressures as there are compressors in the system.
         """
         num_compressors = len(self.compressors)
+        _validate_operational_settings(
+            self.operational_settings, number_of_consumers=num_compressors, total_system_rate=self.total_system_rate
+        )
 
         for i, setting in enumerate(self.operational_settings):
             setting_num = i + 1  # 1-indexed for user-facing error messages
@@ -264,6 +291,9 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
         discharge pressures, and fluid densities as there are pumps in the system.
         """
         num_pumps = len(self.pumps)
+        _validate_operational_settings(
+            self.operational_settings, number_of_consumers=num_pumps, total_system_rate=self.total_system_rate
+        )
 
         for i, setting in enumerate(self.operational_settings):
             setting_num = i + 1  # 1-indexed for user-facing error messages
-- 
2.43.0


From 0bd67b5a38010e3b8de511b312dc5609103303a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 45/47] fix: refuse fluids whose composition has no gas

---
 .../presentation/yaml/mappers/fluid_mapper.py | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/fluid_mapper.py b/src/libecalc/presentation/yaml/mappers/fluid_mapper.py
index d34871b..ddeeb84 100644
--- a/src/libecalc/presentation/yaml/mappers/fluid_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/fluid_mapper.py
@@ -1,3 +1,4 @@
+import dataclasses
 from typing import assert_never
 
 from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
@@ -121,22 +122,22 @@ def composition_fluid_model_mapper(
     eos_model_type = model_config.eos_model
     eos_model = _eos_model_mapper.get(eos_model_type)  # type: ignore[arg-type]
     assert eos_model is not None, f"EOS model type {eos_model_type} not supported"
-    return FluidModel(
-        eos_model=eos_model,
-        composition=FluidComposition(
-            water=user_defined_composition.water,
-            nitrogen=user_defined_composition.nitrogen,
-            CO2=user_defined_composition.CO2,
-            methane=user_defined_composition.methane,
-            ethane=user_defined_composition.ethane,
-            propane=user_defined_composition.propane,
-            i_butane=user_defined_composition.i_butane,
-            n_butane=user_defined_composition.n_butane,
-            i_pentane=user_defined_composition.i_pentane,
-            n_pentane=user_defined_composition.n_pentane,
-            n_hexane=user_defined_composition.n_hexane,
-        ),
+    composition = FluidComposition(
+        water=user_defined_composition.water,
+        nitrogen=user_defined_composition.nitrogen,
+        CO2=user_defined_composition.CO2,
+        methane=user_defined_composition.methane,
+        ethane=user_defined_composition.ethane,
+        propane=user_defined_composition.propane,
+        i_butane=user_defined_composition.i_butane,
+        n_butane=user_defined_composition.n_butane,
+        i_pentane=user_defined_composition.i_pentane,
+        n_pentane=user_defined_composition.n_pentane,
+        n_hexane=user_defined_composition.n_hexane,
     )
+    if not any(dataclasses.asdict(composition).values()):
+        raise EcalcValidationException("At least one component of the composition must be above zero.")
+    return FluidModel(eos_model=eos_model, composition=composition)
 
 
 def fluid_definition_mapper(
-- 
2.43.0


From ac0e1ffd24139a2955a113021d2d349186785499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 46/47] fix: refuse compressor trains whose charts, streams,
 rates or pressures are missing or do not match

---
 .../process/compressor/core/train/base.py     |  2 +
 .../mappers/charts/user_defined_chart_data.py | 12 +++-
 .../yaml/mappers/consumer_function_mapper.py  | 63 +++++++++++++++++--
 .../models/yaml_compressor_trains.py          |  5 +-
 4 files changed, 74 insertions(+), 8 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index eb30937..ea086ff 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -49,6 +49,8 @@ class CompressorTrainModel(ABC):
         calculate_max_rate: bool | None = False,
         stage_number_interstage_pressure: int | None = None,
     ):
+        if len(stages) == 0:
+            raise EcalcValidationException("A compressor train must have at least one stage.")
         self.energy_usage_adjustment_constant = energy_usage_adjustment_constant
         self.energy_usage_adjustment_factor = energy_usage_adjustment_factor
         self.stages = stages
diff --git a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
index e904d41..3abe1ea 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
@@ -88,8 +88,16 @@ class UserDefinedChartData(ChartData):
         else:
             resource_headers = resource.get_headers()
 
-            if "SPEED" not in resource_headers:
-                raise InvalidColumnException(message="Resource is missing SPEED header!", header="SPEED")
+            for required_header in (
+                EcalcYamlKeywords.consumer_chart_speed,
+                EcalcYamlKeywords.consumer_chart_rate,
+                EcalcYamlKeywords.consumer_chart_head,
+                EcalcYamlKeywords.consumer_chart_efficiency,
+            ):
+                if required_header not in resource_headers:
+                    raise InvalidColumnException(
+                        message=f"Resource is missing {required_header} header!", header=required_header
+                    )
 
             resource_data = []
             for header in resource_headers:
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 49346ae..585a792 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -149,6 +149,7 @@ from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains import
 )
 from libecalc.presentation.yaml.yaml_types.models.yaml_fluid import YamlCompositionFluidModel, YamlPredefinedFluidModel
 from libecalc.presentation.yaml.yaml_types.yaml_temporal_model import YamlTemporalModel
+from libecalc.process.fluid_stream.exceptions import InvalidFluidCompositionException
 from libecalc.process.fluid_stream.fluid_model import FluidModel
 from libecalc.process.fluid_stream.fluid_service import FluidService
 from libecalc.process.process_units.choke import Choke
@@ -295,6 +296,30 @@ def _get_stream_indices_in_port_order(
     return inlets[:1] + [index for index in stream_indices if index not in inlets[:1]]
 
 
+def _validate_multiple_streams(model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures) -> None:
+    stream_names = [stream.name for stream in model.streams]
+    if len(set(stream_names)) != len(stream_names):
+        raise EcalcValidationException("Stream names must be unique.")
+
+    connected_streams = [stream_name for stage in model.stages for stream_name in stage.stream or []]
+    for stream_name in connected_streams:
+        if stream_name not in stream_names:
+            raise EcalcValidationException(f"Stream '{stream_name}' is not defined.")
+    for stream_name in stream_names:
+        if connected_streams.count(stream_name) != 1:
+            raise EcalcValidationException(f"Stream '{stream_name}' must be connected to exactly one stage.")
+
+    if len(model.stages) > 0:
+        first_stage = model.stages[0]
+        ingoing_streams = {
+            stream.name for stream in model.streams if isinstance(stream, YamlMultipleStreamsStreamIngoing)
+        }
+        if ingoing_streams.isdisjoint(first_stage.stream or []):
+            raise EcalcValidationException("An ingoing stream is required for the first stage.")
+        if first_stage.interstage_control_pressure is not None:
+            raise EcalcValidationException("INTERSTAGE_CONTROL_PRESSURE cannot be used on the first stage.")
+
+
 class CompressorModelMapper:
     def __init__(self, resources: Resources, reference_service: ReferenceService, configuration: YamlValidator):
         self._reference_service = reference_service
@@ -348,7 +373,7 @@ class CompressorModelMapper:
                     self._reference_service.get_yaml_path(reference).keys
                 ),
             ) from ve
-        except EcalcValidationException as e:
+        except (EcalcValidationException, InvalidFluidCompositionException) as e:
             raise ModelValidationException(errors=[self._create_error(str(e), reference)]) from e
 
     def _get_compressor_chart(
@@ -357,7 +382,11 @@ class CompressorModelMapper:
         control_margin: float | None,
     ) -> ChartData:
         model = self._reference_service.get_compressor_chart(reference)
-        assert isinstance(model, YamlSingleSpeedChart | YamlVariableSpeedChart)  # Generic charts are handled separately
+        if not isinstance(model, YamlSingleSpeedChart | YamlVariableSpeedChart):
+            raise EcalcValidationException(
+                f"{model.chart_type.value} compressor chart '{reference}' is only supported for "
+                f"{EcalcYamlKeywords.models_type_compressor_train_simplified}."
+            )
         try:
             if isinstance(model, YamlSingleSpeedChart):
                 return single_speed_compressor_chart_mapper(
@@ -724,6 +753,7 @@ class CompressorModelMapper:
     def _create_variable_speed_compressor_train_multiple_streams_and_pressures(
         self, model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures
     ) -> tuple[CompressorTrainCommonShaft, list[FluidModel | None]]:
+        _validate_multiple_streams(model)
         stream_references = {stream.name for stream in model.streams}
 
         shaft = VariableSpeedShaft()
@@ -796,6 +826,8 @@ class CompressorModelMapper:
 
         if not any(fluid_models):
             raise EcalcValidationException("An inlet stream is required for this model.")
+        if len({fluid_model.eos_model for fluid_model in fluid_models if fluid_model is not None}) > 1:
+            raise EcalcValidationException("All ingoing streams must have fluid models with the same EOS model.")
 
         interstage_pressures = {i for i, stage in enumerate(stages) if stage.has_control_pressure}
         stage_number_interstage_pressure = interstage_pressures.pop() if interstage_pressures else None
@@ -1233,6 +1265,13 @@ class ConsumerFunctionMapper:
             else None
         )
 
+        assert isinstance(fluid_models, list)
+        if len(model.rate_per_stream) != len(fluid_models):
+            raise EcalcValidationException(
+                f"RATE_PER_STREAM must have a rate for each of the {len(fluid_models)} streams of "
+                f"'{model.compressor_train_model}', got {len(model.rate_per_stream)} rates."
+            )
+
         rates_per_stream: list[TimeSeriesFlowRate] = [
             ExpressionTimeSeriesFlowRate(
                 time_series_expression=TimeSeriesExpression(
@@ -1274,13 +1313,25 @@ class ConsumerFunctionMapper:
             else None
         )
 
+        compressor_train = (
+            compressor_train_model.compressor_model
+            if isinstance(compressor_train_model, CompressorWithTurbineModel)
+            else compressor_train_model
+        )
+        assert isinstance(compressor_train, CompressorTrainModel)
+        has_interstage_pressure = any(stage.has_control_pressure for stage in compressor_train.stages)
+        if has_interstage_pressure != (interstage_control_pressure is not None):
+            raise EcalcValidationException(
+                f"INTERSTAGE_CONTROL_PRESSURE is {'required' if has_interstage_pressure else 'not supported'} for "
+                f"'{model.compressor_train_model}'."
+            )
+
         validate_pressures(
             suction_pressure=suction_pressure,
             discharge_pressure=discharge_pressure,
             intermediate_pressure=interstage_control_pressure,
         )
 
-        assert fluid_models is not None
         evaluation_input = CompressorEvaluationInput(
             rate=rates_per_stream,
             fluid_model=fluid_models,
@@ -1394,7 +1445,11 @@ class ConsumerFunctionMapper:
                 ecalc_component=component, compressor_sampled=compressor_model
             )
         else:
-            assert suction_pressure is not None and discharge_pressure is not None and fluid_model is not None
+            if suction_pressure is None or discharge_pressure is None:
+                raise EcalcValidationException(
+                    f"SUCTION_PRESSURE and DISCHARGE_PRESSURE are required for compressor train '{model.energy_function}'."
+                )
+            assert fluid_model is not None
             evaluation_input = CompressorEvaluationInput(
                 rate=stream_day_rate,
                 fluid_model=fluid_model,
diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
index 8d54650..1ac2011 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
@@ -174,9 +174,10 @@ class YamlSimplifiedVariableSpeedCompressorTrain(YamlCompressorTrainBase):
             else:
                 # Unknown compressor stages
                 compressor_chart = info.context["model_types"][train.compressor_chart]
-                if compressor_chart.chart_type not in allowed_charts_simplified_trains:
+                chart_type = getattr(compressor_chart, "chart_type", None)
+                if chart_type not in allowed_charts_simplified_trains:
                     raise ValueError(
-                        f"{compressor_chart.chart_type} compressor chart is not supported for {self.type}. "
+                        f"{chart_type or compressor_chart.type} compressor chart is not supported for {self.type}. "
                         f"Allowed charts are {', '.join(allowed_charts_simplified_trains)}."
                     )
         return self
-- 
2.43.0


From b59c17d7238676e665213edc8689c71a5ab5811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:25 +0000
Subject: [PATCH 47/47] fix: maximum rate at a power limit when only later
 stages are above their minimum flow

---
 .../train/compressor_train_common_shaft.py    | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 27aae0c..8c46c3e 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -620,19 +620,27 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 # iterate between rate with minimum power, and the previously found rate to return, to find the
                 # maximum rate that gives power consumption below maximum power
 
+                power_target = maximum_power * (1 - POWER_CALCULATION_TOLERANCE)
+
+                def _power_given_mass_rate(mass_rate: float) -> float:
+                    return self.evaluate_given_constraints(
+                        constraints=constraints.create_conditions_with_new_input(
+                            new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, mass_rate),
+                        )
+                    ).power_megawatt
+
+                lower_bound = result_with_minimum_rate.stage_results[0].mass_rate_asv_corrected_kg_per_hour
+                upper_bound = rate_to_return
+                if lower_bound >= upper_bound or _power_given_mass_rate(lower_bound) > power_target:
+                    # the first stage recirculates at the solution, but later stages do not
+                    lower_bound, upper_bound = EPSILON, min(lower_bound, upper_bound)
+
                 result = self._fluid_service.mass_rate_to_standard_rate(
                     fluid_model,
                     find_root(
-                        lower_bound=result_with_minimum_rate.stage_results[0].mass_rate_asv_corrected_kg_per_hour,
-                        upper_bound=rate_to_return,
-                        func=lambda x: (
-                            self.evaluate_given_constraints(
-                                constraints=constraints.create_conditions_with_new_input(
-                                    new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, x),
-                                )
-                            ).power_megawatt
-                            - maximum_power * (1 - POWER_CALCULATION_TOLERANCE)
-                        ),
+                        lower_bound=lower_bound,
+                        upper_bound=upper_bound,
+                        func=lambda x: _power_given_mass_rate(x) - power_target,
                         relative_convergence_tolerance=1e-3,
                         maximum_number_of_iterations=20,
                     ),
-- 
2.43.0

