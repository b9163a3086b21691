"""The property list.  tools/gen.py turns it into properties.jsonl and MANIFEST.json."""

PROPS = []


def P(id, title, statement, qover, qtext, why, files, mech, note, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, qover=qover, qtext=qtext, why=why, files=files,
                      mech=mech, note=note, na=na))


P("C01", "Periods and dated definitions select exactly the right time",
  "A period contains exactly the instants from its start up to but not including its end; intersection, containment, duration, index lookup and sub-selection of periods agree with that, and a list of dates becomes contiguous, non-overlapping periods. A definition given per date applies from its date until the next one, clipped to the requested span, with exactly one definition in force at each covered instant and none outside; dates out of order are rejected.",
  ["inputs", "configurations"], "every choice of dates (second resolution, 40 years), every target period and query instant, 1-4 dates",
  "boundary instants and relative orders of dates are unbounded combinations; tests use a handful of year starts",
  ["src/libecalc/common/time_utils.py", "src/libecalc/common/temporal_model.py"],
  [("Period / Periods", "src/libecalc/common/time_utils.py"), ("TemporalModel, define_time_model_for_period", "src/libecalc/common/temporal_model.py, src/libecalc/common/time_utils.py")],
  "dates are symbolic integers (seconds); up to 4 dates per harness")

P("C02", "Calendar-day and stream-day rates convert and add consistently",
  "For every rate, regularity and period the calendar-day rate equals the stream-day rate times the regularity of the same period (a zero regularity gives a zero stream-day rate), and the two conversions are inverse otherwise. Adding two rate series adds their rates, keeps the rate type and also adds their calendar-day equivalents; series with different unit or rate type are rejected.",
  ["inputs"], "all real rates, regularities in [0,1], both rate types, up to 3 periods of any length",
  "the failing combinations (zero or unequal regularity, zero rates) are isolated points in a continuous space",
  ["src/libecalc/common/utils/rates.py"],
  [("Rates.to_calendar_day/to_stream_day", "src/libecalc/common/utils/rates.py"), ("TimeSeriesRate.__add__, from_timeseries_stream_day_rate", "src/libecalc/common/utils/rates.py")],
  "real arithmetic for floats, tolerance 1e-6 relative; 1-3 periods")

P("C03", "Volumes and cumulatives are exact integrals of the rates",
  "For every rate series the volume of a period is the calendar-day rate times the days in the period, the cumulative is the running total of the volumes (never decreasing for non-negative volumes, a missing volume adding nothing), and both can be converted back without loss. Power integrates to energy with the right unit, unit conversion commutes with integration, a ratio of volumes is the elementwise quotient (missing for a zero denominator), and filling replaces only missing values.",
  ["inputs"], "all real rates/volumes, regularities, period lengths from 1 h to 5 years, missing values at any place, 3 periods",
  "irregular period lengths, missing values and mixed regularity cannot be enumerated by tests",
  ["src/libecalc/common/utils/rates.py"],
  [("TimeSeriesRate.to_volumes, TimeSeriesVolumes.cumulative/to_rate, TimeSeriesVolumesCumulative.to_volumes", "src/libecalc/common/utils/rates.py")],
  "period lengths symbolic; 1-3 periods; real arithmetic")

P("C04", "Resampling conserves volume and keeps values in force",
  "Resampling a rate or volume series to a coarser or finer calendar frequency yields periods that follow that frequency, and the volume of every resampled period equals the volume of the original series over it (for stream-day rates the stream-day volume), so that nothing is lost or counted twice. A resampled point value is the one in force at the start of the resampled period, and a resampled validity flag is true only if all overlapped flags are; asking for no resampling leaves the series unchanged.",
  ["inputs", "configurations"], "all real values and regularities on 4 irregular calendars x year/month/day-like frequencies x include-start/end flags",
  "the error appears only for values that start between new dates, partial first/last periods or unequal regularity",
  ["src/libecalc/common/utils/rates.py", "src/libecalc/common/time_utils.py"],
  [("TimeSeriesRate.resample, TimeSeriesVolumes.resample, TimeSeries.resample", "src/libecalc/common/utils/rates.py"), ("resample_periods", "src/libecalc/common/time_utils.py")],
  "calendars are fixed (4 of them), values symbolic; pandas resampling replaced by an equivalent shim, witnesses replayed on real pandas")

P("C05", "Unit conversion preserves the physical quantity",
  "Every offered conversion between two units preserves the physical quantity, round trips give back the value, chained conversions agree with the direct one, and units of different kind cannot be converted. Lists, arrays and time series convert elementwise, carry the new unit and leave the original untouched, and the rate unit and volume unit of a quantity are each other's inverse.",
  ["inputs"], "every ordered pair and triple of units and every real value",
  "tests sample a few pairs and values; the guarantee is for all pairs and all values",
  ["src/libecalc/common/units.py", "src/libecalc/common/utils/rates.py"],
  [("Unit.to, UnitConstants", "src/libecalc/common/units.py"), ("TimeSeries.to_unit", "src/libecalc/common/utils/rates.py")],
  "all units enumerated, values symbolic in [-1e12,1e12]; reference factors written from SI definitions and the documented oil-field constants")

P("C06", "Expressions evaluate by the documented operator rules",
  "An expression evaluates elementwise over the periods with power before multiplication/division before addition/subtraction before comparisons, left-associative (power right-associative), parentheses overriding; comparisons give 0 or 1, 0/0 gives 0, and numbers fill every period. Printing and parsing again keeps the meaning, multiplying two expressions multiplies their values, and a malformed expression or missing reference is rejected rather than evaluated to something else.",
  ["inputs", "programs"], "all operator pairs (triples for arithmetic), all parenthesisations, all real variable values",
  "the number of operator combinations and value orders is far beyond the handful of tested formulas",
  ["src/libecalc/expression/expression.py", "src/libecalc/expression/expression_tree.py", "src/libecalc/expression/expression_evaluator.py"],
  [("get_postfix, get_tree, Node.evaluate, OPERATORS", "src/libecalc/expression/expression_tree.py"), ("lexer", "src/libecalc/expression/expression_evaluator.py")],
  "expression shapes up to 3 operators; power only with literal exponent; comparison chains without parentheses excluded (undocumented)")

P("C07", "Input time series are fitted to the calculation by the documented rules",
  "A value used in a period is the one given by the time series at that period's start: RIGHT interpolation takes the next value, LEFT the last one, LINEAR the straight line between; without extrapolation values outside the series are 0, with it the nearest value is used. Each series follows its own settings, missing series are rejected, and the calculation's dates are the dates of the influencing series and the model, sorted, unique and within start and end.",
  ["inputs", "configurations"], "every choice of series dates and values (1-3 points), target dates, interpolation types and extrapolation flags",
  "the outcome depends on the relative order of dates at second resolution, which tests sample with year starts only",
  ["src/libecalc/presentation/yaml/domain/time_series_collection.py", "src/libecalc/presentation/yaml/domain/time_series_provider.py", "src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py", "src/libecalc/presentation/yaml/mappers/variables_mapper/get_global_time_vector.py"],
  [("time series fitting", "src/libecalc/presentation/yaml/mappers/variables_mapper/"), ("TimeSeriesCollection(s)", "src/libecalc/presentation/yaml/domain/")],
  "up to 3 data dates and 4 target dates, all symbolic")

P("C08", "Variables evaluate by dependency and dated expressions from their date",
  "A variable's value in every period is its expression evaluated with the values of the series and variables it refers to in that same period, whatever the order of declaration; circular or missing references are rejected. A variable or expression given per date applies from its date until the next one, whatever order the dates are written in, and selecting a sub-period gives exactly the values of that sub-period.",
  ["inputs", "configurations"], "every declaration order of up to 3 variables, every order and position of up to 3 dates, all values",
  "orders of declarations and dates are combinatorial; values in the wrong period look plausible",
  ["src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py", "src/libecalc/common/variables.py", "src/libecalc/presentation/yaml/domain/time_series_expression.py"],
  [("variables mapping", "src/libecalc/presentation/yaml/mappers/variables_mapper/"), ("VariablesMap / ExpressionEvaluator", "src/libecalc/common/variables.py")],
  "up to 3 variables / 3 dates / 3 periods")

P("C09", "Conditions, regularity, rate type and loss apply as documented",
  "In a whole model run a consumer uses energy in a period exactly when its conditions are met there; its stream-day usage is its own input, a calendar-day input is divided by regularity, power loss divides by (1 - loss), and the reported calendar-day usage is the stream-day usage times regularity. A definition per date applies from its date; regularity must lie in [0,1] and defaults to 1; a negative fuel rate is rejected unless switched off.",
  ["inputs", "configurations"], "all loads, fuel rates, regularities and condition inputs; 7 kinds of conditions x 3 rate types x loss settings; 2-3 periods",
  "each feature is tested alone; the guarantee is about every combination of features and values, zero and boundary included",
  ["src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py", "src/libecalc/presentation/yaml/domain/time_series_mask.py", "src/libecalc/domain/regularity.py", "src/libecalc/presentation/yaml/domain/expression_time_series_flow_rate.py", "src/libecalc/presentation/json_result/mapper.py"],
  [("direct consumer functions", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/"), ("Regularity", "src/libecalc/domain/regularity.py"), ("expression time series (condition, rate type, power loss)", "src/libecalc/presentation/yaml/domain/")],
  "whole model runs of the unmodified pipeline YAML -> results; 2-3 yearly periods")

P("C10", "Generator sets burn the tabulated fuel for their consumers' power",
  "A generator set delivers in every period the sum of its consumers' power and burns the fuel given by the electricity-to-fuel curve in force at that power (nothing at zero power). The capacity margin is the curve's largest power minus the demand, and the period is valid exactly when the demand is within capacity and a model is in force. Power from shore adds the cable loss to the production without changing the demand or the fuel.",
  ["inputs", "configurations"], "all loads of 1-3 consumers, any regularity, any fuel values on a curve, dated curves, 2-3 periods",
  "interpolation segments, limits and dated changes multiply; tests fix one curve and a few loads",
  ["src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_component.py", "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_model.py", "src/libecalc/presentation/yaml/mappers/component_mapper.py", "src/libecalc/presentation/json_result/mapper.py"],
  [("GeneratorSetEnergyComponent.evaluate_energy_usage", "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_component.py"), ("GeneratorSetModel", "src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_model.py")],
  "whole model runs; curves of 3-4 points; 2-3 yearly periods")

P("C11", "Emissions are fuel times factor plus the vented amounts, all counted once",
  "Each fuel emission is the fuel rate times the factor in force for the fuel in force; each vented emission is the given rate, or the oil volume times its factor, in tonnes per day, honouring conditions and rate type. Emissions of the same name add up, and the emissions and fuel of an installation and of the asset are the calendar-day sums over their emitters, each counted exactly once.",
  ["inputs", "configurations"], "all rates, factors, regularities and condition inputs; dated fuels, consumer overrides, 2 emitter types, 2 installations; 2-3 periods",
  "combinations of fuel override, dated fuels, rate types, conditions and regularity are not sampled together by tests",
  ["src/libecalc/domain/emission/", "src/libecalc/domain/infrastructure/emitters/venting_emitter.py", "src/libecalc/presentation/json_result/mapper.py", "src/libecalc/presentation/yaml/mappers/component_mapper.py"],
  [("fuel emissions", "src/libecalc/domain/emission/"), ("venting emitters", "src/libecalc/domain/infrastructure/emitters/venting_emitter.py"), ("totals", "src/libecalc/presentation/json_result/mapper.py")],
  "whole model runs; up to 3 emissions per fuel/emitter; 2-3 yearly periods")

P("C12", "Tabulated consumers interpolate their table inside its range only",
  "A tabulated consumer uses the linear interpolation of its table at the given variables, exactly the table's value at its points and a convex combination of neighbouring points between them; outside the table's range it is invalid rather than extrapolated. Variables are matched to table columns by name whatever the order, power loss and conditions apply, and mismatching variables are rejected.",
  ["inputs", "configurations"], "every value of one or two table variables, conditions, losses and rate types; tables of 3-6 points",
  "segment boundaries, range limits and column order interact; tests hit a few interior points",
  ["src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py"],
  [("TabularConsumerFunction, TabularEnergyFunction", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/")],
  "whole model runs; 1-2 variables; scipy interpolation replaced by an exact shim, witnesses replayed on real scipy")

P("C13", "Pumps need the power given by chart, head and rate, within their envelope",
  "A pump's power is density times head times rate over efficiency at its operating point: the rate raised to the minimum flow, the head raised to what the chart allows (choked). It is valid exactly when the required head (less the head margin) and rate are inside the chart; its maximum rate is where the required head meets the maximum-speed curve. Units, dated models, regularity, conditions and losses apply, and impossible pressures are rejected while pumping only.",
  ["inputs", "configurations"], "every rate, pressures, density, regularity, condition and loss; single and variable speed charts with 2 curves of 3 points",
  "the operating region has many corners (minimum flow, choke, margin, limits); tests pick a few points in each",
  ["src/libecalc/domain/process/pump/pump.py", "src/libecalc/process/pump/", "src/libecalc/domain/process/value_objects/chart/", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/"],
  [("PumpModel", "src/libecalc/domain/process/pump/pump.py"), ("Pump, PumpProcessSimulation", "src/libecalc/process/pump/"), ("Chart", "src/libecalc/domain/process/value_objects/chart/")],
  "whole model runs and the pump classes directly; charts fixed, operating points symbolic")

P("C14", "Consumer systems use the first setting with capacity, with cross-over",
  "A consumer system uses, independently in each period, the first operational setting in which every consumer is within capacity, and otherwise reports the last one as invalid; the setting used, power and the rates and pressures reported are those of that setting. With cross-over the sender keeps its maximum rate and the rest moves to the receiver if the receiver's discharge pressure is at least the sender's. Fractions, per-consumer values, conditions, losses and dated systems apply.",
  ["inputs", "configurations"], "every rate, pressure and density of 2-3 pumps, 1-3 settings and 3 cross-over patterns, over 1-3 periods",
  "which setting is used depends on several capacities at once; tests sample few combinations and never the sender exactly at its maximum",
  ["src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/", "src/libecalc/domain/process/pump/pump.py", "src/libecalc/core/result/results.py", "src/libecalc/presentation/json_result/mapper.py"],
  [("ConsumerSystemConsumerFunction", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py"), ("get_operational_settings_number_used_from_model_results", "src/libecalc/domain/infrastructure/energy_components/legacy_consumer/system/utils.py"), ("ConsumerSystemResult", "src/libecalc/core/result/results.py")],
  "whole model runs with pump systems; within 1e-5 of a chart limit nothing is asserted")

P("C15", "Installation and asset totals are the sums of their parts",
  "The electrical, mechanical and total power, fuel, emissions and hydrocarbon export of an installation are the sums over its consumers, those of the asset the calendar-day sums over its installations each with its own regularity; cumulative figures are the running calendar-day sums (power in GWh). A generator set, installation or the asset is valid in a period exactly when it and everything below it is, and missing shaft power is left out rather than making other figures wrong.",
  ["inputs", "configurations"], "all loads, fuel rates, exports and compressor rates of 6 consumers on 2-3 installations; any regularities; 2 periods",
  "totals look plausible when a part is missing, counted twice or weighted by the wrong regularity",
  ["src/libecalc/presentation/json_result/mapper.py", "src/libecalc/domain/infrastructure/energy_components/installation/installation.py", "src/libecalc/presentation/yaml/model.py", "src/libecalc/domain/hydrocarbon_export.py"],
  [("InstallationMapper, get_asset_result", "src/libecalc/presentation/json_result/mapper.py"), ("YamlModel.get_validity", "src/libecalc/presentation/yaml/model.py"), ("InstallationComponent", "src/libecalc/domain/infrastructure/energy_components/installation/installation.py")],
  "whole model runs; loads vary at given regularities and regularities at given loads")

P("C16", "Prognosis exports are the model's results summed by category",
  "The long and short term prognosis exports give, for every installation and exported period, exactly the calendar-day totals of the model's results for the categories each column covers: fuel by fuel category and consumer type, emissions by fuel category and by venting, power generated and from shore, and loading and storage. The maximum usage from shore is the largest in the period. Each result is counted in one column only, and converted to the column's unit.",
  ["inputs", "configurations"], "all fuel rates, loads, emission rates and cable losses; 2 fuels, 7 consumer categories, 2 installations; 4 calendars",
  "categories, periods that do not align with years, and units combine; a column that misses or doubles something still looks plausible",
  ["src/libecalc/presentation/exporter/", "src/libecalc/common/temporal_model.py", "src/libecalc/common/utils/rates.py"],
  [("LTPConfig, STPConfig", "src/libecalc/presentation/exporter/configs/configs.py"), ("queries", "src/libecalc/presentation/exporter/queries.py"), ("formatting, aggregation", "src/libecalc/presentation/exporter/")],
  "whole model runs followed by the real export; number formatting replaced by identity (decided by C18), replays use the real formatting")

P("C17", "Sampled compressors and turbines stay within their tabulated capacity",
  "A tabulated compressor uses the energy interpolated from its table inside its working area; below the minimum rate it recirculates and outside the area it chokes suction or discharge pressure where the documented rules let it, and is otherwise invalid. A turbine burns fuel for the adjusted load at the interpolated efficiency and is valid up to its maximum load. The maximum rate used by a cross-over is the largest the compressor and its turbine can run at, and no rate is lost.",
  ["inputs", "configurations"], "every rate, suction and discharge pressure for tables of 1, 2 and 3 variables; turbine and compressor power adjustments; cross-overs",
  "working areas have many faces and corners; a wrong projection shows only for points outside one particular face",
  ["src/libecalc/domain/process/compressor/core/sampled/", "src/libecalc/domain/infrastructure/energy_components/turbine/", "src/libecalc/domain/process/compressor/core/base.py"],
  [("CompressorModelSampled 1D/2D/3D, convex hulls", "src/libecalc/domain/process/compressor/core/sampled/"), ("CompressorWithTurbineModel", "src/libecalc/domain/process/compressor/core/base.py"), ("Turbine", "src/libecalc/domain/infrastructure/energy_components/turbine/")],
  "whole model runs; 7 concrete tables, operating points symbolic and at least 1e-5 from the limits")

P("C18", "Output files and emission intensity report the results faithfully",
  "The JSON and CSV outputs give, for every component and period at the requested frequency, the model's energy usage, power, validity, emissions and their cumulatives under the right name, unit and date, changed by rounding only: a reported number is wrong by at most half of its last decimal, whole numbers are exact and a number is 0 only below the precision. For compressors this includes each stage's results, the streams in and out, requested pressures, failures and turbine of the model in force. Emission intensity is the CO2 emitted divided by the hydrocarbons exported, cumulatively and within each year, and missing without export.",
  ["inputs", "configurations"], "every rate, load and export; numbers of any magnitude from 1e-7 to 1e9 at precisions 0-6; 2 calendars x 2 frequencies x 3 outputs",
  "rounding and resampling errors are small and depend on magnitude; tests compare snapshots",
  ["src/libecalc/common/math/numbers.py", "src/libecalc/infrastructure/file_utils.py", "src/libecalc/presentation/json_result/result/", "src/libecalc/presentation/simple_result/simple.py", "src/libecalc/domain/emission/", "src/ecalc_cli/emission_intensity.py"],
  [("Numbers.format_to_precision", "src/libecalc/common/math/numbers.py"), ("to_json, get_result_output, TabularTimeSeries", "src/libecalc/infrastructure/file_utils.py, src/libecalc/presentation/json_result/result/tabular_time_series.py"), ("EmissionIntensityCalculator, EmissionIntensity", "src/ecalc_cli/emission_intensity.py, src/libecalc/domain/emission/emission_intensity.py")],
  "whole model runs followed by the real output functions; orjson, decimal and numpy's float formatting replaced by their contracts, replays use the real ones")

P("C19", "Comparing two models gives the difference at every common instant",
  "The delta profile of two models covers exactly the time both cover, split at every date of either, and at each instant gives for every component of either model the changed model's energy usage, power and emissions less the reference's, a component or emission only one has counting as zero in the other, and is valid where both are. The models compared keep their values; models that do not overlap are rejected.",
  ["inputs", "configurations"], "every value; 12 pairs of calendars, 4 sets of components, 3 sets of emissions",
  "calendars of the two models can relate in many ways; tests have two or three pairs",
  ["src/libecalc/presentation/simple_result/simple.py", "src/libecalc/common/time_utils.py"],
  [("SimpleResultData.delta_profile", "src/libecalc/presentation/simple_result/simple.py")],
  "calendars fixed, values symbolic; up to 3 periods a model")

P("C20", "Compressor charts follow their input units and control margin",
  "A compressor chart has one curve for each speed given, ordered by speed, with points ordered by rate, heads in J/kg and efficiencies as fractions converted from the unit stated, whether the curves are given inline or as a file and in whatever order curves, points and rows come. A control margin removes that fraction of each curve's rate range from its left end and leaves every curve unchanged from there on, keeping its largest rate; the original curves stay available. A generic chart from a design point is the unified chart scaled by design rate and head, with the given efficiency everywhere.",
  ["inputs", "configurations"], "every head, efficiency, control margin in [0, 0.99], design rate and head; 1-3 curves of 3-4 points in 3 orders; every unit; inline and file",
  "the new minimum point falls in different segments, and orders and units combine; tests use sorted charts and one margin",
  ["src/libecalc/domain/process/value_objects/chart/base.py", "src/libecalc/presentation/yaml/mappers/charts/", "src/libecalc/presentation/yaml/mappers/model.py", "src/libecalc/presentation/yaml/mappers/utils.py", "src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py"],
  [("ChartCurve.adjust_for_control_margin", "src/libecalc/domain/process/value_objects/chart/base.py"), ("UserDefinedChartData", "src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py"), ("CompressorChartCreator.from_rate_and_head_design_point", "src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py")],
  "rates of the curves concrete, heads, efficiencies and margin symbolic")

P("C21", "Operating points are placed in the compressor chart as physics allows",
  "At a given speed a point is valid exactly when the speed lies within the chart (or is below it and choking is allowed) and the rate is at most the largest rate at that speed and, unless recirculation is allowed, at least the smallest; its chart area names where the rate without recirculation lies; and its head and efficiency are interpolated in the chart, along the curves and between speeds, at the rate with recirculation. A point given by rate and head is changed only by recirculation up to the minimum flow and by choking up to the minimum head, exceeds the capacity exactly when that does not bring it into the chart, and the maximum rate at a head is the limit of the chart there. Efficiency by rate and head is that of the curve on a curve and between those of the nearest points above and below elsewhere.",
  ["inputs", "configurations"], "every rate, recirculation, head and speed from zero to beyond the chart; 3 charts; choking and recirculation allowed or not",
  "the chart has many corners between its areas; tests probe a few points of each",
  ["src/libecalc/domain/process/value_objects/chart/chart.py", "src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py", "src/libecalc/domain/process/value_objects/chart/base.py"],
  [("Chart limits, efficiency_as_function_of_rate_and_head", "src/libecalc/domain/process/value_objects/chart/chart.py"), ("CompressorChart", "src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py")],
  "3 concrete charts; points at least 1e-6 of the chart from its limits when given by head; efficiencies symbolic at concrete points")

P("C22", "A fixed-speed compressor train meets its pressures inside its charts or fails",
  "A train at one speed either reports no failure, and then reaches the requested discharge pressure (within its tolerance) with every stage inside its chart and the given rate through it, or is not valid and says why. Each stage takes the previous one's gas after its pressure drop at its own inlet temperature, its head, efficiency, power and recirculation loss agree with its chart at its flow, and the train's power is the sum, adjusted. A discharge pressure that the pressure control can reach is reached: chokes only lower pressures and do not recirculate beyond the minimum flow, common recirculation gives all stages the same mass, individual recirculation the same share of capacity or equal pressure ratios. More than the maximum power or a highest discharge pressure is never accepted, and each time step is as if alone.",
  ["inputs", "configurations"], "every discharge pressure, rate (one stage), power limit and adjustment; 6 pressure controls, 1-2 stages, 3 charts, with and without pressure drops",
  "the controls behave differently in each region of rate and pressure, and need a gas model; the few tests of them use one operating point each",
  ["src/libecalc/domain/process/compressor/core/train/"],
  [("CompressorTrainCommonShaft.evaluate_given_constraints and pressure controls", "src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py"), ("CompressorTrainModel.evaluate", "src/libecalc/domain/process/compressor/core/train/base.py"), ("CompressorTrainStage.evaluate", "src/libecalc/domain/process/compressor/core/train/stage.py"), ("RateModifier", "src/libecalc/domain/process/entities/process_units/rate_modifier/rate_modifier.py")],
  "a simple gas law in place of NeqSim's; roots found by scipy replaced by their contract; concrete charts")

P("C23", "Gas enters and leaves a compressor train at its stage at the stated pressure",
  "In a train with several streams, each stream entering or leaving does so at the inlet of the stage stated, whatever order streams are listed in: every stage compresses exactly the gas of the streams that have entered less those that have left, and each stage's results, the train's power, validity and pressures agree with that. A prescribed interstage pressure is the pressure the gas has between the two stages, within the tolerance, whenever the train is valid; the part of the train that needs the higher speed sets the speed and the other part is brought to its pressure by its own pressure control. A train that cannot do so is not valid.",
  ["inputs", "configurations"], "every rate or pressure ratio; 5 pressure controls, pairs of pressure controls, 2-3 stages, streams in and out, streams declared in several orders",
  "combinations of side streams, two pressure controls and which part governs the speed; the few tests need a gas model",
  ["src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft_multiple_streams_and_pressures.py", "src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py"],
  [("CompressorTrainCommonShaftMultipleStreamsAndPressures", "src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft_multiple_streams_and_pressures.py"), ("CompressorTrainCommonShaft pressure controls", "src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py"), ("mapping of the streams", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py")],
  "a simple gas law in place of NeqSim's; roots found by scipy replaced by their contract; concrete charts")

P("C24", "Variable-speed trains run at the lowest speed that reaches the pressure",
  "A train of variable speed runs all its stages at one speed within their common range: the speed that gives the discharge pressure where one does, the lowest where less is needed, with the pressure control then bringing the pressure down, and the highest, not valid, where more is. Head, efficiency and power are those of the charts interpolated at that speed. The maximum rate of a train is the largest rate, within its tolerance, that it can run at between the pressures and within its maximum power, 0 when there is none, whatever the train was used for before.",
  ["inputs", "configurations"], "every discharge pressure, flow and maximum power; 6 pressure controls, charts of 1-3 speeds, 1-2 stages",
  "the speed search has several branches that ordinary cases do not reach, and maximum rates are tested at a few points",
  ["src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py", "src/libecalc/domain/process/compressor/core/train/base.py", "src/libecalc/domain/process/value_objects/chart/compressor/compressor_chart.py"],
  [("find_fixed_shaft_speed_given_constraints, _get_max_std_rate_single_timestep", "src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py"), ("get_max_standard_rate", "src/libecalc/domain/process/compressor/core/train/base.py")],
  "a simple gas law in place of NeqSim's; roots found by scipy replaced by their contract; concrete charts")

P("C25", "The process solver's solution, put to use, meets its target pressures",
  "A section of compressors on a shaft, with its anti-surge recirculation and pressure control, either has a solution or fails. When the configurations of the solution are put to use, the outlet pressure of each section meets its target within the tolerance, what enters leaves, and every compressor runs inside its chart at one speed of its shaft, recirculating no more than needed. A target that can be reached by speed, choking or recirculation is reached, and one that cannot fails with a failure that says why and with the pressure that can be reached. Sections on shafts of their own or on one shaft meet the target of each section, the shared shaft at the speed the most demanding section needs; equal-ratio sections get equal ratios. What a train has no capacity for is exactly what keeps it from its target. What was solved before has no effect.",
  ["inputs", "configurations"], "every target pressure and, separately, flow; 5 pressure controls, charts of 2-3 speeds, 1-2 compressors and sections, own and shared shafts, flows below, in and above the charts",
  "the searches for speed, choking and recirculation behave differently in each region, and leave state behind; the few tests need a gas model and use single operating points",
  ["src/libecalc/process/process_solver/"],
  [("PipelineSectionSolver", "src/libecalc/process/process_solver/pipeline_section_solver.py"), ("MultiPressureSolver", "src/libecalc/process/process_solver/multi_pressure_solver.py"), ("FeasibilitySolver", "src/libecalc/process/process_solver/feasibility_solver.py"), ("pressure control strategies", "src/libecalc/process/process_solver/pressure_control/"), ("anti-surge strategies", "src/libecalc/process/process_solver/anti_surge/")],
  "a simple gas law in place of NeqSim's; roots found by scipy replaced by their contract; concrete charts")

P("C26", "Process units conserve mass, and streams are shared by need and priority",
  "Mixing conserves mass, energy and each component and gives the lowest pressure, splitting shares a stream exactly, side streams enter and leave where connected, recirculation adds at the inlet what it removes at the outlet, chokes and pressure drops lower pressure by what they state and fail rather than go below nothing, temperature setters change only temperature and liquid removers only remove liquid. A common stream is shared so that all of it is distributed, no item gets more than its capacity while others have room, overflow follows the stated connections, and each item gets its own rate whatever order it is listed or ranked in; cyclic overflow is refused. Streams are distributed by priority settings as the first that is feasible. A pressure constraint is met exactly within its tolerance, and a bisection finds the last accepted point within its tolerance.",
  ["inputs", "configurations"], "every rate, pressure, share, composition, capacity and threshold; 1-3 items with every overflow; every cycle of 3; 2-3 priority settings",
  "combinations of overflow and order; tests use items in their natural order",
  ["src/libecalc/process/"],
  [("CommonStreamDistribution", "src/libecalc/process/stream_distribution/common_stream_distribution.py"), ("process units", "src/libecalc/process/process_units/"), ("Bisect, FloatConstraint", "src/libecalc/process/process_solver/search_strategies.py")],
  "a simple gas law in place of NeqSim's; at most 20 steps of bisection with 2000 paths")

P("C27", "Simplified trains share the pressure ratio and follow their generic charts",
  "A simplified compressor train divides its pressure ratio equally between its stages, each cooled to its inlet temperature. Each stage works inside its generic chart with no more recirculation or choking than needed, and the train is valid exactly when every stage is within its capacity; its power is the sum of the stages', with the adjustment. Its maximum rate is the smallest its stages allow. When the number of stages is not given it is the smallest with no ratio per stage above the maximum in any year. A chart made from the input has every year's rate and head within its capacity. Years without gas use no power, whatever their pressures.",
  ["inputs", "configurations"], "every rate or discharge pressure; 1-2 known stages with 6 pressure ratios; 1-8 unknown stages; charts from design points and, near stated rates, from input",
  "boundaries of the chart and exact powers of the maximum ratio; the few tests need a gas model",
  ["src/libecalc/domain/process/compressor/core/train/simplified_train/", "src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py", "src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py"],
  [("CompressorTrainSimplified", "src/libecalc/domain/process/compressor/core/train/simplified_train/simplified_train.py"), ("calculate_number_of_stages", "src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py"), ("CompressorChartCreator", "src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py")],
  "a simple gas law in place of NeqSim's; charts with one efficiency, looked up directly in symbolic runs")

P("C28", "Process and pump simulations are built from their YAML as stated",
  "A process simulation in YAML becomes the pipelines, in the order of its targets, that it states: every constraint ends a section; each section keeps its units in order, with recirculation around each compressor (or the whole section for a common one) and a choke at the end its pressure control names; its target pressure applies after its last unit. Units, side streams, offtakes, streams, fluids with every component, rate fractions and overflow get the values stated for them in every period, with conditions; a predefined gas has the molecular weight it is named after. Events change the compressor they name, from their date, to their chart. A compressor no constraint covers, a section without one, incompatible pressure and anti-surge control, and references to nothing or twice to the same are refused as invalid input. Pump simulations evaluate every period's inputs; at rest the pressure is the inlet's throughout, and inputs that are not physical are refused.",
  ["configurations", "inputs", "schedules"], "every subset of constraints over 10 (22) pipelines of up to 4 units, all control combinations; any values of streams, set points and targets per period",
  "which units a constraint covers, at what position it applies, and malformed combinations of them; the tests build one or two pipelines",
  ["src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py", "src/libecalc/presentation/yaml/mappers/process/", "src/libecalc/presentation/yaml/mappers/fluid_mapper.py", "src/libecalc/process/process_pipeline/process_pipeline.py", "src/libecalc/process/pump/pump_process_simulation.py"],
  [("ProcessSimulationMapper", "src/libecalc/presentation/yaml/mappers/process_simulation_mapper.py"), ("ProcessPartitioner.partition", "src/libecalc/presentation/yaml/mappers/process/process_partitioner.py"), ("PumpProcessSimulation", "src/libecalc/process/pump/pump_process_simulation.py")],
  "a stub in place of NeqSim, which building does not evaluate; pump with one chart of constant efficiency")

P("C29", "Gas states are those of the fluid and conditions asked for, cached or not",
  "Whatever was asked of the gas service before and whatever its caches hold, a flash to a pressure and temperature, or to a pressure and enthalpy, gives the properties of that fluid's composition and equation of state at those conditions (within the rounding of the cache key), also for shares that do not add to one and whatever temperature is guessed. Removing liquid leaves the gas alone, with its own composition. Standard rates convert by the gas density at standard conditions, and back. A flash that fails, or whose result is not physical or has not the enthalpy asked for, is refused and not remembered. A cache gives the last value put for a key and keeps the most recently used up to its size. Mixing two streams adds their moles component by component; negative or empty compositions are refused.",
  ["histories", "inputs", "faults", "configurations"], "histories of 3 (4) requests at any conditions over 13 fluids in pairs, and of 5 (6) cache operations; any properties of a flash result; any shares of two components",
  "keys that collide, eviction and states that leak from one request to the next appear in histories; the tests of the service need the Java library and a few states",
  ["src/ecalc_neqsim_wrapper/fluid_service.py", "src/ecalc_neqsim_wrapper/cache_service.py", "src/ecalc_neqsim_wrapper/thermo.py", "src/ecalc_neqsim_wrapper/mappings.py", "src/libecalc/process/fluid_stream/"],
  [("NeqSimFluidService", "src/ecalc_neqsim_wrapper/fluid_service.py"), ("LRUCache", "src/ecalc_neqsim_wrapper/cache_service.py"), ("NeqsimFluid", "src/ecalc_neqsim_wrapper/thermo.py"), ("validate_ph_flash_result", "src/libecalc/process/fluid_stream/fluid_property_validation.py")],
  "a simple law stands in for the Java library behind its interface")



P("C30", "An invalid model is refused with a validation error; a valid one is accepted",
  "A model that is not valid is refused with a validation error before anything is evaluated - never accepted, run on other data than stated or ended by an internal error - and the same model without the fault is accepted. Faults: two components, references or fuels of one name; a reference to nothing or to the wrong kind; unknown keywords, types, categories, variables, columns; missing fuels, consumers, files; dates out of order or changing the model type; wrong consumption type; turbine and chart curves of unequal length or efficiencies outside 0-1; sampled tables and generator sets with text, missing columns or unequal lengths; systems with too few rates or pressures or unknown cross-overs; suction above discharge pressure; trains with charts of another kind, streams not connected, rates or interstage pressures that do not match, fluids without gas; time series files whose dates or values are not readable. Valid input gives back the stated values.",
  ["inputs", "configurations"], "every listed fault of a model with a component of every kind (about 100) and with a train of every kind (about 190), every pair of names and every reference in every use; any load, rate, fuel, turbine load and efficiency, curve point, table value",
  "the number of ways to be wrong; most are tested only for the message of one example, and many ended in internal errors",
  ["src/libecalc/presentation/yaml/model.py", "src/libecalc/presentation/yaml/mappers/", "src/libecalc/presentation/yaml/yaml_types/", "src/libecalc/presentation/yaml/validation_errors.py", "src/libecalc/presentation/yaml/domain/time_series_resource.py", "src/libecalc/presentation/yaml/yaml_entities.py"],
  [("YamlModel.validate_for_run", "src/libecalc/presentation/yaml/model.py"), ("ConsumerFunctionMapper", "src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py"), ("TimeSeriesResource.validate", "src/libecalc/presentation/yaml/domain/time_series_resource.py"), ("check_field_model_reference", "src/libecalc/presentation/yaml/yaml_types/models/model_reference_validation.py")],
  "the faults are the listed ones, one at a time; files are handed over in memory; a stub in place of NeqSim")

P("C31", "A compressor's outlet is the state its head and efficiency lead to",
  "The outlet of a compressor has the inlet's gas at the inlet's rate, its enthalpy raised by head over efficiency, at the pressure that the polytropic head, with the means of the compressibility and heat capacity ratio before and after, gives (within the stated tolerance); the head for that pressure is the head again. No state is first tried at more than 2000 bar. An iteration that oscillates is damped until it settles at the solution, one that does not is left as it is, and no step goes further than its response. A flash that fails or gives a state that is not physical or has not the enthalpy asked for, and a head without a possible pressure, fail the compression and are not passed on. Gas with liquid, and flows below or above the chart, are refused. In a train the outlet of each stage is the inlet of the next after cooling, and its power is the rates' times the enthalpy changes.",
  ["inputs", "faults"], "any head, inlet pressure, flow and rate; 6 gases; every flash in turn failing or with any value of each property; any start and 8 slopes of the iteration",
  "the formula and its iteration need a gas model, without which the tests of trains do not run; averages, first guesses and failures in the middle of the iteration do not show in a result that is nearly right",
  ["src/libecalc/domain/process/compressor/core/train/utils/", "src/libecalc/common/numeric_methods.py", "src/libecalc/process/process_units/compressor.py", "src/libecalc/process/fluid_stream/fluid_property_validation.py"],
  [("calculate_outlet_pressure_and_stream", "src/libecalc/domain/process/compressor/core/train/utils/common.py"), ("calculate_outlet_pressure_campbell", "src/libecalc/domain/process/compressor/core/train/utils/enthalpy_calculations.py"), ("adaptive_pressure_update", "src/libecalc/common/numeric_methods.py"), ("Compressor.propagate_stream", "src/libecalc/process/process_units/compressor.py")],
  "a simple gas law in place of NeqSim's; polytropic exponents n/(n-1) of 1 to 6")
