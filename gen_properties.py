"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
T, V, M, U, O, W, UT = ("ta/trend.py", "ta/volatility.py", "ta/momentum.py", "ta/volume.py",
                        "ta/others.py", "ta/wrapper.py", "ta/utils.py")
ALL = [M, T, V, U, O, UT]
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "No look-ahead: a row never depends on later rows",
  "For every indicator and every parameter setting, the value published for a row depends only on that row and earlier rows of the input series, so appending further bars never changes a value already published. "
  "With gap filling switched on this still holds for every row from the first defined value on; only the leading gap of the results documented to be filled from the nearest value (band, channel, line and stop levels, and the cumulative return) may take the first value that follows it.",
  ["inputs", "histories"],
  "all price/volume histories of any length, every split of a history into a prefix and its continuation, all window/parameter values, fillna on and off",
  "The tests compare the last five rows of one fixed data set; they never compare a prefix run with a longer run, and leaked future values sit in the rows they do not look at.",
  ALL, [("rolling/ewm/shift windows that look back only", "every _run method"),
        ("forward fill, then constant or nearest fill", "ta/utils.py:IndicatorMixin._check_fillna"),
        ("row loops that read rows i, i-1, i-2", "ta/trend.py:PSARIndicator._run, ADXIndicator._run; ta/volatility.py:AverageTrueRange._run; ta/momentum.py:KAMAIndicator._run; ta/volume.py:NegativeVolumeIndexIndicator._run")],
  ["every public accessor and one-shot function"])

p("C02", "Caller's data is never modified",
  "Building an indicator, reading any of its results any number of times, calling a one-shot function, or cleaning a table never changes the values, the rows, the labels or the name of a series or table passed in. "
  "The add-features functions only append or set their own result columns: they never change a column or a row that was already there under another name, and changing a returned result never changes the caller's price or volume data.",
  ["inputs", "histories"],
  "all input series and tables, all sequences of constructor and accessor calls, fillna on and off",
  "No test looks at an input after a call; each test class reloads its csv file.",
  ALL + [W], [("copies before in-place work", "ta/trend.py:PSARIndicator._run; ta/utils.py:dropna, _check_fillna"),
              ("fresh buffers for row loops", "ADXIndicator, KAMAIndicator, AverageTrueRange, NegativeVolumeIndexIndicator"),
              ("augmented assignment only on fresh results", "TRIXIndicator, TSIIndicator, EaseOfMovementIndicator, ChaikinMoneyFlowIndicator, ta/others.py")])

p("C03", "Results do not depend on call order, other objects or the environment",
  "Reading a result twice, reading results in any order, and creating or reading other indicator objects in between always gives the same values. "
  "A result is a function of the constructor arguments alone: it draws on no random source, clock, file, environment setting or state shared between objects.",
  ["histories", "schedules"],
  "all sequences and interleavings of constructor and accessor calls on any number of indicator objects",
  "Tests read each accessor once per object in a fixed order.",
  ALL, [("state is computed once per object", "every __init__/_run"),
        ("accessors derive new series instead of updating state", "every public accessor")])

p("C04", "Gap filling leaves no gap",
  "With gap filling switched on, a result has no missing and no infinite value in any row: infinities and inner gaps take the last defined value before them, and a leading gap takes the result's documented neutral value (for example 50 for the strength oscillators, 20 for the directional indices, 1000 for the negative volume index, 0 for most others) or, for band, channel, line and stop levels and the cumulative return, the nearest defined value (one that is defined in no row at all stays empty). "
  "With gap filling switched off nothing is filled.",
  ["inputs", "configurations"],
  "all finite inputs of any length for which the result is defined in at least one row, every accessor, every parameter value including a non-zero channel offset",
  "Not one test switches gap filling on and checks the rows it is meant to fill.",
  ALL, [("replace infinities, forward fill, then fill the head", "ta/utils.py:IndicatorMixin._check_fillna"),
        ("per-result neutral values", "every public accessor"),
        ("min_periods = 0/1 when filling", "_sma, _ema and the _run methods")])

p("C05", "Results are aligned with the input rows whatever the labels are",
  "Every result has exactly one value per input row, in the same order and under the same label, and its values depend on the position of a row only, never on what the labels are. "
  "Dates, text, floats, duplicate-free integers in any order, and ranges with gaps or an offset all give the values that the default 0..n-1 labels give (only the volume-price trend asked to drop its undefined rows is shorter, and keeps the labels of the rows it keeps).",
  ["inputs", "configurations"],
  "all row labels: any unique index of any type; all histories",
  "All unit tests use the default 0..n-1 index of a csv file, on which access by label and access by position coincide.",
  ALL, [("results built on the input index", "pd.Series(..., index=self._close.index) in every accessor that builds from an array"),
        ("positional access", ".iloc in the row loops"),
        ("label-free helper followed by positional use", "ta/utils.py:_get_min_max; ta/trend.py:ADXIndicator._run")])

p("C06", "One-shot functions agree with the indicator classes",
  "Every one-shot function returns, for every argument it accepts, exactly the series that the indicator class of the same name returns for the same arguments, with gap filling, offsets and every window passed through unchanged. "
  "Arguments left out mean the same default on both sides.",
  ["inputs", "configurations"],
  "all arguments of all one-shot functions: every parameter varied independently, gap filling on and off, arguments given or left out",
  "Tests call a handful of functions with the default or one fixed argument list; swapping two parameters that are equal there, or dropping one, is invisible.",
  [M, T, V, U, O], [("keyword forwarding to the class", "the functions after the classes in each module")])

p("C07", "Each feature column is the documented indicator of the caller's columns",
  "Every column added to a table is exactly the result of the indicator its name stands for, computed from the caller's own open/high/low/close/volume columns under whatever names they have, with that column's documented parameters, and with the caller's gap-filling choice passed through. "
  "This is the same for the per-family functions and for the add-everything function, in full and in vectorized mode and for every column prefix.",
  ["inputs", "configurations"],
  "all tables, all column names and prefixes, gap filling on/off, vectorized on/off, all six entry points",
  "The only wrapper test needs a data file and checks that nothing raises; no test compares a feature column with an indicator.",
  [W], [("per-family feature functions", "ta/wrapper.py:add_volume_ta, add_volatility_ta, add_trend_ta, add_momentum_ta, add_others_ta"),
        ("argument forwarding", "ta/wrapper.py:add_all_ta_features")])

p("C08", "The feature functions add the documented column set and nothing else",
  "Each add-features function returns the caller's table with all its original columns and rows in place plus that family's documented columns, each named with the caller's prefix, so two different prefixes never collide. "
  "The vectorized column set is a subset of the full one, the add-everything function adds exactly the union of the five families, and no column name occurs twice.",
  ["configurations", "inputs"],
  "all prefixes, gap filling on/off, vectorized on/off, all six entry points",
  "No test looks at the column names or at the rows of the returned table.",
  [W], [("prefixed column assignment", "ta/wrapper.py: every df[f\"{colprefix}...\"] assignment"),
        ("vectorized switch", "ta/wrapper.py: if not vectorized")])

p("C09", "Vectorized mode never runs Python code once per row",
  "When only the vectorized features are asked for, no indicator that is computed or constructed on the way runs a Python loop over rows or calls a Python function once per row or per window. "
  "This holds for every table and every gap-filling choice.",
  ["inputs", "configurations"],
  "all table lengths; the whole call graph below every add-features function with vectorized=True",
  "A test cannot see how a value was computed, and on 30-row data sets the cost does not show.",
  [W] + ALL, [("features split by the vectorized flag", "ta/wrapper.py"),
              ("closed-form pandas operations", "the classes constructed outside `if not vectorized`")])

p("C10", "Results scale with the units of price and volume",
  "Multiplying all prices by a positive constant multiplies every price-level or range result (averages, bands, channels, stops, true range, momentum in price units) by that constant and leaves every ratio, oscillator, percentage and binary result unchanged; multiplying all volumes by a positive constant multiplies the cumulative-volume results by it, divides the ease-of-movement results by it, and leaves everything else unchanged. "
  "Squared ranges (ease of movement) and price-times-volume results (force index) scale with the corresponding powers.",
  ["inputs"],
  "all positive price and volume scale factors, all histories, all parameter values, gap filling off",
  "Each test uses one data set in one unit; a constant, threshold or epsilon in price units is invisible in it.",
  ALL, [("dimensionally homogeneous formulas", "every _run method and accessor")])

p("C11", "Results shift with the price level as documented",
  "Adding a constant to all prices moves every price-level result (averages, bands, channels, stops, Ichimoku lines, weighted price) by exactly that constant, and leaves every result that is built from price differences or relative positions (true range, MACD, RSI, stochastics, Williams %R, CCI, Aroon, directional movement, Vortex, detrended and awesome oscillators, accumulation/distribution and money-flow-volume results, channel crossing flags) unchanged. "
  "Percentage-of-price results are exempt.",
  ["inputs"],
  "all price offsets, all histories, all parameter values, gap filling off",
  "Each test uses one price level; an absolute price that leaks into a difference-based result shows only when the level changes.",
  ALL, [("difference-based formulas", "every _run method and accessor")])

p("C12", "Oscillators stay in their range and channels stay ordered",
  "Wherever defined, for bars whose low does not exceed the close and whose close does not exceed the high and for non-negative volume: RSI, stochastic, money flow, ultimate, Aroon up/down and directional-index results lie in 0..100, stochastic RSI in 0..1, Williams %R in -100..0, the Aroon difference, TSI and money-flow balance in their symmetric ranges (±100, ±100, ±1), and crossing and reversal flags are exactly 0 or 1. "
  "True range averages and the Ulcer Index are never negative, upper bands are never below middle and lower bands, and a volume-weighted price lies between the window's lowest low and highest high.",
  ["inputs"],
  "all valid bar histories, all window values >= 1, gap filling on and off",
  "Range violations need particular bar shapes; the csv data sets are well behaved.",
  [M, T, V, U], [("ratios of a part to the whole", "the _run methods of the oscillators"),
                 ("mid +- non-negative width", "ta/volatility.py:BollingerBands, KeltnerChannel, DonchianChannel")])

p("C13", "Every result uses exactly its documented inputs and parameters",
  "Each result depends on all and only the input series and parameters documented for it: no documented window, factor, offset or switch is ignored or replaced by a constant or by another parameter, and none influences a result it is not documented for. "
  "In particular fast/slow/signal windows are never interchanged and results of one object that use different windows keep them apart.",
  ["inputs", "configurations"],
  "every parameter of every class varied independently over all its values; every input series varied independently",
  "Tests fix every parameter to its default, so a parameter that is ignored, hard-coded or swapped with an equal-valued one passes.",
  ALL, [("parameters stored by the constructors and used by _run/accessors", "every class")])

p("C14", "Nothing is published before its look-back is complete",
  "With gap filling off, the first row in which each result is defined is exactly the documented one: a moving-window result appears only when its whole window of defined values is available, chained windows add up, and no row before that carries a value computed from a partial window. "
  "The results that by convention show 0 (average true range and the directional indices) or the starting level (negative volume index, stop-and-reverse level) during warm-up show exactly that (the Ulcer Index may measure its drawdowns against the highs since the first bar).",
  ["inputs", "configurations"],
  "all window values, all histories, all results",
  "Tests compare the last five rows only, where every window has long been full.",
  ALL, [("min_periods", "_sma, _ema, every rolling/ewm call"),
        ("zero-initialised warm-up", "AverageTrueRange, ADXIndicator"),
        ("release note 0.5.25: min_periods when fillna=False", "RELEASE.md")])

p("C15", "Flat markets and zero ranges have defined outcomes",
  "When a formula's denominator vanishes the documented convention applies instead of an arbitrary or misleading number: RSI is 100 when there was no loss, the accumulation and money-flow multipliers are 0 on a bar with no range, directional indices are 0 without movement, the adaptive average uses its slowest smoothing when the price did not move, on-balance volume ignores unchanged closes, and the position within a Bollinger band of zero width is undefined. "
  "A bar without range or change never spoils the rows around it in cumulative or recursive results.",
  ["inputs"],
  "all histories containing bars with high = low, runs of equal closes, or no gains/losses in a window, at any position",
  "The data sets contain no flat stretch, so none of the guards is ever taken.",
  [M, T, V, U], [("np.where(emadn == 0, 100, ...)", "ta/momentum.py:RSIIndicator._run"),
                 ("fillna(0.0) of the multiplier", "ta/volume.py:AccDistIndexIndicator, ChaikinMoneyFlowIndicator"),
                 ("value != 0 guards", "ta/trend.py:ADXIndicator"),
                 ("where=er_den != 0", "ta/momentum.py:KAMAIndicator"),
                 ("where(hband != lband)", "ta/volatility.py:BollingerBands.bollinger_pband")])

p("C16", "Any non-empty history is accepted",
  "Every indicator can be built and every result read for every history of one or more bars, however short compared with the windows, without an exception, and the result always has as many rows as the history. "
  "The same holds for the add-features functions.",
  ["inputs", "configurations"],
  "all history lengths n >= 1 combined with all window values >= 1",
  "Every test data set is longer than every window used on it.",
  ALL + [W], [("length guards before seeding", "ta/volatility.py:AverageTrueRange._run; ta/trend.py:ADXIndicator"),
              ("loops bounded by the history length", "PSARIndicator, KAMAIndicator, NegativeVolumeIndexIndicator")])

p("C17", "Momentum results equal their documented formulas on every row",
  "RSI, TSI, ultimate oscillator, stochastic and its signal, KAMA, rate of change, awesome oscillator, Williams %R, stochastic RSI with its %K and %D, and the percentage price and volume oscillators with signal and histogram equal their published definition on every defined row, for every input and every parameter value. "
  "Smoothing factors, window lengths, weights, signs, and the bar each term refers to are exactly those of the definition.",
  ["inputs", "configurations"],
  "all histories, all rows, all parameter values",
  "Tests check five rows of one history with one parameter set per indicator; several results (awesome oscillator) are not checked at all.",
  [M, UT], [("formula code", "ta/momentum.py: every _run method and accessor")])

p("C18", "Trend results equal their documented formulas on every row",
  "Aroon, MACD, EMA, SMA, WMA, TRIX, mass index, Ichimoku lines and spans, KST, detrended price, CCI, ADX with +DI/-DI, Vortex, and Schaff trend cycle equal their published definition on every defined row, for every input and every parameter value. "
  "Smoothing factors, window lengths, weights, signs, seeds of recursive sums, and the bar each term refers to are exactly those of the definition.",
  ["inputs", "configurations"],
  "all histories, all rows, all parameter values",
  "Tests check five rows of one history; Aroon, EMA, SMA, TRIX, mass index, Ichimoku, KST and detrended price are not checked at all.",
  [T, UT], [("formula code", "ta/trend.py: every _run method and accessor")])

p("C19", "Volatility results equal their documented formulas on every row",
  "Average true range, Bollinger, Keltner (both versions) and Donchian bands with their width, position and crossing flags, and the Ulcer Index equal their published definition on every defined row, for every input and every parameter value, including the channel offset, the band multipliers and the choice of Keltner version. "
  "Population deviation, seeds, signs and the bar each term refers to are exactly those of the definition.",
  ["inputs", "configurations"],
  "all histories, all rows, all parameter values",
  "Tests check five rows of one history per band with one parameter set.",
  [V, UT], [("formula code", "ta/volatility.py: every _run method and accessor")])

p("C20", "Volume results equal their documented formulas on every row",
  "Accumulation/distribution, on-balance volume, Chaikin money flow, force index, ease of movement and its average, volume-price trend (with its smoothing and dropping options), negative volume index, money flow index and volume-weighted price equal their published definition on every defined row, for every input and every parameter value. "
  "Cumulative results start from their documented level and never skip or repeat a bar.",
  ["inputs", "configurations"],
  "all histories, all rows, all parameter values",
  "Tests check five rows of one history; Chaikin money flow, negative volume index and the volume-price-trend options are hardly checked.",
  [U, UT], [("formula code", "ta/volume.py: every _run method and accessor")])

p("C21", "Return results equal their documented formulas on every row",
  "The daily return, daily log return and cumulative return of every row equal, in percent, the relative change from the previous close, the difference of log closes, and the relative change from the first close, for every history. "
  "Composing daily log returns gives the log of the cumulative return.",
  ["inputs"],
  "all positive close histories, all rows",
  "No test covers the returns module at all.",
  [O], [("formula code", "ta/others.py")])

p("C22", "The stop-and-reverse state machine never loses its state",
  "At every row from the third on the stop-and-reverse indicator is in exactly one trend: exactly one of its up and down series carries the stop and the other is empty, it reverses exactly when the bar crosses the stop, on a reversal the stop jumps to the extreme price of the old trend and the acceleration restarts, otherwise the acceleration grows by one step only on a new extreme and never exceeds its maximum, and between reversals the stop never enters the range of either of the two preceding bars against the trend. "
  "The reversal flags are 1 exactly on the first row of each trend.",
  ["inputs", "histories"],
  "all sequences of bars (all paths through the state machine), all step and maximum values",
  "The tests follow one price path on which each branch is taken a few times and compare its last five rows.",
  [T], [("row loop", "ta/trend.py:PSARIndicator._run"), ("flags", "ta/trend.py:PSARIndicator.psar_up_indicator, psar_down_indicator")])

p("C23", "Cleaning a table drops exactly the unusable rows",
  "The cleaning helper returns a new table that keeps, unchanged, in order and under their labels, exactly the rows in which every column is present and every numeric column is non-zero and below the overflow threshold. "
  "The table passed in is left as it was, and non-numeric columns are kept.",
  ["inputs"],
  "all tables: any columns, any mixture of missing, zero, huge and ordinary values, any index",
  "No test calls the helper directly.",
  [UT], [("dropna", "ta/utils.py:dropna")])

p("C24", "Floating-point rounding error stays bounded over long histories",
  "The floating-point error of every result stays within a small relative bound of the exact value of its formula, however long the history and however large the price range.",
  ["inputs", "histories"],
  "all histories of any length and magnitude",
  "Tests compare a few rows with five to seven digits on 30-500 bars.",
  ALL, [("pandas rolling/ewm accumulation", "every rolling/ewm/cumsum call")])

p("C25", "Work per row is bounded, so long histories stay affordable",
  "Building any indicator or feature does an amount of work per row that is bounded by the window lengths and does not grow with the number of rows. "
  "No pass over the whole history is nested inside another pass over the rows.",
  ["inputs", "configurations"],
  "all table lengths, all results, full and vectorized mode",
  "Tests run on tables of a fixed small size and measure nothing.",
  ALL + [W], [("single row loops and rolling windows", "the _run methods")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
