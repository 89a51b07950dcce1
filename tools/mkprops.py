"""Regenerates /verif/properties.jsonl (kept as python so that the entries stay readable)."""
import json, os
DS='timeseria/datastructures.py'; OP='timeseria/operations.py'; TR='timeseria/transformations.py'
ST='timeseria/storages.py'; UT='timeseria/utilities.py'; IN='timeseria/interpolators.py'
MB='timeseria/models/base.py'; MF='timeseria/models/forecasters.py'; MR='timeseria/models/reconstructors.py'
MA='timeseria/models/anomaly_detectors.py'; PL='timeseria/plots.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

p('C01','Non-in-place calls never modify the series they are given',
  "A series operation, a resampling or aggregation, a conversion, a storage put, and the fit, predict, apply, evaluate and cross-validate of a model, when not asked to work in place, leave the series they are given exactly as it was: same items, data values, data labels, data indexes, time zones and attached attributes. The same holds for the lists and dictionaries passed as arguments.",
  ['inputs','configurations','histories'],'every public non-in-place entry point, every kind of series (points or slots, dict or list data, constant or variable resolution) and every argument combination',
  'Tests compare a few input values after a few calls; a write on an input item under one option or on one path is only visible to a test that compares the whole input on that path.',
  [DS,OP,TR,ST,MB,MF,MR,MA],[('operations build new items','timeseria/operations.py: *._call'),('duplicate before in-place work',"timeseria/models/*: series.duplicate() under 'if not inplace'"),('transformations attach validity and weight to points','timeseria/transformations.py: Transformation.process, _compute_new')])
p('C02','Derived series share no mutable data with their source',
  "The items of the series returned by a derivative, integral, diff, csum, normalize, rescale, offset, moving average, filter, merge, resample, aggregate, duplicate or time-zone conversion own their data, data indexes and time zone. Changing the result in place (its values, its indexes or its time zone) never changes the source series, and the other way round.",
  ['inputs','histories'],'every operation, transformation and copy that returns a series of new items, for points and slots, followed by any in-place change on either side',
  'Aliasing is invisible until someone mutates one side; tests compare values right after the call.',
  [DS,OP,TR],[('item constructors own their data indexes','timeseria/datastructures.py: DataPoint.__init__, DataSlot.__init__, TimeSlot.__init__'),('new items built by operations','timeseria/operations.py')])
p('C03','In-place and non-in-place calls keep their contract',
  "A call made with in-place set works on the very series given and returns nothing, while without it always returns a result which is not the series given. Where in-place is not supported (differences, moving averages, integrals with an offset) the call is refused before anything is changed.",
  ['inputs','configurations'],'every operation and model method with an in-place switch, both settings, every kind of series and every path that returns',
  'Tests exercise one or two kinds of series per operation and do not look at the return value of the in-place form, nor at the series after a refusal.',
  [OP,MF,MR],[('inplace branches','timeseria/operations.py: Derivative, Integral, Normalize, Rescale, Offset, MAvg'),('apply inplace','timeseria/models/forecasters.py: Forecaster.apply; reconstructors.py: Reconstructor.apply')])
p('C04','A series only ever accepts the next item in order or succession',
  "Appending to a series, or creating it from items, is accepted only if the item strictly follows the last one (points) or starts where the last one ends and has the same unit and time zone (slots), is of the same type, and has the same data type, number of values and labels; anything else is refused with an error. Items that satisfy this are always accepted.",
  ['inputs','histories'],'every pair of last item and new item, over all orderings (before, equal, after; gap, overlap, adjacent) and all type, label, length, unit and time zone mismatches',
  'Tests sample single out-of-order and duplicate cases; each comparison is one of a finite set of orderings for which all must be right, for every item type.',
  [DS],[('append checks','timeseria/datastructures.py: Series.append, TimeSeries.append'),('succession','timeseria/datastructures.py: Slot.__succedes__, TimeSlot.__succedes__, Point.__gt__')])
p('C05','No list operation bypasses the ordering and type guarantees',
  "Every operation a list offers for changing its contents (insert, extend, sort, reverse, item and slice assignment or deletion, in-place concatenation or repetition, pop, remove) either is refused on a series or leaves it in order or succession, with uniform item types, data types and labels. Inserting is accepted only between a smaller and a larger item, and nothing can be inserted into, or removed from, the middle of a succession of slots.",
  ['inputs','histories','programs'],'every mutating operation of the built-in list, every position and every ordering of the item with respect to its neighbours',
  'The set of channels is the whole list interface and the positions and orderings are unbounded; tests call a few of them with one position each.',
  [DS],[('overrides and disabled list methods','timeseria/datastructures.py: Series.insert/remove/pop/extend/sort/reverse')])
p('C06','A refused change leaves the series exactly as it was',
  "When appending or inserting an item, popping, removing, renaming or changing the time zone raises an error, the series is unchanged: its items, resolution and time zone are as before and a valid item can be appended afterwards as if the refused call never happened.",
  ['inputs','fault_sequences','histories'],'every way in which a change can be refused, at every point in the history of a series',
  'Tests check that the error is raised and discard the series; state left behind only shows on the following call.',
  [DS],[('validation before update','timeseria/datastructures.py: TimeSeries.append, Series.append, Series.insert')],
  [('resolution and previous timestamp','derived state updated while appending','timeseria/datastructures.py: TimeSeries.append')])
p('C07','Resolution and time zone always describe the current items',
  "After any accepted change of a series (append, insert, pop, remove, clear) its resolution, its guessed resolution and auto-detected sampling interval, and its ordering checks refer to the items the series contains at that moment and not to items it contained before.",
  ['histories'],'every sequence of accepted changes, interleaved with reads of the derived properties',
  'Stale derived state needs a read, a change and another read; tests build a series once and read once.',
  [DS],[('cache handling','timeseria/datastructures.py: TimeSeries.append, _autodetected_sampling_interval, guess_resolution')])
p('C08','Slicing and access by position or time have exact boundaries',
  "Slicing by index or time returns, in order, exactly the items at or after the start and strictly before the end (a slot must end by the end time); equal or inverted bounds give an empty series. Access by position or time returns the item at exactly that position or time or raises an error, never another item.",
  ['inputs'],'all orderings of an item with respect to the bounds, open and closed bounds, negative and out of range positions, points and slots',
  'Tests use a handful of bounds; the boundary cases are a finite set of orderings that all have to be right for each of the three addressing forms.',
  [OP,DS],[('slice and get','timeseria/operations.py: Slice._call, Get._call'),('lookup','timeseria/datastructures.py: TimeSeries.__getitem__, _item_by_t')])
p('C09','A series view behaves as the slice of the series it covers',
  "A view exposes exactly the items between its start and its end: length, truth value, iteration, positive and negative indexing and materialisation agree with each other, positions outside of the view are refused, and iterating twice or in a nested way gives the same items. Reading through a view never changes the underlying series.",
  ['inputs','histories'],'every view over every series, every position and every interleaving of iterations over the same view',
  'Tests iterate a view once and index it inside its bounds.',
  [DS],[('view','timeseria/datastructures.py: TimeSeriesView')])
p('C10','Models refuse to work when not fitted or given the wrong series',
  "Predict, apply and evaluate of any model raise an error before computing anything if the model requires a fit and is not fitted, or if what is given is not a time series of points or slots, or if its resolution or data labels differ from those the model was fitted on. Fit, predict, apply and evaluate go through these checks in every bundled model, and context data is refused or required according to the fit.",
  ['inputs','histories','configurations'],'every bundled model, every public method, every state of the model and every mismatch',
  'Tests check a couple of models for a couple of mismatches; a method that skips the guard computes a plausible but meaningless number.',
  [MB,MF,MR,MA,UT],[('guard wrappers','timeseria/models/base.py: fit_function, predict_function, apply_function, evaluate_function'),('series checks','timeseria/utilities.py: _check_timeseries, _check_resolution, _check_data_labels')])
p('C11','A model is fitted only once its fit has succeeded',
  "A model reports itself as fitted only after its fit has completed without errors: if a fit fails, a previously unfitted model still refuses to predict, apply, evaluate and save. Creating, probing, saving, predicting, applying or evaluating never turns an unfitted model into a fitted one nor changes what was learnt. A cross validation, which fits the model only to evaluate it, leaves it not fitted.",
  ['fault_sequences','histories'],'every point at which a fit can fail, followed by any other method',
  'Tests fit successfully; a failure half-way through a fit is not exercised, nor what the model does next.',
  [MB,MF,MR,MA],[('fitted flag','timeseria/models/base.py: fit_function.do_fit, Model._is_fit_implemented')])
p('C12','A saved model can be loaded back and used without any missing state',
  "Everything that the predict, apply and evaluate of a bundled model read which was set by the fit or by the initialisation is stored by save and restored by load, with the same key types and object types, or else the save is refused. A loaded model has the resolution and data labels of the saved one and enforces them.",
  ['histories','programs'],'every bundled model class, every attribute or parameter read while predicting, applying or evaluating',
  'Save and load tests exist for a few models and compare a few predictions; any unsaved attribute is found only if that model is tested on a path reading it.',
  [MB,MF,MR,MA],[('save and load','timeseria/models/base.py: Model.save, Model.load; overrides in forecasters.py, anomaly_detectors.py')])
p('C13','Saving a model never overwrites anything and never alters the model',
  "Saving a model is refused, before anything is written, if the model is not parametric, not fitted, the path is empty or the path already exists; saving never overwrites or deletes pre-existing files. After a save, successful or not, the model in memory is as it was before, including its resolution.",
  ['inputs','fault_sequences'],'every model, every destination and every failure while writing',
  'Tests save into fresh directories with writes that succeed.',
  [MB,MF,MA],[('save guards','timeseria/models/base.py: Model.save')])
p('C14','Elements with too much data loss never enter a fit or an anomaly index',
  "An element whose data loss is greater than or equal to the limit given is excluded from what a model learns, from reconstruction evaluations, and from the computation of anomaly indexes, while elements strictly below it, or without a data loss, are used. A fit for which not a single element is below the limit fails with an error.",
  ['inputs'],'every series, every position of the lossy element, and all orderings of the data loss with respect to the limit',
  'Tests use one lossy element well above the limit for some models only.',
  [MF,MR,MB,MA],[('limit filters','timeseria/models/forecasters.py: PeriodicAverageForecaster.fit; reconstructors.py: PeriodicAverageReconstructor.fit; base.py: _to_matrix_representation; anomaly_detectors.py: apply')])
p('C15','Reconstruction changes only the gaps, and marks every element',
  "Applying a reconstructor changes the data only of elements whose data loss is greater than or equal to the threshold; all other elements keep their data. Every element of the result carries the data reconstructed index, set to 1 if and only if its data was reconstructed. A gap which does not have, on both of its sides, the elements the reconstructor requires is refused.",
  ['inputs'],'every series and gap layout (leading, trailing, adjacent gaps), and all orderings of the data loss with respect to the threshold',
  'Tests look at a few gaps in the middle of long series.',
  [MR],[('gap detection','timeseria/models/reconstructors.py: Reconstructor.apply, _reconstruct')])
p('C16','The anomaly index stays at its bounds outside of the chosen range',
  "An error at or below the lower bound gives an anomaly index of 0 and one at or above the upper bound gives 1, whatever the index type; a categorical threshold maps strictly lower indexes to 0 and all others to 1. The index of a multivariate element is the minimum, maximum or average of those of its labels as requested, and unknown settings are refused.",
  ['inputs','configurations'],'all orderings of error, bounds and threshold, every index type and strategy',
  'Tests check sums of indexes on one data set with default settings.',
  [MA],[('index computation','timeseria/models/anomaly_detectors.py: ModelBasedAnomalyDetector.apply')])
p('C17','Each requested error metric is computed by its own formula or refused',
  "Evaluating a model returns one score for each requested error metric, computed with the function of that metric on actual and predicted values and stored under the name of that metric, and nothing under the name of others. A metric that is not supported is refused before any prediction is made.",
  ['inputs','configurations'],'every supported metric, alone or combined, for every evaluation entry point',
  'Tests check the values of default metrics; a cross-wired or silently ignored metric needs each name to be requested.',
  [MF,MR,MA,UT],[('metric dispatch','timeseria/models/forecasters.py: Forecaster.evaluate; reconstructors.py: Reconstructor.evaluate; anomaly_detectors.py: fit/apply')])
p('C18','Evaluations never let a model see what it has to predict',
  "When evaluating a forecaster or computing prediction errors, the series handed over to the model for predicting an element ends strictly before that element, and context never includes target data. In each cross-validation round the elements used for fitting and those used for evaluating are disjoint.",
  ['inputs','configurations'],'every element of every series, every number of rounds, with and without context',
  'A leak only makes scores look better; no test fails because of it.',
  [MF,MA,MB],[('views handed to predict','timeseria/models/forecasters.py: _get_predicted_value; anomaly_detectors.py: _get_predicted_value'),('rounds','timeseria/models/base.py: Model.cross_validate')])
p('C19','Operations, transformations and predictions keep no state between calls',
  "Calling an operation, a transformation, a predict, an apply or an evaluate any number of times, on any series, does not change what the following call returns: these calls leave the operation, transformation or model object, the module, and the default values of arguments unchanged.",
  ['histories','programs'],'every sequence of calls on the shared operation objects, on a transformation and on a model',
  'Tests create fresh objects or call once; leaked state shows only on later calls with different inputs.',
  [OP,TR,MB,MF,MR,MA],[('shared operation instances','timeseria/operations.py: module level instances'),('default arguments','whole package')])
p('C20','An explicit zero is never treated as a missing argument',
  "Passing zero for an optional numerical argument (start or end of a transformation, fill value, offset, index, threshold, limit, bound) is honoured as the value zero and never replaced by the default or by auto-detection.",
  ['inputs'],'every optional numerical argument of the public interface for which zero is meaningful',
  'Zero is one value among many and the epoch start is rarely used in tests.',
  [TR,OP,IN,UT,DS,MA,MR],[('None tests','timeseria/transformations.py: Transformation.process, _compute_new; timeseria/interpolators.py')])
p('C21','Global random state is touched only when reproducibility is asked for',
  "Nothing in the library seeds or reseeds global random number generators, sets process-wide environment variables or reconfigures global libraries for determinism unless the user asks for a reproducible fit, and then it happens before any training.",
  ['configurations','histories'],'every public call, with and without the reproducibility option',
  'A seed left on makes tests more stable, not less.',
  [UT,MF],[('ensure_reproducibility','timeseria/utilities.py; timeseria/models/forecasters.py: LSTMForecaster.fit')])
p('C22','The CSV writer and reader agree on the format of a saved series',
  "Everything the writer of a series puts in a file (extra parameters, timestamp column, index columns and their prefix, separator, comment marks) is what the reader looks for: a saved series loads back as the same type of items, with the same labels, data indexes, time zone, and slot unit. Loading returns a series for every class it is called on.",
  ['inputs','programs'],'every series of points or slots, with dict or list data, with and without data indexes, some of which undefined',
  'Round-trip tests cover one or two shapes of series; the agreement has to hold for each of the format elements.',
  [DS,ST],[('writer and reader','timeseria/storages.py: CSVFileStorage.put, CSVFileStorage.get; timeseria/datastructures.py: TimeSeries.save, TimeSeries.load')])
p('C23','Storing never destroys an existing file when it cannot be replaced',
  "Storing a series on an existing file is refused, leaving the file untouched, unless overwriting was requested. Even then, a series that cannot be stored at all (empty, not a time series, or of unsupported items) is refused before the existing file is touched.",
  ['inputs','fault_sequences'],'every existing file, overwrite setting and kind of series',
  'Tests check the refusal message on one file with a valid series.',
  [ST,DS],[('overwrite guard','timeseria/storages.py: CSVFileStorage.put')])
p('C24','Malformed CSV lines are never silently dropped unless asked to',
  "When reading a CSV file a line whose timestamp or values cannot be parsed, or which lacks values, raises an error unless skipping errors was requested, in which case only that line is skipped. A line without any separator is not a data line. A gap between slots is filled with interpolated slots of full data loss. Errors while building the items are likewise raised unless skipping was requested, and are logged if not silenced.",
  ['inputs','configurations'],'every line-level failure, with skipping on and off, for points and slots',
  'Tests use a few malformed files; each failure path has to be right independently.',
  [ST],[('error handling','timeseria/storages.py: CSVFileStorage.get')])
p('C25','Derived series keep the data indexes and time zone of their source',
  "Each item of a series obtained with derivative, integral, diff, csum, normalize, rescale, offset, moving average, filter or slice carries the data indexes and the time zone of the item it is derived from. Resampled and aggregated items carry every data index of the source, a data loss, and the time zone of the source.",
  ['inputs'],'every operation and transformation, points and slots, any set of data indexes and any time zone',
  'Tests check data values in UTC; dropped indexes or zones need tests with indexes in another time zone for every operation.',
  [OP,TR],[('item construction','timeseria/operations.py: *._call; timeseria/transformations.py: _compute_new')])
p('C26','Detection and search loops always terminate',
  "Detecting the sampling interval or the periodicity, interpolating, reading a CSV file, reconstructing missing slots and locating a prediction start all terminate for every input: each iteration makes progress towards the exit.",
  ['inputs'],'every input series, including those with all-distinct intervals, repeated values, duplicates or one element',
  'Non-termination shows only on inputs the tests do not use, and then as a timeout.',
  [UT,TR,ST,MB],[('while loops','timeseria/utilities.py: detect_sampling_interval; transformations.py: Transformation.process; storages.py: CSVFileStorage.get; models/base.py: _get_start_end_indexes')])
p('C27','No option value fails for a name, an attribute, an argument or a message which is wrong in the library',
  "Whatever value of an option is used (an explicit window or periodicity, each error metric, a type of series, in-place or not), the branch it leads to never fails because of a variable which was not set, an attribute which nothing defines, an argument which the function called does not have or was not given, or an error message with more placeholders than values.",
  ['configurations','inputs'],'every branch of every function and method of the library',
  'Tests use the defaults and a few variants; each option is a path of its own, and error messages are on the paths which tests do not take.',
  [MF,MR,MA,MB,OP,IN,UT,ST],[('option handling','timeseria/models/forecasters.py, anomaly_detectors.py, operations.py, storages.py')])
p('C28','File names and arguments never reach a shell unquoted',
  "No value supplied by the user (file names, paths, titles, labels) is ever interpreted by a shell: external commands are run without a shell, or with the value quoted.",
  ['inputs'],'every string argument of the public interface which can reach an external command',
  'Tests use harmless file names.',
  [PL,UT],[('shell calls','timeseria/plots.py: dygraphs_plot; timeseria/utilities.py: os_shell')])
p('C29','Points and slots behave alike where they offer the same interface',
  "Points and slots, with and without data, agree on their common interface: equality never raises and is false for foreign objects, equality takes data into account when both carry data, data and index arguments are validated and stored in the same way, and changing the time zone moves the representation but never the instant.",
  ['inputs','programs'],'every pair of item classes and every common method',
  'Tests check each class on its own with a few values.',
  [DS],[('sibling classes','timeseria/datastructures.py: Point, Slot, DataPoint, DataSlot, TimePoint, TimeSlot')])
p('C30','Unsupported inputs are refused by transformations and operations',
  "Operations refuse empty series and series whose items are not points or slots or carry no indexed data; resampling refuses calendar units; resampling and aggregating refuse empty series and series not made of data points; merging refuses variable or different resolutions and items of different types; differences and cumulative sums refuse variable resolutions; what needs at least two items refuses a single one; aggregating with no operations is refused. The refusal comes before any computation.",
  ['inputs','configurations'],'every operation and transformation and every unsupported kind of input',
  'Tests check some refusals; an operation that forgets one computes something meaningless or fails obscurely.',
  [OP,TR,UT],[('entry checks','timeseria/operations.py: Operation.__call__, *._call; timeseria/transformations.py: Transformation.process, Resampler.__init__, Aggregator.__init__; timeseria/utilities.py: _check_*')])
p('C34','Values computed for a data label depend only on that label',
  "Every operation, resampling and aggregation computes the values for a data label only from the values of the same label in the series given (and from times, and from the arguments given for that label), and puts the result under that label (or that label with the suffix of the operation). Labels are never mixed, swapped, dropped or added, whatever their number and order.",
  ['inputs','configurations'],'every operation and transformation, for every number and order of data labels and for list and dictionary data',
  'Tests use one or two labels with similar values, so that mixing them up, or carrying state from one label to the next, gives plausible numbers.',
  [OP,TR],[('per label loops','timeseria/operations.py: Derivative, Integral, Normalize, Rescale, Offset, MAvg, Min, Max, Avg, Sum; timeseria/transformations.py: _compute_new')])
p('C35','In-place operations give the same values as the non-in-place ones',
  "An operation performed in place leaves in the series the same values, for the same items and labels, that its non-in-place form returns: what has already been written in the series is never read back as if it was the original value.",
  ['inputs','configurations'],'every operation with an in-place switch, every kind of series and every argument',
  'Tests of the in-place forms use short series where the overwritten values are not read again, or only look at the first items.',
  [OP],[('in-place branches','timeseria/operations.py: Derivative, Integral, Normalize, Rescale, Offset')])
p('C37','Anomaly events are exactly the persistent ensembles of anomalous elements',
  "Marking events sets the event index (anomaly_event, or the anomaly index when replacing it) to 1 for all and only the elements of an event and to 0 for all the others. An event goes from an element whose anomaly index is at or above the threshold up to the last such element before more than the maximum gap of non-anomalous elements in a row (or the end of the series), and is marked only if it is at least the minimum persistence long. Elements with no anomaly index are not anomalous. Nothing else of the series changes, and not in place the series given is left as it was.",
  ['inputs','configurations'],'every sequence of anomalous and non-anomalous elements, every threshold, persistence and gap, points and slots',
  'Tests mark one series; where events start, end, merge and are discarded depends on the position of each element, the first and the last included.',
  [MA],[('event marking','timeseria/models/anomaly_detectors.py: AnomalyDetector.mark_events')])
# numerical / value-level guarantees, out of reach of this technique
p('C31','Derivatives, integrals and averages are numerically right',
  "Up to numerical error, every item of a derivative, difference, integral, cumulative sum, normalisation, rescaling, offset or moving average equals its mathematical definition on the values of the source (central differences inside, one-sided at the ends, divided by the actual distances unless normalize=False; running sums from the integration constant or offset), for each label from that label only, and integrating a derivative from the first value gives back the series.",
  ['inputs'],'every series of numbers','Unbounded numeric input space; tests check some vectors of values at some positions.',
  [OP],[('formulas','timeseria/operations.py')])
p('C32','Resampling and aggregation weigh points by their coverage',
  "The value and the data loss of each resampled point or aggregated slot are those obtained by weighing each source point by the part of the interval its validity covers, with gaps interpolated, also across daylight saving changes.",
  ['inputs'],'every series, unit, time zone and gap layout','Unbounded numeric and calendar input space.',
  [TR,UT,IN],[('weights','timeseria/transformations.py: _compute_new; timeseria/utilities.py: _compute_data_loss, _compute_coverage')])
p('C33','Detected periodicities, resolutions and anomalies are the true ones',
  "The detected periodicity or sampling interval is that of the underlying signal, and the anomaly index reflects how unlikely an observation is.",
  ['inputs'],'every signal','Statistical accuracy over an unbounded input space.',
  [UT,MA],[('detection','timeseria/utilities.py: detect_periodicity, detect_sampling_interval')])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for e in P: f.write(json.dumps(e)+'\n')
print(len(P))
