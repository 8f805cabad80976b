#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from the entries below (and from the fix commits)."""
import importlib
import json
import os
import subprocess
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
sys.path[:0] = [HERE, '/repo']

DS, OPS, TR, UT, ST, UN, IN = ('timeseria/datastructures.py', 'timeseria/operations.py', 'timeseria/transformations.py',
                               'timeseria/utilities.py', 'timeseria/storages.py', 'timeseria/units.py', 'timeseria/interpolators.py')
MB, MF, MR, MA, PL = ('timeseria/models/base.py', 'timeseria/models/forecasters.py', 'timeseria/models/reconstructors.py',
                      'timeseria/models/anomaly_detectors.py', 'timeseria/plots.py')

TECH = {'model': 'runtime monitoring: shadow-model oracle over random operation histories on the real classes',
        'ref': 'runtime monitoring: reference-model oracle over generated workloads on the real code',
        'snap': 'runtime monitoring: state snapshots before/after every call plus a mutation probe',
        'rt': 'runtime monitoring: round-trip oracle over generated workloads, in a scratch directory',
        'meta': 'runtime monitoring: differential oracle between executions of the real code',
        'faults': 'runtime monitoring: fault injection at random lines of the real code, with state snapshots and a differential oracle',
        'schedule': 'runtime monitoring: controlled interleaving of threads of the real code, with a differential oracle',
        'resources': 'runtime monitoring: process state, audit events, live objects and log messages observed around every computation'}

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, tech, note, state=()):
    assert len(title) <= 80, (len(title), title)
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, tech=TECH.get(tech, tech), note=note, state=state))


prop('P01', 'A series is ordered, in succession and homogeneous after any change',
     'Whatever sequence of appends, insertions, assignments, removals, concatenations, renamings and slicings a time series goes through, it contains exactly the items which were accepted, '
     'all of the same type and with the same data labels, points with strictly increasing timestamps and slots each starting where the previous one ends with the same unit and time zone. '
     'A change which would break this is refused, and one which would not is accepted.',
     'histories inputs', 'every finite history of changes, valid and invalid, on series of points and of slots, with any spacing, unit, time zone and data',
     'The tests append a handful of items in the few wrong ways they list; a series is mutable through a dozen entry points and the guarantee is about every sequence of them.',
     [DS], [('append, insert, item assignment and removal checks', 'Series and TimeSeries in ' + DS)],
     ['the items of the series, through iteration, after every step'], 'model',
     'Sampled histories (thousands per run, seeded): no claim on the histories not generated. The oracle is a plain list with an independent validity predicate.')

prop('P02', 'A refused change leaves the series as it was',
     'When a change to a time series is refused with an error, everything observable of the series (items, data, labels, resolution, time zone, view of its ends) is the same as before, '
     'and the series accepts afterwards exactly what it would have accepted before.',
     'histories inputs', 'every history of changes containing invalid ones, on series of points and of slots',
     'The tests check that some errors are raised and never look at the series afterwards, let alone continue to use it.',
     [DS], [('state updated while checking an item', 'TimeSeries.append and insert in ' + DS)],
     ['a full fingerprint of the series before and after each refused change, and the outcome of the following operations'], 'model',
     'Sampled histories. The fingerprint covers what is reachable through the public interface.')

prop('P03', 'The resolution always tells the truth about the items',
     'The resolution of a time series is undefined with fewer than two points, is the (common) spacing if all of its points are equally spaced, is "variable" if they are not, and is the slot unit for slots: '
     'at any moment of any history of changes, also for spacings with decimals.',
     'histories inputs', 'every history of changes, and every spacing from fractions of a second to years',
     'Resolution is cached, guessed and incrementally updated on every change: tests only check series built in one go by appending.',
     [DS, UT], [('incremental resolution state', 'TimeSeries in ' + DS)],
     ['the resolution after every step of the history'], 'model', 'Sampled histories; spacings compared as the code compares them (exact floating point differences).')

prop('P04', 'Access and slicing by position, epoch and datetime give exactly the right items',
     'Getting an item by position, epoch or datetime returns the item at that position or starting at that time and fails for what is not in the series; '
     'slicing by position, epoch or datetime returns exactly the items included in the requested half-open range, with any bound missing, exceeding or inverted, '
     'keeping type, resolution and data.',
     'inputs', 'every series of points or slots (fixed or variable resolution, across DST changes, before 1970) and every bound',
     'The tests slice one regular series with a few in range bounds.',
     [DS, OPS], [('item access and slicing', 'Series.__getitem__ in ' + DS), ('get and slice operations', OPS)],
     ['the item or the series returned, compared with a comprehension over the list of items'], 'ref', 'Sampled series and bounds.')

prop('P05', 'A view behaves as the sub-list it represents',
     'A view of a series, or a view of a view, with any bounds (missing, negative, exceeding) gives the same length, items, positions, slices, iterations (nested and interrupted ones included), '
     'scalar operations and materialisation as the corresponding slice of the list of items, never exposes items outside of it, and is not affected by the series growing.',
     'inputs histories', 'every series and every pair of bounds, nested at two levels, and every position',
     'The tests have one view with fixed bounds; views are used internally by all of the transformations, always with in range bounds.',
     [DS], [('lazy windows over the items of a series', 'SeriesView and TimeSeriesView in ' + DS)],
     ['everything obtained from the view'], 'ref', 'Sampled. Indexing empty views is a known finding.')

prop('P06', 'Duplicates are independent and changing time zone preserves instants and data',
     'A duplicate or a copy of a time series has the same items, resolution and time zone and nothing done to one of the two affects the other. Changing the time zone of a series (in place or not) '
     'changes the time zone of all of its items and leaves instants, data and everything else untouched.',
     'inputs histories', 'every series of points or slots, every chain of time zones',
     'The tests change the time zone of one short series and look at one item.',
     [DS], [('duplication', 'duplicate and copy in ' + DS), ('time zone change', 'change_tz and as_tz in ' + DS)],
     ['full snapshots of source and result, before and after altering either of them'], 'snap', 'Sampled.')

prop('P08', 'Minimum, maximum, sum and average are those of the values held',
     'Minimum, maximum, sum and average of a series, slice or view are, for every data label, those of the values held by its items, for all labels or for a chosen one; '
     'they fail on an empty series and for a label which does not exist.',
     'inputs', 'every series, slice or view and every label', 'The tests have one or two series of three items each.',
     [OPS, DS], [('scalar operations', OPS)], ['the values returned'], 'ref', 'Sampled; exact rational sums as reference, compared within floating point tolerance.')

prop('P09', 'Series operations compute their mathematical definition, in place or not',
     'Derivative, differences, integral, cumulative sum, moving average, normalization, rescaling and offset give at every item the value of their definition, with the right timestamps, labels, time zone and indexes, '
     'for fixed and variable resolution, for every label separately, and the same when computed in place. Differences invert cumulative sums, and derivatives invert integrals.',
     'inputs configurations', 'every point or slot series (or view), operation and arguments',
     'The tests check three to six items of one series per operation, mostly univariate with unitary spacing.',
     [OPS, DS], [('operations', OPS)], ['every item of the resulting series (and of the source one, if in place)'], 'ref',
     'Sampled; reference models on plain lists; calendar units are left out of the derivative and integral values.')

prop('P10', 'Merging joins on time, averages what is in common and keeps the rest',
     'Merging series on the same grid gives exactly the items in the common time range, each with all of the data labels of all of the series, with the value of its source (or the average if more than one has that label) '
     'and likewise for the indexes, whatever the order, starts and ends; the sources are not altered nor shared; series which cannot be merged are refused.',
     'inputs configurations', 'every two to four series on the same grid, with any overlap and labels in common',
     'The tests merge two or three series of two to three items each.',
     [OPS], [('merge', OPS)], ['every item of the merged series and the sources before and after'], 'ref', 'Sampled; list data not covered.')

prop('P11', 'Filtering, selecting and renaming touch exactly what was asked',
     'Filtering on data labels keeps exactly those labels, selecting keeps exactly the items matching, renaming or removing labels, indexes and data losses changes exactly those; '
     'everything else (items, values, times, resolution) is as in the source, which is not altered, and the result accepts items in the new form only.',
     'inputs histories', 'every chain of such operations on any series', 'The tests perform each once, on two or three items.',
     [OPS, DS], [('filter, select', OPS), ('rename and remove data labels and indexes', DS)],
     ['the full content after each step and the outcome of appending afterwards'], 'model', 'Sampled chains.')

prop('P12', 'A series saved to file, or put in a storage, is loaded back the same',
     'Saving a series to file and loading it back, or putting it in a file storage (with any separator, encoding and timestamp label) and getting it back, gives the same items, instants, time zone, data, labels, indexes and resolution, '
     'for points and slots of any unit. A series which would not come back the same is refused when saving.',
     'inputs configurations', 'every series from one item on, and every storage configuration',
     'The tests save and load two series with regular integer timestamps in UTC or Rome.',
     [ST, DS], [('file format', 'CSVFileStorage in ' + ST), ('save and load', DS)], ['the file, and the series loaded back'], 'rt',
     'Sampled; runs in a scratch directory; values compared through their decimal representation (exact).')

prop('P13', 'Reading a CSV file gives exactly the rows in it, and never silently wrong ones',
     'Getting a series from a CSV file gives one item for each valid row in time order, each at the instant written in the file and with exactly the numbers of its row under the right labels, '
     'for every documented layout and format (separators, comments, headers, timestamp formats and columns, column selections, limits, decimal commas, missing slots, placeholders). '
     'Invalid rows make it fail, or are skipped if so requested, without affecting the others.',
     'inputs configurations', 'every file in the supported layouts and every combination of the storage and get arguments',
     'The tests read about twenty sample files with one combination each.',
     [ST, UT], [('parsing, detection and sanitization', 'CSVFileStorage in ' + ST)], ['the series obtained, against the rows from which the file was written'], 'ref',
     'Sampled files, in a scratch directory. The oracle knows the rows because it wrote them.')

prop('P14', 'Conversions to and from dictionaries, JSON and data frames lose nothing',
     'Converting a series to a dictionary, a JSON string or a data frame and back gives the same instants, data and data losses (and the indexes, where they are represented), '
     'and creating a series from any dictionary of timestamps and values gives exactly its entries, or fails.',
     'inputs', 'every series of points (and of slots, where supported), and every dictionary', 'The tests convert one or two hand-made series of two items.',
     [DS], [('to and from dict, JSON and data frame', DS)], ['the converted object and the series obtained back'], 'rt', 'Sampled.')

prop('P15', 'Files are only overwritten if requested, and never lost when this fails',
     'Storing a series in a file which already exists fails unless overwriting was requested, and whenever storing fails (for the content, the encoding or the labels of the series) '
     'an existing file is left exactly as it was; a series which was stored is then read back from the file. Saving a model on an existing path fails without touching it.',
     'histories inputs fault_sequences', 'every sequence of saves on the same files, of series which can and cannot be stored, with and without overwriting',
     'The tests store good series in new files: what happens to an existing file when something goes wrong is never observed.',
     [ST, DS, MB], [('existence check and writing', 'CSVFileStorage.put in ' + ST), ('save', 'TimeSeries.save in ' + DS), ('save', 'Model.save in ' + MB)],
     ['the bytes of every file in the directory after every step'], 'runtime monitoring: shadow-model oracle on the bytes of the files, over random sequences of saves with failing content',
     'Sampled sequences, in a scratch directory. Faults are those of the content (values, labels, encodings): failures of the disk are not injected.')

prop('P16', 'Resampling gives the time-weighted averages of the source, and exact data losses',
     'Every point of a resampled series is the average, weighted on time, of the source data in the interval the point represents (interpolated where missing), with a data loss equal to the part of the interval '
     'not covered by valid source data and other indexes averaged likewise; the points are exactly those on the resampling grid within the source.',
     'inputs', 'every series of points (any sampling, gaps, jitter, partial losses, start, time zone), unit and interpolator',
     'The tests compare a few hand-computed values on samples with nearly no irregularities.',
     [TR, IN, UT], [('resampling and weighting', 'Resampler and _Transformation in ' + TR), ('interpolation', IN)], ['every resampled point, against an integration of validity regions written independently'], 'ref',
     'Sampled; values compared with a relative tolerance of 1e-6. For physical units: calendar units are for aggregation.')

prop('P17', 'Aggregation gives exactly the slots of the range, with right statistics',
     'An aggregated series has exactly the slots of the unit (also calendar units, across DST changes) fully covered by the source, or all of those in the requested start-end range, contiguous and aligned to the unit in the time zone of the series; '
     'each with the average weighted on time, the minimum, maximum and sum of (only) the source data in that slot, and the data loss equal to the part not covered by valid source data.',
     'inputs configurations', 'every series of points, unit, range, choice of operations, interpolator and filling',
     'The tests compare a few values on one or two data sets, hourly or daily, in one time zone.',
     [TR, OPS, UN], [('aggregation', 'Aggregator and _Transformation in ' + TR), ('operations', OPS), ('unit shift and rounding', UN)],
     ['every slot of the aggregated series, against a reference computed on the regions of validity of the points'], 'ref',
     'Sampled; values compared with a relative tolerance of 1e-6. Slots which fall on DST changes at midnight are not generated.')

prop('P18', 'Transformations do not depend on scale, other labels, time shift or the rest',
     'Resampling or aggregating a series rescaled, with other labels, shifted by a multiple of the unit, on another time zone (for physical units) or cut to a part gives the corresponding results; '
     'averages are within the extremes of the source, data losses are between 0 and 1, and no data which was lost before a transformation disappears from the data losses after it.',
     'inputs', 'every series of points, unit and chain of transformations',
     'No test compares transformations with each other.', [TR, IN], [('resampling and aggregation', TR)],
     ['the transformed series of related sources, compared with each other'], 'meta', 'Sampled; metamorphic relations, which complement the reference models of P16 and P17.')

prop('P20', 'The sampling interval and the periodicity are detected right',
     'The auto-detected sampling interval of a series of points is the most common spacing (also with missing points, jitter below its granularity, decimals and after any change of the series), its detection always ends, and views, slices and duplicates agree with a series built afresh; '
     'the detected periodicity of a clean periodic signal is its period.',
     'inputs histories', 'every series of points with a dominant spacing, and every periodic signal with enough periods',
     'The tests detect the interval of two or three files.', [UT, DS], [('detect_sampling_interval, detect_periodicity', UT), ('cached autodetected_sampling_interval', 'TimeSeries in ' + DS)],
     ['the detected values against the spacings and periods the series were generated with'], 'ref', 'Sampled; no claim on series with no dominant spacing beyond the end of the detection, nor on noisy signals.')

prop('P21', 'Time units shift, round and measure time according to the calendar',
     'Adding a time unit to a datetime, point or slot, or subtracting it (if not a calendar one), gives the instant required by the calendar of its time zone for calendar units (same local time on another day, month or year) and exactly that number of seconds for physical units, also across DST changes and leap days, or fails if it does not exist; '
     'slots built on the unit end where the next one starts, and the string of a unit gives back an equal unit.',
     'inputs', 'every unit, instant and time zone', 'The tests add units to about ten datetimes, mostly in Europe/Rome.',
     [UN, DS], [('TimeUnit and Unit', UN), ('TimeSlot end', DS)], ['datetimes, points and slots obtained, against an independent calendar arithmetic'], 'ref',
     'Sampled. Rounding is checked for the units and zones where the (external) propertime library, which performs it, is right.')

prop('P32', 'Interpolators are exact within the series and refuse to extrapolate',
     'For any instant between two items of a series, whose positions may be given or left to be found, the linear interpolator returns data on the straight line between the two and the uniform one their mean, for every data label and in the format of the source data; '
     'any instant outside of the series, or of the given pair of items, is refused, as is giving only one position.',
     'inputs', 'every series of points, also irregular, views and with list data, and every instant',
     'The interpolators are tested only through resampling a few files.', [IN], [('evaluate', IN)],
     ['every interpolated value, against exact arithmetic on the neighbours; the exceptions'], 'ref', 'Sampled; values compared with a relative tolerance of 1e-9.')

prop('P22', 'Models refuse what they were not fitted for, and change nothing when they do',
     'A model which has to be fitted refuses to predict, apply, evaluate and be saved before it is, and after refuses series with other data labels or another resolution; no model accepts what is not a series, is empty or has a variable resolution, and none without parameters can be saved. '
     'Models for a single data label refuse to be fitted on more. What is refused, with the error which is due, leaves series, model and file system as they were, while what is proper is accepted and does not change the series either.',
     'histories inputs', 'every history of fits, predictions, applications, evaluations and saves, on every kind of model (also user-written) and series',
     'The tests try one or two of the wrong calls on a couple of models, each on a new one, and never look at what a refusal leaves behind.',
     [MB, MF, MR, MA], [('decorators of the fit, predict, apply, evaluate and cross_validate functions', MB), ('save', MB)],
     ['the outcome of each call of the history, the model state, the series and the file system before and after it'], 'model', 'Sampled histories. Keras-based models are out (TensorFlow is not installed).')

prop('P24', 'Forecasts continue the series, one right item per step, and keep what was there',
     'Applying a forecaster for some steps gives a new series with the original items, as they were, followed by exactly that many items of the same kind, each one resolution (or slot unit) after the previous and in the time zone of the series, holding the values predicted by the model for that step; '
     'a model which predicts only one step is asked again on the series extended with its own predictions, and one with a window is never given less than that. '
     'One fit with context data requires them, does not alter them and forecasts them as given beside the values predicted from them.',
     'inputs', 'every forecaster (library and user-written, for one or for many steps, with or without context data), series of points or slots and number of steps',
     'The tests apply the forecasters on a sine of hourly or daily items in one time zone, and mostly count the items.', [MF, MB], [('forecast and apply', MF), ('window checks', MB)],
     ['every item of the forecast and of the original, and (log of the calls) what the model was given'], 'model', 'Sampled. The user-written models log their calls; values compared with a relative tolerance of 1e-9.')

prop('P25', 'The periodic average forecaster forecasts the averages of the phases',
     'A periodic average forecaster, for each data label and future item, forecasts the average of the fit items in the same phase of the (given or detected) periodicity, phases being those of the local time if adjusted for the daylight saving, plus the mean difference of the last window of the series from such averages; '
     'items whose data loss is at or over the limit do not count in the averages, and those with a smaller or no one do.',
     'inputs', 'every fit series, periodicity, window, and stretch of time to forecast, also before the epoch, of calendar slots and over DST changes',
     'The tests compare a few RMSE on one file or on a sine, which many wrong alignments give as well.', [MF, UT], [('fit and predict of PeriodicAverageForecaster', MF), ('get_periodicity_index, detect_periodicity', UT)],
     ['every forecasted value, against an independent computation of phases and averages'], 'ref', 'Sampled; values with a relative tolerance of 1e-7. The window left out by one item (known finding) is reported only by the case kind about it.')

prop('P26', 'Reconstructors fill in exactly what is lost, and touch nothing else',
     'Applying a reconstructor gives (in a new series, or in the same one if in place) the same items, where all those with a data loss at or over the threshold, and only those, have the reconstructed data: the straight line between the two neighbours for the linear one, the phase averages plus the offset at the edges of the gap for the periodic average one, what it predicted for any other. '
     'Timestamps, units, labels, indexes and the data of the other items stay the same, and gaps which cannot be reconstructed (at the ends, for these two) are refused leaving the series as it was.',
     'inputs', 'every series, pattern of gaps and threshold',
     'The tests reconstruct two or three gaps and compare a few values.', [MR], [('apply of the Reconstructor', MR), ('predict of each reconstructor', MR)],
     ['every item after the reconstruction, against a reference and a log of the predictions'], 'ref', 'Sampled. Prophet only judged against its own (logged) predictions.')

prop('P27', 'Anomaly indexes are those of the error distribution, and events those marked',
     'An anomaly detector gives each item the error of its model in reproducing it from the neighbouring ones, and an anomaly index, between 0 and 1 (for each data label, then combined as requested), which is 0 below the lower bound, 1 over the upper one and grows with the improbability of the error (by its distribution in the fit) in between; items lost or near to lost ones are left without it. '
     'The events marked are the maximal stretches of anomalous items, joined over the allowed gaps and with the required persistence, each with its right start, end and ends of the scale. Inspecting a detector shows, for each data label, its errors and their distribution.',
     'inputs', 'every series, model, error metric, bounds, index type, threshold and strategy',
     'The tests look at a handful of indexes and events on a couple of series, with default options.', [MA], [('fit, inspect and apply of the ModelBasedAnomalyDetector', MA), ('mark_events', MA)],
     ['prediction, error, index and event of every item; texts and figures of the inspection'], 'ref', 'Sampled; the distributions are those fitted by the (external) library, whose parameters are read from the model.')

prop('P28', 'Evaluations are the error metrics over the items predicted, and nothing else',
     'The evaluation of a forecaster or a reconstructor gives, overall and by data label, the error metrics (in their textbook definition) of its predictions, each made without being shown the item to predict, over all the items for which there is enough of a window; the data losses and limits are honoured, as is the choice of the metrics, of the per-item results and of the error plots. '
     'A cross validation fits each time only on the items out of the block which it evaluates, covers with its blocks the series, and gives mean and deviation of such evaluations.',
     'inputs', 'every model, series, metric and number of rounds', 'The tests compare a few final figures, computed with the code itself, on one series.', [MF, MR, MB], [('evaluate', MF), ('evaluate', MR), ('cross_validate', MB)],
     ['metrics and per-item results, against those computed from reference predictions; the log of what the models were shown'], 'ref', 'Sampled; metrics with a relative tolerance of 1e-7. Reconstructor evaluations with or without the last possible place are both accepted.')

prop('P23', 'A saved model comes back the same',
     'A fitted model which is saved and loaded, in the same process or in another one, gives exactly the same predictions, applications, evaluations, refusals and detections as the original, has the same parameters, can be fitted again with the same outcome, and can in turn be saved and loaded. '
     'A save which fails leaves nothing behind, and neither saving nor loading alters the model or what is saved.',
     'inputs', 'every model (also user-written, nested in a detector or based on Prophet and ARIMA), option of the fit, data label and series',
     'The tests save and load few models with default options in one process and compare a value or just the identifier; what is not saved only shows up on the options, series and operations which use it.', [MB, MF, MR, MA],
     [('save and _load', MB), ('save and _load of Prophet, ARIMA and detectors', MF + ', ' + MR + ', ' + MA)],
     ['the outcome of each operation on the original and on the loaded model, and the content of the directory'], 'rt',
     'Sampled. The Keras part of the LSTM models is a stand-in (TensorFlow is not installed), see P29. Refitting a loaded periodic average forecaster is compared only with automatic window.')

prop('P29', 'The LSTM forecaster shows the network the right windows, and reads it right',
     'Whatever window, features, targets, context and normalization, the LSTM forecaster trains the network on all and only the windows of consecutive items (without those to leave out for their data loss) each with the following item as target, and predicts from the last window, with values, differences and hours where they should be and normalized with the minimum and maximum of the fit; '
     'what the network answers is brought back to the scale of its label. Evaluations, cross validations, loaded models and anomaly detectors do the same.',
     'inputs', 'every combination of options, series of points or slots, and pattern of data losses',
     'The LSTM tests cannot even run without TensorFlow, and where they do they compare the error of a trained network within a tolerance, in which a misaligned window or a wrong scale disappear.', [MF, MB, MA],
     [('fit, predict and window matrices of LSTMForecaster', MF), ('cross_validate', MB)],
     ['every matrix given to the network (a recording stand-in for Keras) and every value coming back'], 'ref',
     'Sampled. TensorFlow is not installed: what is judged is the whole of the code around the network, not the network. The two known findings are reported only by the case kinds about them.')

prop('P07', 'Computations alter nothing but their result, which is on its own',
     'A query, operation, transformation, conversion, storage, plot, interpolation or model operation which is not asked to work in place leaves the series and every argument exactly as they were (items, data, losses, indexes, labels, order, time zones, resolution), also if it is refused and also if the series is a view. '
     'What it gives shares no data with them, except for what is documented to share (views, slices, filters): altering the result later does not alter the source or the arguments, nor the other way round, and a fitted model keeps nothing of the series on which it was fitted or of what it gave.',
     'inputs', 'every computation of the library, argument, type of series and later alteration',
     'The tests check the values which come out; something shared or altered on the side is only visible looking again, afterwards, at everything which went in.', [DS, OPS, TR, MB],
     [('duplicate, view and to_dict', DS), ('the operations', OPS), ('process of the transformers', TR), ('decorators of fit, predict and apply', MB)],
     ['full snapshots of series, arguments and results before, after, and after altering any of them'], 'snap',
     'Sampled over a registry of about a hundred computations with random arguments.')

prop('P19', 'The same computation gives the same result, whatever happened before',
     'What a computation gives depends only on its arguments and on the content of the series: not on which computations were done before, on other series or with the same transformer, interpolator or model object, not on whether the series was built, duplicated or changed in place to get to its content, and not on the process, its hash seed, local time zone or working directory. '
     'A model which is fitted again forgets the previous fit.',
     'histories', 'every sequence of computations and changes in place, and process settings',
     'A cached or leftover value only shows up in the sequences which fill it with something else first; the tests mostly use each object once, in one process and time zone.', [DS, OPS, TR, IN, MB, UT],
     [('the resolution and its cache', DS), ('the interpolators and their caches', IN), ('fit', MB)],
     ['the outcome, bit by bit, of each computation in a history and on a newly built equal series, and in other processes'], 'meta',
     'Sampled. Models based on Prophet and ARIMA are covered by P23 and P26 as repeating their fits is slow.')

prop('P30', 'Plots show the data',
     'The rows given to the plotting library are the items of the series, each at its own wall clock time on the time zone of the series (also across DST changes), with its values, in the columns of its labels, and with its data loss and indexes. When aggregated they are the minimum, average and maximum of consecutive items with none left out. '
     'Marks are where they are asked to be, ranges include every value, the legend shows each label with its own value, and what is saved is what is shown; the Matplotlib engine draws the same items, times and values.',
     'inputs', 'every series, time zone, label, option of the plot and number of items',
     'The tests only check that plotting gives no error: the output is a JavaScript program whose meaning is only known by running it.', [PL, DS],
     [('dygraphs_plot, _to_dg_data', PL), ('plot', DS)],
     ['the arguments received by a recording stand-in for the Dygraphs library, in a JavaScript engine running the HTML given; the lines of the Matplotlib figures when shown'], 'ref',
     'Sampled. The stand-in does not draw: what the library does with what it is given is not judged.')

prop('P31', 'Points and slots are what they are built from',
     'A point or slot in time built in any of the equivalent ways (epoch, datetime, time zone as name or object, end or unit) is at the same instant, with the right wall clock time, length and unit, on every time zone and across DST changes; changing time zone does not move it. '
     'Equality and order follow the instants and the data, data labels, loss and indexes are the ones given, and what makes no sense (slots ending before they start, strings or NaNs as coordinates, inconsistent data) is refused.',
     'inputs', 'every instant, time zone, unit, data and way of building them',
     'The tests sample a few instants and zones; transitions, sub-second timestamps and pre-epoch times are where they differ.', [DS, UN, UT],
     [('Point, TimePoint, DataTimePoint, Slot, TimeSlot and DataTimeSlot', DS), ('TimeUnit arithmetic', UN)],
     ['every attribute, comparison and refusal of the items, compared with an independent calendar'], 'ref',
     'Sampled.')

prop('P33', 'Series which are not of time keep the same order, and compute the same',
     'A series of anything else which has an order or a succession (numbers, strings, dates, points and slots with any coordinates, with or without data, or custom objects) contains exactly the items which were accepted, all of the same kind and in order or in succession whatever was appended, inserted, assigned, removed or added; what would break this is refused leaving the series as it was. '
     'Accesses, slices, positions, copies and duplicates are those of the list of the items, and scalar operations, filters, selections, renamings, rescalings, offsets, normalizations, moving averages, differences and cumulative sums are those of their data.',
     'histories', 'every type of item, history of changes and operation',
     'The tests use a few integers and points; the rules of the base class are shared with the time series but are checked and overridden separately.', [DS, OPS],
     [('Series', DS), ('the operations on points which are not in time', OPS)],
     ['a list with the same rules, step by step, with the items compared by identity and by content'], 'ref',
     'Sampled. Removing from a succession is allowed to be refused, as documented.')

prop('P34', 'An interrupted computation leaves no trace',
     'Wherever a computation which is not in place is interrupted, by Ctrl-C or by an error (as of an operation or interpolator given by the user), the series it was working on is exactly as it was, and whatever is computed on it afterwards gives what it would have given without the interruption. '
     'The same holds for a fitted model interrupted while it is predicting, being applied or being evaluated: it keeps giving the same results.',
     'crash_points histories', 'every computation of the library and every point of its execution at which it can be interrupted, also several times in a row',
     'The tests only let computations run to their end; what is set aside while computing and only removed at the end stays there if the end is never reached, and silently alters what is computed next.', [DS, OPS, TR, MB, MR],
     [('the support attributes of the points while transforming', TR), ('the evaluation and application of models', MB)],
     ['a trace of the lines executed by the library, used to interrupt it at a random one', 'snapshots of the series and of the models before and after', 'the outcome of the same and of other computations afterwards, bit by bit, against those on a series never used'], 'faults',
     'Sampled: one random line for each interruption. Interruptions of changes in place and of fits, which are allowed to be left half way, are not covered.')

prop('P35', 'Computations going on together do not disturb each other',
     'When several threads compute at the same time, and not in place, on the same series or with the same fitted model, each of them obtains exactly what it would obtain alone, whatever the order in which they happen to be interleaved. '
     'The series and the models are left as they were.',
     'schedules', 'every set of computations on the same series or with the same model, and every interleaving of their lines',
     'The tests have one thread only; anything set aside on what is shared (points, models, transformers) is overwritten by another thread only if it is switched at the wrong moment.', [DS, OPS, TR, MB, MR],
     [('the support attributes of the points while transforming', TR), ('the state kept by models while predicting', MR)],
     ['a scheduler which lets one thread go on at a time and switches them at random lines of the library', 'the outcome of each thread, bit by bit, against the one it has alone', 'snapshots of the series and models'], 'schedule',
     'Sampled: two to four threads, with switches between lines (not within one), from frequent to rare.')

prop('P36', 'The numeric and system utilities compute what they are named after',
     'The mean and maximum absolute, percentage and log errors and the mean squared error of two lists, the rescaling of a number, the density of a probability distribution and the point with a given density on the requested side of it are those given by their definitions for any values, and lists of different lengths and numbers outside the source range are refused. '
     'A shell command gives its exact output, errors and exit code if they are to be captured, and otherwise whether it succeeded, whichever they are. '
     'Ensuring the reproducibility always starts the random generators from the same state, and only numbers are deemed numerical.',
     'inputs', 'every pair of lists, range, distribution, command and state of the random generators',
     'The tests try one or two values of some of them.', [UT],
     [('the error metrics, rescale, DistributionFunction, os_shell, ensure_reproducibility and is_numerical', UT)],
     ['their results against the definitions, computed with fractions or closed forms'], 'ref',
     'Sampled. Distributions: norm, laplace, logistic, cauchy and gennorm, centred near zero with respect to their scale.')

prop('P37', 'A computation leaves no other trace than its result',
     'Whether it succeeds or fails, a computation leaves the process as it was (open files, threads, working directory, environment, locale, random generators, numeric error handling, warnings, logging and the other settings), starts no other process, does not use the network, and writes no files but those it is asked for; doing it again and again does not leave more and more objects in memory. '
     'Reading a file, also a broken one, opens that file only for reading, closes it, and never runs what is in it. '
     'Nothing is printed unless asked, the log level makes no difference on the results, and the log messages can always be written.',
     'inputs', 'every computation, on every series and file, at every log level',
     'The tests look at the results only, not at what is left behind, and run at a single log level.', [DS, OPS, TR, ST, MB],
     [('any computation not in place', DS), ('the operations and transformations', OPS), ('the CSV storage', ST), ('fitting, applying, evaluating, saving and loading models', MB)],
     ['the state of the process before and after each computation, the audit events of the interpreter in the meanwhile, the objects alive after each repetition, every log message'], 'resources',
     'Sampled. Single process on Linux; the models which need external programs (Prophet, LSTM, ARIMA) and the rendering of plots as images are left out.')

#PROPS-END

NOT_APPLICABLE = []

KNOWN = [
    {'id': 'KF1', 'property': 'P05', 'mechanism': 'empty-view-index', 'status': 'known',
     'what': 'indexing an empty view, as series.view(0,0)[-1], returns an item of the underlying series instead of raising IndexError '
             '(not repaired: the Prophet forecaster and its existing test rely on it when applied with an empty context)'},
    {'id': 'KF2', 'property': 'P25', 'mechanism': 'offset-window', 'status': 'known',
     'what': 'predicting with the periodic average forecaster on a series longer than its window, the deviation from the averages is computed on the window which ends one item before the end of the series, '
             'leaving out the last item (not repaired: the values in the existing tests are those given by the shifted window)'},
    {'id': 'KF3', 'property': 'P23', 'mechanism': 'generic-detector-load', 'status': 'known',
     'what': 'a ModelBasedAnomalyDetector created with a model_class can be saved, but not loaded: the class is not among what is saved, and the one of the detector does not tell it '
             '(not repaired: there is no format for a class in the saved models; a subclass with the model_class set works)'},
    {'id': 'KF4', 'property': 'P29', 'mechanism': 'context-leak', 'status': 'known',
     'what': 'evaluating an LSTM forecaster fitted with context data, the actual value of the target to be predicted is given to the network as part of the context '
             '(not repaired: the evaluation figures in the existing LSTM tests are those with the leak)'},
    {'id': 'KF7', 'property': 'P29', 'mechanism': 'detector-context-leak', 'status': 'known',
     'what': 'fitting and applying the LSTM anomaly detector with context, the actual value of the label to be predicted is given to the network as part of the context, while it was not when training it '
             '(not repaired: the error figures in the existing test of the detector with context are those with the leak, and it cannot run here)'},
    {'id': 'KF5', 'property': 'P29', 'mechanism': 'network-kept', 'status': 'known',
     'what': 'cross validating an LSTM forecaster, each round goes on training the network of the previous ones, fitted on the items on which it is then evaluated '
             '(not repaired: the figures in the existing LSTM cross validation test are those given by it)'},
    {'id': 'KF6', 'property': 'P28', 'mechanism': 'prophet-first-item', 'status': 'known',
     'what': 'evaluating the Prophet forecaster, the first item (which has nothing before) is compared with the prediction for the item after the last one, as the view of its preceding items is empty and KF1 applies '
             '(not repaired: the figures in the existing test, among which those of an evaluation on that first item only, are those given by it)'},
]

# Which property each fix commit is about, by a fragment of its message
FIXES = [
    ('a rejected append must not alter', 'P02'), ('discard the auto-detected sampling interval', 'P03'), ('keep resolution, ordering and data checks up to date', 'P03'),
    ('validate inserted items', 'P01'), ('enforce the series checks on item assignment', 'P01'), ('allow to pop the last item', 'P01'),
    ('return the position from the series index()', 'P04'), ('raise an IndexError for out of range negative', 'P04'), ('return a series instead of a plain list when copying', 'P06'),
    ('support slicing a time series in the square brackets', 'P04'), ('never expose items outside of a (non-empty)', 'P05'), ('support slots and slot series across DST', 'P01'),
    ('do not mangle the decimals when converting seconds', 'P03'), ('do not loop forever when the sampling interval', 'P20'), ('support (first) sampling intervals below', 'P03'),
    ('support the value argument in the time unit', 'P21'), ('return the series when loading it or creating it', 'P12'), ('support changing the time zone of an empty', 'P06'),
    ('do not alter the data indexes passed as argument', 'P06'), ('compute in-place derivatives', 'P09'), ('do not mix the data labels when computing the integral', 'P09'),
    ('support numerical offsets on list data', 'P09'), ('do not share the data indexes between', 'P06'), ('do not change the time zone of other slots', 'P06'),
    ('do not alter the source series data when aggregating', 'P07'), ('do not ignore zero-valued start, end and fill_with', 'P16'), ('do not leave the transformation weights', 'P07'),
    ('keep the time zone of a slot series up to date', 'P01'), ('do not consider in succession slots', 'P01'), ('use the actual spacing also at the ends', 'P09'),
    ('support storing series where not all of the items', 'P12'), ('do not overwrite the file when the series cannot be stored', 'P15'), ('do not mix the columns of a CSV file', 'P13'),
    ('recognize the UTF-8 encoding', 'P12'), ('use the separator and encoding of the storage', 'P12'), ('do not change the data type of a CSV storage', 'P12'),
    ('do not require to detect the sampling interval when loading slots', 'P12'), ('refuse to store in CSV files series with labels', 'P12'), ('properly fill missing slots when getting', 'P13'),
    ('detect also leap years', 'P13'), ('support loading back series saved on time zones with no name', 'P12'), ('do not take for a header the first line', 'P13'),
    ('skip also the CSV file lines with no timestamp', 'P13'), ('do not take the decimals of the seconds', 'P13'), ('support converting series with list data to data frames', 'P14'),
    ('do not lose the existing file when the data cannot be written', 'P15'), ('compute the contribution of previous data losses', 'P18'), ('support aggregating in slots with no points', 'P17'),
    ('check the start and end of a transformation on the time zone', 'P17'), ('do not go beyond the requested end', 'P17'), ('support aggregating in calendar slots when the first point', 'P17'),
    ('support numerical time units below a tenth', 'P21'),
    ('search for the surrounding points and refuse', 'P32'), ('support interpolating list data', 'P32'),
    ('fitting the periodic average forecaster with a given window', 'P25'), ('detect the periodicity of each data label', 'P25'), ('average the periodic average forecaster offset', 'P25'),
    ('compute the periodicity index also for calendar', 'P25'), ('restore the averages when loading', 'P23'), ('do not fit the periodic average reconstructor when all', 'P26'),
    ('support evaluating reconstructors with predictions', 'P28'), ('use the series time zone when predicting with the Prophet', 'P26'), ('mark anomalous events which are still open', 'P27'),
    ('do not stop detecting anomalies at the first lost', 'P27'), ('do not share items between the series and the anomaly', 'P07'), ('name of the adherence details', 'P27'),
    ('support a list of target data labels', 'P29'), ('do not check the resolution of single point series', 'P22'), ('only remove the prefix from the cross validation', 'P28'),
    ('do not leave an unusable directory', 'P23'), ('do not let the fit series of ARIMA', 'P24'), ('support recent statsmodels', 'P24'), ('do not use predictions of a previous fit', 'P27'),
    ('do not require the fit errors for anomaly index', 'P27'),
    ('forecast single data points also', 'P24'), ('do not require resolution and data labels for parametric', 'P22'), ('support forecasting from a series with a single', 'P24'),
    ('handle items with an unknown data loss when fitting', 'P25'), ('mirror the errors around the center', 'P27'), ('support marking events also on items', 'P27'),
    ('keep the anomaly index between', 'P27'), ('support the anomaly detection details on series', 'P27'), ('evaluate also forecasters which set their window', 'P28'),
    ('use the default error metrics if the one minimized', 'P29'), ('compute the MAPE of the reconstructors', 'P28'),
    ('save and load also what the Prophet models', 'P23'), ('save and load also what the ARIMA models', 'P23'), ('do not use the normalization of a previous fit', 'P29'),
    ('support context data also for slots', 'P29'),
    ('do not share the data between a time series and the dictionary', 'P07'), ('do not leave the last items out of the aggregated plots', 'P30'),
    ('place the plot marks on the time zone', 'P30'), ('do not leave negative or null values out of the value range', 'P30'), ('support any data label in the plots', 'P30'),
    ('support comparing slots with anything else', 'P31'), ('refuse strings and NaNs as point coordinates', 'P31'), ('refuse slots which end before their start', 'P31'),
    ('support steps when slicing time series', 'P04'),
('do not return all the items when asking for the last zero', 'P04'),
    ('write the comments of stored series with the comment characters', 'P12'),
('do not drop columns when getting float data', 'P13'),
    ('delete slices of a series at once', 'P02'),
('do not leave part of the items in the series when adding', 'P02'),
('do not break the order of a series when multiplying', 'P01'),
('refuse to rename a data label as another one', 'P11'),
    ('enforce the data checks also when the first item', 'P01'),
('support slots of any decimal length', 'P31'),
    ('plot the points of series on mixed time zones', 'P30'),
    ('support the operations which do not depend on time also on series of data points', 'P33'),
    ('draw the error distribution of each data label on the range', 'P27'), ('support a data label named "Timestamp"', 'P14'),
    ('do not leave the support attributes on the points of a series if transforming', 'P34'),
('do not keep on the linear interpolation reconstructor the interpolator', 'P35'),
('report the output of a failed shell command instead of raising', 'P36'),
    ('do not alter a model, not even temporarily', 'P34'),
    ('leave the warnings of the user enabled', 'P37'),
    ('adjusted for DST on time zones where it is negative', 'P25'),
]


def main():
    ids = [p['id'] for p in PROPS]
    assert len(ids) == len(set(ids)), ids
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS + [p for p in NOT_APPLICABLE if 'title' in p]:
            assert 'timeseria' in p['files'][0]
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']], 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    manifest = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
                'checks': [{'property': p['id'], 'quick_cmd': 'bash /verif/run.sh %s quick' % p['id'], 'thorough_cmd': 'bash /verif/run.sh %s thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS],
                'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
                'notes': 'The code under test is Python: nothing to build, every check imports it from the working tree of /repo. No hooks are needed in /repo: the monitors attach from outside.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for line in log:
        commit, _, message = line.partition(' ')
        if message.startswith('fix: '):
            found = [pid for fragment, pid in FIXES if fragment in message]
            assert len(found) == 1, (message, found)
            fixed.append('fixed: property=%s %s %s' % (found[0], commit, message[5:]))
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump({'findings': KNOWN, 'fixed': fixed}, f, indent=1)
        f.write('\n')
    design()


def design():
    """The per-property table at the end of DESIGN.md, from the rules in the checks."""
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    marker = '| Property | Workload and oracle | Bounds and limits | Cases quick / thorough |\n|---|---|---|---|\n'
    head = text[:text.index('| Property |')] + marker
    rows = []
    for p in PROPS:
        module = importlib.import_module('vt.checks.' + p['id'].lower())
        scale = getattr(module, 'SCALE', {'quick': 3, 'thorough': 2})
        n = [sum(case[tier] * (scale[tier] if case[tier] >= 1000 else 1) for case in module.CASES.values()) for tier in ('quick', 'thorough')]
        rows.append('| %s %s | %s | %s | %s / %s |\n' % (p['id'], p['title'], module.RULE.strip().replace('|', '\\|'), p['note'].replace('|', '\\|'), n[0], n[1]))
    with open(path, 'w') as f:
        f.write(head + ''.join(rows))


main()
