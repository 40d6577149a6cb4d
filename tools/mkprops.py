#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list below is the source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(d)

# ---------------------------------------------------------------- storage and streams
p('S01', 'Binary dataset container round-trips under any stream fragmentation',
  'Writing a dataset to the binary container and reading it back gives an equal dataset: the same attributes (name, kind, precision, category values in order), the same class attributes, the same number of rows and bit-for-bit the same values in row order. This holds however the reader or file hands over the bytes (any split into short reads, a final read that carries EOF) and in whatever order internal hash tables are walked; only names or category values that are not valid UTF-8 may be refused, with an error.',
  ['inputs', 'schedules', 'fault_sequences'],
  'every dataset (attribute kinds float, categorical, one-bit binary; views and filtered grids; zero rows upwards), every fragmentation of the read stream, every internal map order',
  'The tests round-trip three small files through bytes.Buffer and a real file, which always deliver everything asked for; the container is walked several times with seeks, and each of its many small reads may legally come back short.',
  ['base/serialize_instances.go', 'base/serialize.go', 'base/serialize_attributes.go', 'base/filewrapper.go'],
  [('tar sections MANIFEST/DIMS/CATTRS/ATTRS/DATA', 'base/serialize_instances.go:SerializeInstancesToTarWriter'),
   ('re-reading the archive from the start for each section', 'base/serialize.go:FunctionalTarReader'),
   ('attribute order', 'base/util_attributes.go:NonClassAttributes')],
  ['SerializeInstances', 'DeserializeInstances', 'SerializeInstancesToFile'])

p('S02', 'A dataset export that reports success has delivered exactly that dataset',
  'When an export of a dataset (binary container, CSV or ARFF, to a stream or to a named file) reports success, every byte was accepted by the stream or made durable in the file, and the file holds exactly the export and nothing of what it held before. If any write, flush, sync or close fails or is cut short, the export reports an error.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every write/sync/close failing, accepting only part, or running out of space, at every operation of the export; every previous content of the destination file; power loss at any point after success',
  'No test makes a write fail; a disk that fills up on the last flush is invisible to any test on a healthy disk.',
  ['base/serialize_instances.go', 'base/arff.go'],
  [('error propagation from tar/gzip/csv writers', 'base/serialize_instances.go'),
   ('ARFF writer', 'base/arff.go:SerializeInstancesToWriterDenseARFFWithAttributes')],
  ['SerializeInstancesToFile', 'SerializeInstancesToCSV', 'SerializeInstancesToDenseARFF', 'stream variants'],
  'os.File calls are intercepted by a build-time overlay of package os')

p('S03', 'Damaged dataset and model files are rejected, never misread',
  'Opening a binary dataset or saved model whose stored bytes were truncated, torn, zero-filled, bit-flipped or cut off by a crash during saving, or whose source fails while it is read or repositioned, either reports an error or yields exactly what was saved. It never crashes the process, never loops, and never returns different data or a model that predicts differently.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every truncation point, every set of corrupted bytes or lost sectors of a previously valid file, every crash point during a save',
  'Tests only ever open intact files; a parser that trusts its input passes them all.',
  ['base/serialize_instances.go', 'base/serialize.go', 'base/serialize_attributes.go'],
  [('format manifest and dimension checks', 'base/serialize_instances.go:DeserializeInstancesFromTarReader'),
   ('gzip checksum', 'base/serialize.go:ReadSerializedClassifierStub')],
  ['DeserializeInstances', 'Load of every model kind'],
  'os.File calls are intercepted by a build-time overlay of package os')

p('S04', 'A saved model reloads to a predictor that gives the same answers',
  'For every kind of model that can be saved (nearest neighbours, decision trees and random trees, naive Bayes, linear SVM, one-versus-all, bagged ensembles, random forests, multi-class SVM), saving a trained model (or reporting an error, if its data has names or values that are not valid UTF-8) and loading it into a fresh object gives a model whose predictions on every dataset it accepts equal the original\'s. This holds for stand-alone models and for models nested inside ensembles, however file reads are split up and whatever order internal hash tables are walked.',
  ['inputs', 'histories', 'schedules'],
  'every model kind, training set, hyper-parameter setting, nesting, fragmentation of file reads and internal map order; load into new or already used objects',
  'Tests save and load one default-configured model per kind on iris and compare against one dataset.',
  ['base/serialize.go', 'knn/knn.go', 'trees/id3.go', 'trees/random.go', 'naive/bernoulli_nb.go', 'linear_models/linearsvc.go', 'meta/one_v_all.go', 'meta/bagging.go', 'ensemble/randomforest.go', 'ensemble/multisvc.go'],
  [('per-model key layout with prefixes', 'SaveWithPrefix/LoadWithPrefix in each model package')],
  ['Save', 'Load', 'Predict'],
  'os.File calls are intercepted by a build-time overlay of package os')

p('S05', 'Saving a model succeeds only if a complete, durable file was written',
  'When saving a model reports success, the file on disk is complete: loading it succeeds and gives the same predictions, even if the machine loses power immediately afterwards and everything not synced is gone. If any file operation the saved content depends on fails, is cut short or runs out of space, saving reports an error; the trained model stays usable.',
  ['fault_sequences', 'crash_points'],
  'every file operation of the save (create, write, sync, close, temporary files) failing or cut short, in any combination; power loss right after success',
  'No test injects a failing disk; ignoring the error of the final close, flush or sync is invisible on a healthy one.',
  ['base/serialize.go', 'knn/knn.go', 'trees/id3.go', 'trees/random.go', 'naive/bernoulli_nb.go', 'linear_models/linearsvc.go', 'meta/one_v_all.go', 'meta/bagging.go', 'ensemble/randomforest.go', 'ensemble/multisvc.go'],
  [('flush and sync on close', 'base/serialize.go:ClassifierSerializer.Close'),
   ('error propagation', 'Save in each model package')],
  ['Save', 'Load'],
  'os.File calls are intercepted by a build-time overlay of package os')

p('S06', 'CSV import does not depend on delivery and never hides a read error',
  'Parsing CSV text gives the same dataset however the source delivers the bytes and whatever order internal hash tables are walked, one row per record with the record\'s values and attribute kinds inferred from the data. If the source fails while it is read or repositioned, the import reports an error instead of crashing or returning a shortened or padded dataset.',
  ['fault_sequences', 'inputs', 'schedules'],
  'every CSV text in the supported dialect (with and without header), every fragmentation of reads, a read or seek failure at any point, every entry point (file, stream, template, explicit attribute groups)',
  'Tests read intact local files in one go; the importer scans the source several times, and each pass can fail or come back short.',
  ['base/csv.go', 'base/filewrapper.go'],
  [('precision, row-count and attribute sniffing passes', 'base/csv.go'), ('panic-to-error recovery', 'base/csv.go')],
  ['ParseCSVToInstances*', 'ParseCSVToTemplatedInstances*', 'ParseCSVToInstancesWithAttributeGroups*'],
  'os.File calls are intercepted by a build-time overlay of package os')

p('S07', 'ARFF import does not depend on delivery and never hides a read error',
  'Parsing dense ARFF text gives the same dataset however the source delivers the bytes: one row per data record with the declared attributes, their kinds and their category values. If the source fails while it is read or repositioned, or the text ends inside the header, the import reports an error instead of crashing or returning a shortened dataset.',
  ['fault_sequences', 'inputs'],
  'every dense ARFF text in the supported dialect, with or without quoted names and values, every fragmentation of reads, a read or seek failure at any point, long lines',
  'Tests read two intact local files.',
  ['base/arff.go'],
  [('header scan', 'base/arff.go:ParseARFFGetAttributes'), ('row count', 'base/arff.go:ParseARFFGetRows'), ('data section', 'base/arff.go:ParseDenseARFFBuildInstancesFromReader')],
  ['ParseDenseARFFToInstances', 'ParseARFFGetRows', 'ParseARFFGetAttributes', 'ParseDenseARFFBuildInstancesFromReader'],
  'os.File calls are intercepted by a build-time overlay of package os')

p('S08', 'Text exports re-import to the same table',
  'A dataset exported as CSV or ARFF and imported again has the same columns and the same rows in the same order with the same values at the stored precision (as far as untyped text can carry them: categories that do not look like numbers and have no surrounding blanks, nor line breaks for ARFF), and the same last class column, whatever order internal hash tables are walked and however the streams split the bytes. This holds for plain datasets and for views that hide, reorder, filter or resample rows and columns.',
  ['inputs', 'schedules', 'histories'],
  'every dataset of float and categorical attributes, every stack of views over it, every internal map order, every stream fragmentation',
  'Column order follows hash-table iteration unless something sorts it, so a handful of test runs passes or fails by luck; views are exported by no test.',
  ['base/serialize_instances.go', 'base/arff.go', 'base/csv.go', 'base/util_attributes.go', 'base/view.go'],
  [('column ordering', 'base/util_attributes.go:NonClassAttributes'), ('row iteration', 'base/view.go:MapOverRows')],
  ['SerializeInstancesToCSVStream', 'SerializeInstancesToWriterDenseARFFWithAttributes', 'ParseCSVToInstancesFromReader', 'ParseDenseARFFToInstances'])

p('S09', 'Files and temporary files are released on every path, including failures',
  'After any export, import, save or load has returned, whether it succeeded or failed, every file it opened by itself is closed again and no temporary file it created is left behind. Streams handed in by the caller stay usable.',
  ['fault_sequences', 'inputs'],
  'every operation of the library that takes a file name, every file operation inside it failing',
  'Leaks are invisible to tests that never count descriptors and never make an operation fail half-way.',
  ['base/serialize.go', 'base/serialize_instances.go', 'base/csv.go', 'base/arff.go', 'linear_models/linearsvc.go', 'knn/knn.go', 'trees/id3.go', 'trees/random.go', 'naive/bernoulli_nb.go', 'meta/one_v_all.go', 'meta/bagging.go', 'ensemble/multisvc.go', 'ensemble/randomforest.go'],
  [('deferred close', 'each file-name entry point'), ('temporary model file removal', 'linear_models/linearsvc.go')],
  ['all file-name entry points'],
  'os.File calls are intercepted by a build-time overlay of package os')

p('S10', 'Malformed or damaged text is refused, never misread and never fatal',
  'Importing CSV or dense ARFF text with a record of too many or too few values, something that is not a number in a numeric column, an undeclared category, or an ARFF attribute without a valid type reports an error. Text whose bytes were changed, lost, inserted, repeated or cut off never crashes the import: it reports an error or gives the records the text now has, each in its own row with its own values.',
  ['inputs', 'fault_sequences'],
  'every CSV and dense ARFF text, every malformed record or header line at any place, every damage to its bytes, every entry point (file, stream, template, attribute groups, prepared dataset), every fragmentation of reads',
  'Tests import well-formed files, plus one or two broken ones; a record with one value too many or too few is enough to index out of range or to shift values.',
  ['base/csv.go', 'base/arff.go', 'base/filewrapper.go'],
  [('record loop', 'base/csv.go:ParseCSVBuildInstancesFromReader'), ('record loop', 'base/arff.go:ParseDenseARFFBuildInstancesFromReader'),
   ('header scan', 'base/arff.go:ParseARFFGetAttributes'), ('row count', 'base/arff.go:ParseARFFGetRows'), ('panic-to-error recovery', 'base/csv.go, base/arff.go')],
  ['ParseCSVToInstances*', 'ParseCSVToTemplatedInstances*', 'ParseCSVToInstancesWithAttributeGroups*', 'ParseDenseARFFToInstances', 'ParseDenseARFFBuildInstancesFromReader'])

# ---------------------------------------------------------------- concurrency
p('B01', 'A bagged ensemble answers with the majority vote under every schedule',
  'For every row, the prediction of a bagged ensemble is a class that received the largest number of votes of its members, each member asked exactly once and each vote counted exactly once. The result does not depend on how the voting tasks interleave, how many processors there are or in what order internal hash tables are walked.',
  ['schedules', 'configurations', 'inputs'],
  'every interleaving of the prediction tasks, every number of processors and members, every vote pattern including ties, repeated and overlapping predictions',
  'The package\'s tests run one schedule on one machine and check only that accuracy is plausible; one lost or doubled vote rarely changes it.',
  ['meta/bagging.go', 'ensemble/randomforest.go'],
  [('vote channel and counting goroutine', 'meta/bagging.go:Predict')],
  ['BaggedModel.Predict', 'RandomForest.Predict'],
  'goroutine scheduling and the processor count are controlled by a build-time overlay of package runtime',
  [('votes', 'per-row counter of class votes', 'meta/bagging.go:Predict')])

p('B02', 'Each ensemble member trains and predicts on its own consistent sample',
  'While a bagged ensemble trains, every member is trained exactly once, on a sample drawn from the training rows of the requested size, seeing exactly the requested number of distinct feature columns plus every class column. When it predicts, every member is shown exactly the columns it was trained with, however training tasks and prediction tasks interleave and whatever the random generator yields.',
  ['schedules', 'inputs', 'configurations'],
  'every interleaving of the training and prediction tasks, every random sequence, every number of features, members and processors',
  'Training tasks share the ensemble and the dataset; a member paired with another member\'s columns still gives plausible accuracy on iris.',
  ['meta/bagging.go', 'base/util_instances.go', 'ensemble/randomforest.go'],
  [('per-member attribute selection', 'meta/bagging.go:generateTrainingAttrs'), ('bootstrap sample', 'base/util_instances.go:SampleWithReplacement')],
  ['member Fit/Predict arguments'],
  'goroutine scheduling is controlled by a build-time overlay of package runtime',
  [('selectedAttributes', 'columns of each member', 'meta/bagging.go')])

p('B03', 'Ensemble training and prediction always finish',
  'Training and prediction of bagged ensembles and random forests return after a bounded amount of work for every number of members and processors, every interleaving of their internal tasks, every legal number of random features and every random sequence, leaving no task running or blocked. A prediction started after training has returned sees the whole trained ensemble.',
  ['schedules', 'configurations', 'inputs'],
  'every interleaving, members 0..n, processors 1..m, every feature count up to the number of columns, every random sequence',
  'Deadlocks and lost tasks depend on the relation between queue capacities, member count and processors, which is fixed on one test machine; endless rejection sampling depends on the random sequence.',
  ['meta/bagging.go', 'ensemble/randomforest.go', 'trees/random.go', 'trees/id3.go'],
  [('wait groups and channel close order', 'meta/bagging.go:Predict'), ('random split search', 'trees/random.go:GenerateSplitRule')],
  ['BaggedModel.Fit/Predict', 'RandomForest.Fit/Predict', 'RandomTree.Fit'],
  'goroutine scheduling and the processor count are controlled by a build-time overlay of package runtime')

p('B04', 'A failing ensemble member is reported, not fatal and not ignored',
  'If any member of an ensemble (bagged, random forest, one-versus-all, multi-class SVM) fails to train or to predict, the ensemble operation returns an error, the process keeps running and no internal task stays blocked. This holds whichever member fails, on whichever call, and however the tasks interleave.',
  ['fault_sequences', 'schedules'],
  'every subset of member operations failing, every interleaving, every number of members and processors',
  'No test has a failing member; a dropped error becomes a crash or a silently wrong answer only then.',
  ['meta/bagging.go', 'meta/one_v_all.go', 'ensemble/multisvc.go', 'ensemble/randomforest.go'],
  [('member error handling', 'meta/bagging.go:Fit, meta/bagging.go:Predict'), ('member error handling', 'meta/one_v_all.go')],
  ['Fit', 'Predict'],
  'goroutine scheduling is controlled by a build-time overlay of package runtime')

p('B05', 'Concurrent training and prediction are free of data races',
  'A trained model or ensemble can be used for prediction by several tasks at once, ensembles can train their members in parallel, and a dataset can be read by several tasks at once, without unsynchronised access to shared memory. Each concurrent call returns what it would have returned alone.',
  ['schedules', 'inputs'],
  'every interleaving of concurrent read-only calls on shared datasets, views and trained models and of the internal tasks of ensembles',
  'Tests are single-threaded apart from the ensemble\'s own tasks and are not run under a race detector with varied schedules.',
  ['meta/bagging.go', 'base/dense.go', 'base/view.go', 'base/categorical.go', 'knn/knn.go', 'trees/id3.go', 'naive/bernoulli_nb.go'],
  [('locks', 'base/dense.go, meta/bagging.go'), ('read-only prediction', 'Predict in each model package')],
  ['Predict', 'MapOverRows', 'Get', 'GetAttribute'],
  'goroutine scheduling is controlled by a build-time overlay of package runtime')

p('B06', 'One-versus-all relabels every row correctly and answers by confidence',
  'Training a one-versus-all model creates exactly one member for every value of the class, and every member is shown every training row exactly once with the features unchanged and the class replaced by 1 where the row has the member\'s class and 0 where it has not. When it predicts, every member is shown every row with its features unchanged, and the answer for a row is a class whose member is most confident. Neither depends on the order in which internal hash tables are walked or in which the dataset delivers its rows.',
  ['schedules', 'inputs', 'histories'],
  'every walk order of internal tables, every row delivery order, every number of classes including values that do not occur, every pattern of confidences including ties, repeated training and prediction',
  'The package\'s tests look at the accuracy on iris only; a member trained with another member\'s labels or a row taken twice still gives plausible accuracy.',
  ['meta/one_v_all.go', 'base/filtered.go', 'base/view.go'],
  [('relabelling filter', 'meta/one_v_all.go:oneVsAllFilter'), ('choice of the most confident member', 'meta/one_v_all.go:Predict')],
  ['OneVsAllModel.Fit', 'OneVsAllModel.Predict', 'member Fit/Predict arguments'],
  'the walk order of hash tables is controlled by a build-time rewrite; rows are delivered by a caller-supplied dataset')

p('C01', 'Building a dataset\'s schema from several tasks is linearizable',
  'Adding attributes, marking and unmarking class attributes and looking attributes up on one dataset from several tasks at once behaves as if the calls had happened one at a time in some order consistent with their real-time order. No added attribute is lost, two attributes never share storage, and values written through one returned handle are read back unchanged through it.',
  ['schedules', 'histories'],
  'every interleaving of schema operations by several tasks on one dataset, every mix of attribute kinds and groups',
  'No test calls the schema operations concurrently although the dataset carries a lock for it.',
  ['base/dense.go'],
  [('dataset lock', 'base/dense.go'), ('group offsets', 'base/fixed.go, base/binary.go')],
  ['AddAttribute', 'AddAttributeToAttributeGroup', 'CreateAttributeGroup', 'AddClassAttribute', 'RemoveClassAttribute', 'AllClassAttributes', 'GetAttribute', 'AllAttributes'],
  'goroutine scheduling is controlled by a build-time overlay of package runtime',
  [('tmpAttrAgMap, agMap, agRevMap, ags, attributes', 'schema of a dataset', 'base/dense.go')])

# ---------------------------------------------------------------- randomness
p('R01', 'Shuffles and samples conserve rows for every random sequence',
  'Shuffling a dataset, in place or lazily, yields exactly the rows it had, each once and complete with its class value; sampling yields exactly the requested number of rows, each an unmodified row of the source. The source of a lazy shuffle or a sample keeps its content, on plain datasets and on views alike.',
  ['inputs', 'histories', 'schedules'],
  'every random sequence, dataset size including empty and single-row, every stack of views',
  'Tests look at one seed and check sizes; a shuffle that duplicates one row and drops another passes.',
  ['base/util_instances.go', 'base/view.go'],
  [('row remapping', 'base/util_instances.go:LazyShuffle, Shuffle, SampleWithReplacement')],
  ['Shuffle', 'LazyShuffle', 'SampleWithReplacement'])

p('R02', 'Train/test splitting partitions the data for every random sequence',
  'Splitting a dataset into training and test parts assigns every row to exactly one part with all its values, so that the two parts together are the original rows, and leaves the dataset as it was. The parts stay unchanged however they and the dataset are iterated, read or split again.',
  ['inputs', 'histories', 'schedules'],
  'every random sequence, split proportion, dataset size and stack of views, repeated splitting',
  'The test checks only part sizes on one dataset; rows leaking from training into test data inflate reported accuracy and pass every test.',
  ['base/util_instances.go', 'base/view.go'],
  [('proportional split over a shuffled view', 'base/util_instances.go:InstancesTrainTestSplit')],
  ['InstancesTrainTestSplit'])

p('R03', 'Cross-validation tests every row exactly once on a model that never saw it',
  'K-fold cross-validation uses every row for testing in exactly one fold and trains each fold\'s model on exactly the remaining rows, for every random sequence. The reported confusion matrices together account for every row exactly once, and a failing fold is reported as an error.',
  ['inputs', 'schedules', 'fault_sequences'],
  'every random sequence, fold count, dataset size and class distribution; a classifier failing to train or predict in any fold',
  'The test checks that mean accuracy on iris lies in a range; train/test leakage only raises it.',
  ['evaluation/cross_fold.go', 'base/util_instances.go', 'evaluation/confusion.go'],
  [('fold assignment', 'evaluation/cross_fold.go:GenerateCrossFoldValidationConfusionMatrices')],
  ['GenerateCrossFoldValidationConfusionMatrices'])

p('R04', 'Training and prediction of deterministic learners are repeatable',
  'Training a learner that takes no randomness on the same data and predicting the same rows gives the same answers on every run: nothing depends on the order in which internal hash tables happen to be walked. Learners that do draw random numbers are repeatable once the generator is seeded and tasks are scheduled the same way.',
  ['schedules', 'inputs', 'histories'],
  'every internal map order in training, prediction and reporting; every dataset including ties and values unseen in training',
  'Go randomises map iteration, so a test sees one order per run and a dependence shows as rare flakiness at most.',
  ['trees/id3.go', 'trees/cart_classifier.go', 'trees/cart_regressor.go', 'knn/knn.go', 'naive/bernoulli_nb.go', 'meta/bagging.go', 'meta/one_v_all.go', 'clustering/dbscan.go', 'filters/chimerge.go', 'base/util_attributes.go', 'base/util_instances.go'],
  [('deterministic tie-breaking', 'trees, knn, naive, meta')],
  ['Fit', 'Predict', 'Train', 'Cluster'],
  'map iteration in the library goes through a build-time source overlay')

p('R05', 'Randomised and iterative training terminates for every random sequence',
  'Training a random tree, an isolation forest, a perceptron, a neural network or a mixture model by expectation maximisation returns after a bounded amount of work for every random sequence and every well-formed dataset, including constant columns, duplicate rows and a single class. It never crashes the process.',
  ['inputs', 'configurations'],
  'every random sequence, dataset shape and legal hyper-parameter setting',
  'Termination depends on the drawn random numbers and on degenerate data deep in the recursion; tests draw once, on iris.',
  ['trees/random.go', 'trees/isolation.go', 'trees/id3.go', 'clustering/em.go', 'neural/layered.go', 'perceptron/average.go'],
  [('stopping rules', 'trees/id3.go:InferID3Tree, trees/isolation.go, clustering/em.go')],
  ['Fit', 'Train'])

# ---------------------------------------------------------------- prediction and views
p('P01', 'A prediction depends only on the trained model and the row',
  'A trained classifier predicts for a row the same class whatever other rows are in the batch, in whatever order the dataset delivers them, whether the delivered row memory is reused or not, and whatever was predicted before. Predicting never alters the model or the data it is given, and the result has one prediction per input row at the same position.',
  ['histories', 'schedules', 'inputs'],
  'every classifier, every batch composition, delivery order, reuse of row buffers and history of earlier predictions',
  'Tests predict one batch once in storage order.',
  ['knn/knn.go', 'trees/id3.go', 'trees/cart_classifier.go', 'naive/bernoulli_nb.go', 'linear_models/linearsvc.go', 'linear_models/logistic.go', 'perceptron/average.go', 'meta/one_v_all.go', 'meta/bagging.go', 'base/util_instances.go'],
  [('prediction vector filled by row number', 'base/util_instances.go:GeneratePredictionVector and each Predict')],
  ['Predict'])

p('P02', 'A dataset that fails while being read makes the operation fail',
  'If the dataset handed to a training, prediction or export operation that can report errors fails part-way through its row iteration, the operation reports an error. It never returns success with results computed from the rows delivered before the failure, and never crashes the process.',
  ['fault_sequences', 'inputs'],
  'every operation that iterates a caller-supplied dataset and returns an error, failure after any number of rows, on any of its passes',
  'The in-memory datasets of the tests never fail.',
  ['knn/knn.go', 'trees/id3.go', 'naive/bernoulli_nb.go', 'linear_models/util.go', 'perceptron/average.go', 'base/serialize_instances.go', 'base/arff.go', 'filters/chimerge.go', 'base/conversion.go'],
  [('error result of row iteration', 'base/fixed-grid MapOverRows callers')],
  ['Fit', 'Predict', 'Train', 'Serialize*'])

p('P03', 'Learning, filtering and clustering do not depend on how rows are delivered',
  'Training a model, fitting a clustering, a discretisation or a conversion filter, sorting, viewing or dividing a dataset, converting it to matrices and counting a confusion matrix give the same result whether the dataset hands out each row in fresh memory or reuses one buffer, and in whatever order internal hash tables are walked. All of these but training also give the same result in whatever order the dataset delivers its (numbered) rows. A clustering puts a row into at most one cluster and names only rows that exist, a mixture clustering every row into one, a confusion matrix counts every row once, and none of it changes the dataset.',
  ['inputs', 'schedules', 'histories'],
  'every dataset of float, categorical and binary attributes, every delivery order, reused and overwritten row memory, every internal map order, every learner, filter and clustering',
  'The in-memory datasets of the tests always deliver rows first to last and never reuse their memory; a sum over a hash table differs in its last bit only now and then.',
  ['clustering/dbscan.go', 'clustering/em.go', 'filters/binning.go', 'filters/chimerge.go', 'filters/chimerge_funcs.go', 'base/filtered.go', 'base/sort.go', 'base/conversion.go', 'evaluation/confusion.go', 'knn/knn.go', 'naive/bernoulli_nb.go', 'trees/id3.go'],
  [('row iteration callbacks', 'callers of MapOverRows'), ('sums over class counts', 'filters/chimerge_funcs.go:chiComputeStatistic'), ('class lists of reports', 'evaluation/confusion.go:GetSummary')],
  ['Fit', 'Predict', 'Train', 'DBSCAN', 'LazySort', 'NewLazilyFilteredInstances', 'GetConfusionMatrix'])

p('P04', 'Training again replaces everything learned before',
  'A classifier, regressor, ensemble, filter or mixture model that has been trained before, used for predictions, loaded from a file (even a failing one), or had a training interrupted by a failing dataset, and is then trained on some data, answers exactly like a new one of the same configuration trained on that data alone, with the random source in the same state. A model loaded from a file is trained with the settings in the file, and a filter trained again after more attributes were added to it converts like one trained once with all of them.',
  ['histories', 'fault_sequences', 'inputs'],
  'every sequence of earlier trainings (on the same or other data, with other columns, classes and sizes), predictions, loads and read failures, every learner, conversion and discretisation filter and mixture model',
  'Cross-validation trains one object again and again, but the tests train nearly every object once; what is left over from an earlier training shows only for particular pairs of datasets.',
  ['neural/layered.go', 'perceptron/average.go', 'knn/knn.go', 'naive/bernoulli_nb.go', 'trees/id3.go', 'trees/isolation.go', 'ensemble/randomforest.go', 'meta/bagging.go', 'meta/one_v_all.go', 'linear_models/linearsvc.go', 'filters/binary.go', 'filters/float.go', 'filters/binning.go', 'clustering/em.go'],
  [('learned state reset by Fit', 'Fit of every learner'), ('converted attributes', 'filters/float.go:Train')],
  ['Fit', 'Predict', 'Train', 'NewLazilyFilteredInstances'])


p('P05', 'Storing the same rows in another order changes no answer',
  'Naive Bayes, single decision trees without random choices, nearest-neighbour classification, discretisation and conversion filters, sorting and class counts give the same answers for the same rows stored or delivered in any order, a choice between equally good candidates aside. Nearest-neighbour classification and the search tree find the same neighbours as an exhaustive search.',
  ['schedules', 'inputs'],
  'every order in which the rows are stored and delivered, every dataset (repeated and degenerate values included), number of neighbours, distance measure bounded by its coordinates, search algorithm',
  'Tests use one dataset in one order; first and last rows, equal values and the shape of a search tree change with the order.',
  ['knn/knn.go', 'kdtree/kdtree.go', 'kdtree/heap.go', 'naive/bernoulli_nb.go', 'trees/id3.go', 'trees/cart_classifier.go', 'filters/binning.go', 'filters/chimerge.go', 'base/sort.go'],
  [('tree build and search', 'kdtree/kdtree.go:Build, Search'), ('voting', 'knn/knn.go:vote'), ('frequency table', 'filters/chimerge_freq.go')],
  ['Fit', 'Predict', 'kdtree.Search', 'Train', 'LazySort'])

p('P06', 'Density clustering satisfies its definition in whatever order points come',
  'Clustering the same points stored or delivered in any order ends without crashing. Points with enough others within reach form one cluster with all such points they reach directly or through others, every other point within reach of one of these belongs to exactly one such cluster, and the remaining points belong to none.',
  ['schedules', 'inputs'],
  'every order in which the points are stored and delivered, every point set, reach and minimum count, every hash-table order',
  'Tests cluster two point sets, each in one order; whether a point is reached from a later point, or was taken for noise before, depends on the order.',
  ['clustering/dbscan.go'],
  [('cluster growth', 'clustering/dbscan.go:DBSCAN'), ('region query', 'clustering/dbscan.go:regionQuery')],
  ['DBSCAN'])


p('P07', 'Predictions find their columns by name and never look at the answer',
  'A trained model which keeps the columns it learned from (k nearest neighbours, naive Bayes, decision trees and their ensembles, linear regression, neural network) gives a row the same answer wherever the test data keeps those columns: in another order, in another dataset or behind a view. No supervised model\'s answer depends on the class values that the test rows already carry.',
  ['inputs', 'schedules'],
  'every order of the columns, every layout of the test data, all class values, every hash-table order',
  'Tests predict on data read from files with the same column order as the training data, the class last, and mostly from the same file.',
  ['base/spec.go', 'base/util_attributes.go', 'knn', 'naive', 'trees', 'ensemble', 'meta', 'linear_models', 'neural', 'perceptron'],
  [('attribute resolution', 'base/util_attributes.go:ResolveAttributes'), ('neighbours', 'knn/knn.go:Predict'), ('regression', 'linear_models/linear_regression.go:Predict'), ('tree rules', 'trees/id3.go:Predict')],
  ['base/util_attributes.go:ResolveAttributes'])


p('V01', 'Datasets and views behave like the simple tables they stand for',
  'After any history of building (also from matrices and data frames), writing, extending, sorting, column and row selection, filtering, shuffling and sampling, reading any row by position and iterating over the rows show the same table, and it is the table a plain in-memory model of those operations predicts. Iteration visits each visible row exactly once with its own position, stops when asked to and hands back the caller\'s error; no operation on a view changes rows it does not own.',
  ['histories', 'schedules', 'inputs'],
  'every sequence of dataset and view operations, several tasks reading while one builds further views, iteration abandoned or failing at any row',
  'Tests exercise one view on top of one dataset; the two read paths (by position, by iteration) are implemented separately and drift apart in nested views.',
  ['base/dense.go', 'base/view.go', 'base/filtered.go', 'base/sort.go', 'base/mat.go', 'base/dataframe_go.go', 'base/util_instances.go'],
  [('row and column remapping', 'base/view.go'), ('lazy filters', 'base/filtered.go')],
  ['Get', 'MapOverRows', 'RowString', 'Size', 'AllAttributes'])

p('V02', 'Comparisons and summaries of a dataset are those of its rows',
  'The class of a row, class counts (of all rows and per value or threshold of a column), float rows, columns found by name or role, prediction vectors, confusion counts, printed forms and compatibility of datasets are those of the rows a dataset shows. This holds after any history of views, writes and changes of the class columns, in any hash-table order and from several tasks at once.',
  ['histories', 'schedules', 'inputs'],
  'every history of view, write and class-column operations, every dataset, hash-table order and interleaving of reading tasks',
  'Tests summarise a dataset as it was loaded; views, repeated rows, several class columns and later writes each change which rows and columns count.',
  ['base/util_instances.go', 'base/util_attributes.go', 'base/conversion.go', 'evaluation/confusion.go'],
  [('class distributions', 'base/util_instances.go:GetClassDistribution*'), ('class access', 'base/util_instances.go:GetClass, SetClass'),
   ('compatibility', 'base/util_instances.go:CheckCompatible, CheckStrictlyCompatible, InstancesAreEqual'), ('matrix conversion', 'base/mat.go, base/conversion.go')],
  ['GetClass', 'GetClassDistribution', 'GetClassDistributionAfterSplit', 'ConvertAllRowsToMat64', 'GeneratePredictionVector', 'CheckCompatible', 'InstancesAreEqual'])

# ---------------------------------------------------------------- learned structures
p('T01', 'Pruning a decision tree never makes it less accurate on the pruning rows',
  'The nodes of a grown decision tree count the training rows that reach them, a leaf is an undividable or single-class group answered by its majority, and predicting walks the tree. Pruning with any rows keeps a part of the tree that is at least as accurate on those whose values the tree knows; neither growing nor pruning depends on how rows are delivered.',
  ['schedules', 'inputs', 'histories'],
  'every dataset, splitting rule, random sequence, pruning set, delivery order of rows, hash-table order, and interleaving of predicting tasks',
  'Tests prune one tree on one dataset and look at the overall accuracy; a subtree pruned with the wrong rows usually still predicts well.',
  ['trees/id3.go', 'trees/random.go', 'base/util_instances.go'],
  [('growing', 'trees/id3.go:InferID3Tree'), ('pruning', 'trees/id3.go:Prune'), ('prediction', 'trees/id3.go:Predict'), ('decomposition', 'base/util_instances.go:DecomposeOn*')],
  ['Fit', 'Prune', 'Predict'])

p('T02', 'A CART tree answers with the majority or mean of the matching training rows',
  'Every end of a branch of a fitted classification or regression tree answers with the most frequent class or the mean of the training rows that reach it, within the depth asked for, and goes on where a column still tells the rows apart. Predictions and reported accuracy equal a walk down the tree however rows are delivered, and data with no rows or no numeric columns is refused with an error.',
  ['schedules', 'inputs'],
  'every dataset, criterion, depth and set of labels, every delivery order, reuse of row memory and interleaving of predicting tasks',
  'Tests fit one dataset per tree kind and compare a few predictions.',
  ['trees/cart_classifier.go', 'trees/cart_regressor.go', 'trees/cart_utils.go'],
  [('recursive division', 'trees/cart_classifier.go:classifierBestSplit, trees/cart_regressor.go:regressorBestSplit'), ('row conversion', 'trees/cart_utils.go')],
  ['Fit', 'Predict', 'Evaluate', 'String'])

p('T03', 'An isolation forest scores a row by how few splits isolate it',
  'The score of a row is 2^(-E/c(s)): E is the mean over the trees of the number of splits on the row\'s path, plus c(k) where splitting ended at k > 1 rows of the sample; s is the size of the sample and c(n) = 2(ln(n-1) + 0.5772156649) - 2(n-1)/n. Each tree splits a sample of s training rows, down to the asked depth, within the range of their columns, so rows further out than all training rows score as the outermost ones, equal rows score equally, and the leaves of a tree share out the whole sample, for every random sequence and however rows are delivered.',
  ['schedules', 'inputs'],
  'every dataset, forest size, depth and sample size, every random sequence and delivery order',
  'Tests look at the scores of two outliers in one dataset.',
  ['trees/isolation.go'],
  [('growing', 'trees/isolation.go:buildTree, splitData'), ('scores', 'trees/isolation.go:pathLength, anomalyScore')],
  ['Fit', 'Predict'])

# ---------------------------------------------------------------- models answer by their parameters
p('M01', 'Linear classifiers answer by the weights that minimise their loss',
  'A trained logistic regression or linear support vector classifier answers every row with the class whose weighted sum of all the row\'s numeric values, negative ones too, is highest. Unless the solver gave up early, the weights are close to a minimum of the regularised loss over the training rows, with the class weights asked for, however the rows are delivered.',
  ['schedules', 'inputs'],
  'every dataset, loss, penalty, cost and class weight, every delivery order and reuse of row memory, every random sequence of the solver',
  'Tests train on one dataset and look at two answers; the weights live in native code behind two conversions of the rows.',
  ['linear_models/liblinear.go', 'linear_models/logistic.go', 'linear_models/linearsvc.go', 'linear_models/util.go'],
  [('conversion of rows for the solver', 'linear_models/liblinear.go:convert_vector, convert_features'), ('class weights', 'linear_models/util.go')],
  ['Fit', 'Predict', 'Export'])

p('M02', 'A neural network learns by gradient descent and answers by its weights',
  'Every epoch of training a layered network is one pass of gradient descent over all training rows in the order they are delivered, and training ends after the wanted number of epochs or once the error is small enough. The answer for a row is what its output neurons say: their values, or the category whose neuron is highest.',
  ['schedules', 'inputs'],
  'every dataset, layer layout and random start, every delivery order and reuse of row memory',
  'Tests train one network for XOR with numeric classes and look at the result after thousands of epochs.',
  ['neural/layered.go', 'neural/network.go', 'neural/funcs.go', 'filters/float.go'],
  [('forward pass and back-propagation', 'neural/network.go'), ('mapping of columns to neurons', 'neural/layered.go')],
  ['Fit', 'Predict', 'GetWeight', 'GetBias'])

p('M03', 'Naive Bayes answers with the class of highest posterior',
  'A trained Bernoulli naive Bayes classifier answers every row, asked for alone or with others, with a class whose posterior - the share of the class times the smoothed share of each present or absent feature - is highest among the classes of the training rows. This holds however rows are delivered, hash tables are walked and columns were converted to binary ones.',
  ['schedules', 'inputs'],
  'every dataset of binary or converted columns, every delivery order, reuse of row memory and hash-table order',
  'Tests check one small dataset.',
  ['naive/bernoulli_nb.go', 'filters/binary.go'],
  [('counting and smoothing', 'naive/bernoulli_nb.go:Fit'), ('scoring', 'naive/bernoulli_nb.go:PredictOne')],
  ['Fit', 'Predict', 'PredictOne'])

p('M04', 'A mixture model puts each row into its likeliest component',
  'Every component of a fitted mixture has the mean and covariance of the training rows it holds (one that ended up with fewer than two rows aside), fitting goes on until these no longer change, and each row asked about is in exactly one component, one of highest density there. This holds for every random start and however rows are delivered; fewer rows than components are refused.',
  ['schedules', 'inputs'],
  'every dataset and number of components, every random start, every delivery order and reuse of row memory',
  'Tests fit two well separated groups.',
  ['clustering/em.go'],
  [('expectation and maximisation', 'clustering/em.go:expectation, maximization'), ('covariances', 'clustering/em.go:shrunkCovariance')],
  ['Fit', 'Predict', 'Params'])

p('M05', 'An averaged perceptron answers with the average of its weights',
  'Training a perceptron passes over the rows ten times, moves the weights by the rate whenever a row\'s class is answered wrongly, and keeps the average of the weights it had after each row; a row is answered with the second class exactly if its sum weighted by these reaches the threshold. The answers follow from the training rows by this rule, whatever was learned before, and however the rows of either are delivered.',
  ['schedules', 'inputs'],
  'every dataset of two classes, rate and threshold, every delivery order and reuse of row memory, training again',
  'Tests train one perceptron and look for an accuracy above a limit.',
  ['perceptron/average.go'],
  [('updates and average', 'perceptron/average.go:Fit'), ('reading of rows', 'perceptron/average.go:processData')],
  ['Fit', 'Predict'])

# ---------------------------------------------------------------- definitions, for rows however they arrive
p('N03', 'Evaluation scores follow from the confusion matrix',
  'Precision, recall, accuracy and F-scores, also averaged over classes, equal their definitions on the true and predicted classes. The counts of the matrix sum to the number of rows, and the printed forms show these counts and scores, in whatever order hash tables are walked and when several tasks ask at once.',
  ['schedules', 'inputs'],
  'every dataset and prediction, classes that are never predicted or only predicted, every hash-table order',
  'Tests check one matrix in which every class is both true and predicted.',
  ['evaluation/confusion.go'], [('scores', 'evaluation/confusion.go:Get*'), ('printed forms', 'evaluation/confusion.go:GetSummary, ShowConfusionMatrix')],
  ['GetConfusionMatrix', 'GetAccuracy', 'GetMicroPrecision', 'ShowConfusionMatrix'])
p('N04', 'Linear regression minimises squared error',
  'The fitted coefficients minimise the sum of squared residuals over the training rows, and prediction applies exactly these coefficients, however the rows of either are delivered. A class column that has no numbers and too few rows are errors.',
  ['schedules', 'inputs'],
  'every dataset, delivery order, reuse of row memory, and interleaving of predicting tasks',
  'Tests check one dataset whose rows arrive in storage order.', ['linear_models/linear_regression.go'], [('QR solve', 'linear_models/linear_regression.go:Fit'), ('application', 'linear_models/linear_regression.go:Predict')],
  ['Fit', 'Predict'])
p('N05', 'Discretisation puts every value into the right bin',
  'Equal-width and chi-square binning label every value of a column with the one bin whose interval contains it (values outside the training range with the nearest bin), and the intervals are those the algorithm defines on the training rows. This holds however these rows are delivered, and for rows that were not trained on.',
  ['schedules', 'inputs'],
  'every dataset, choice of training rows, number of bins or significance, delivery order, reuse of row memory and hash-table order',
  'Tests check one dataset per filter, with three classes and values far apart.', ['filters/binning.go', 'filters/chimerge.go', 'filters/chimerge_funcs.go', 'filters/disc.go', 'base/filtered.go'],
  [('bin search', 'filters/*.go:Transform'), ('interval merging', 'filters/chimerge.go:chiMerge'), ('labels', 'filters/*.go:GetAttributesAfterFiltering')],
  ['Train', 'NewLazilyFilteredInstances'])
p('N07', 'Decision-tree split quality is computed correctly',
  'The split chosen by information gain, gain ratio, Gini index, entropy, squared or absolute error is a best one by that measure\'s definition among the candidates (for a numeric column of a decision tree: its threshold of least entropy; for CART every threshold). This holds however rows are delivered and hash tables are walked.',
  ['schedules', 'inputs'],
  'every dataset, set of candidate columns, measure, delivery order and hash-table order',
  'Tests check the attribute chosen at the root of one dataset.', ['trees/entropy.go', 'trees/gini.go', 'trees/gr.go', 'trees/cart_classifier.go', 'trees/cart_regressor.go'],
  [('measures', 'trees/entropy.go, trees/gini.go, trees/gr.go'), ('best split', 'trees/cart_*.go')],
  ['GenerateSplitRule', 'GetSplitRuleFromSelection', 'Fit'])

# ---------------------------------------------------------------- not decided by simulation
def na(id, title, statement, why, files, mech):
    p(id, title, statement, ['inputs'], 'every input', why, files, mech)
na('N01', 'Distance measures are metrics',
   'Every distance measure is symmetric, zero exactly for equal vectors where its definition says so, and agrees with its mathematical definition. Kernels agree with theirs.',
   'Tests check one pair of vectors per measure.', ['metrics/pairwise'], [('formulas', 'metrics/pairwise/*.go')])
na('N08', 'Principal components are orthogonal and ordered by variance',
   'The projection uses orthonormal directions ordered by explained variance.',
   'Tests check one matrix.', ['pca/pca.go'], [('SVD', 'pca/pca.go')])
na('N09', 'Values survive packing into and out of their stored form',
   'Converting a number or category to its stored bytes and back gives the same value for every attribute kind.',
   'Tests check a few values.', ['base/util.go', 'base/float.go', 'base/categorical.go', 'base/binary.go'], [('pack and unpack', 'base/util.go')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
