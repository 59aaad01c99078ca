"""Single source of truth: writes properties.jsonl and MANIFEST.json.

Run by hand (python3 tools/gen.py); no check runs it."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DS = 'DRecPy/Dataset/'
EV = 'DRecPy/Evaluation/'
RE = 'DRecPy/Recommender/'
SA = 'DRecPy/Sampler/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, level='model_checking'):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], level=level))


prop('C01', 'Dataset operations behave like operations on one plain table',
     'For every sequence of copy, select, drop, unique, internal-id assignment/removal and reads, an interaction dataset '
     'holds exactly the records (raw values and record ids), columns and length a plain table would hold after the same '
     'operations, whether it lives in memory or out of memory. Operations with copy=True return a new dataset and leave '
     'the original as it was, operations with copy=False change the dataset itself and return it. Reads (values, values_list, select_one, '
     'exists, min, max, count_unique, len) report exactly that content with the requested columns and shape, and never change it, however '
     'many reads or filters came before.',
     ['programs', 'inputs', 'configurations'],
     'all operation sequences up to the stated depth over the stated alphabet, both backends, small and large (housekeeping-triggering) tables; chains of 30 and 1100 operations',
     'Tests apply one or two operations to one fixed table; the out-of-memory backend rewrites its storage after a number of '
     'interactions that depends on the whole history, so only sequences expose it.',
     [DS + 'dataset_abc.py', DS + 'mem_dataset.py', DS + 'db_dataset.py', DS + 'dataset_factory.py'],
     [('select/drop/unique/copy', DS + 'mem_dataset.py'), ('state query + storage optimisation', DS + 'db_dataset.py')],
     'exhaustive enumeration of operation sequences on the real code, step-by-step refinement against a plain-table model',
     'Bounded: every sequence of the alphabet up to the depth in the evidence; values outside the tables are not covered.')

prop('C02', 'A query keeps exactly the records that satisfy all its conditions',
     'select, select_one and exists keep a record if and only if every comma-separated "column operator value" condition '
     '(>, >=, <, <=, ==, !=) holds for it, comparing numbers numerically and text as text, for every column, with or '
     'without internal ids assigned and in both backends. Text literals may contain spaces, commas and quotes, and chained selects '
     'keep the same records as one select with all the conditions. A query naming an unknown column or operator raises instead of selecting.',
     ['inputs', 'configurations'],
     'all conditions column x operator x literal over boundary literals of every column, all ordered pairs of a sub-alphabet, chained and joined, triples of core conditions and queries of 4 to 12 conditions, both backends',
     'Tests use a few hand-written queries on one table; operator/type/id-mapping combinations are a product space.',
     [DS + 'mem_dataset.py', DS + 'db_dataset.py'],
     [('query parsing and evaluation', DS + 'mem_dataset.py'), ('query to SQL translation', DS + 'db_dataset.py')],
     'exhaustive enumeration of the query grammar on the real code against a predicate evaluated in Python',
     'Bounded to the literals, columns and conjunction length enumerated.')

prop('C03', 'Work on one dataset never changes another',
     'Whatever is done to a dataset that was derived from another (by copy, select, drop, unique or a split), or to its '
     'origin afterwards — filtering in place, applying a transformation, assigning or removing internal ids, building interaction '
     'vectors, reading many times, closing or garbage-collecting it — the records, columns, internal ids and interaction '
     'vectors seen through every other live dataset stay what they were. This also holds while value iterators are '
     'half-read or have been abandoned.',
     ['programs', 'histories'],
     'all interleavings of operations over a family of 2-3 datasets derived from one another, up to the stated depth, incl. close and open iterators',
     'Tests check one derived dataset at a time; sharing decisions of the storage depend on which instances are alive and what each did before.',
     [DS + 'db_dataset.py', DS + 'mem_dataset.py'],
     [('shared table / shared file reference counts', DS + 'db_dataset.py'), ('copy-on-write dataframe', DS + 'mem_dataset.py')],
     'exhaustive enumeration of multi-instance operation sequences on the real code, every live instance compared with its own model after every step',
     'Bounded depth and family size; operations on datasets that have been closed are not covered.')

prop('C04', 'Internal ids are a consecutive bijection, consistent with the records',
     'After assign_internal_ids the distinct users get exactly the ids 0..n-1 in order of first appearance, likewise the '
     'items, every record carries the ids of its user and item, and the raw-to-internal and internal-to-raw lookups are mutually '
     'inverse, returning None for unknown ids. This holds for any data and after any earlier filtering, including re-assignment on filtered '
     'datasets; records of later filtered copies keep their ids, and lookups fail loudly when no ids are assigned.',
     ['inputs', 'programs'],
     'all tables of up to 4 records over 3 users x 3 items (int and text ids) and all filter/assign/remove sequences to the stated depth',
     'Tests check the ids of three or four fixed tables; gaps, duplicates, orders and re-assignment after filters are a combinatorial space.',
     [DS + 'mem_dataset.py', DS + 'db_dataset.py'],
     [('assign_internal_ids', DS + 'db_dataset.py'), ('categorical codes and maps', DS + 'mem_dataset.py')],
     'exhaustive enumeration of small tables and op sequences on the real code against the definition',
     'Bounded by table size and depth.')

prop('C05', 'Interaction vectors always reflect the current records',
     'select_user_interaction_vec(uid) and select_item_interaction_vec(iid) hold at position j exactly the sum of the '
     'interaction values of the current records of that user/item with the item/user whose internal id is j, and 0 elsewhere, long '
     'enough to index every internal id present. This holds on first call and on every repeated call, before and after '
     'filters, transformations and re-assignment of ids, on the dataset and its copies, and for any cache limit.',
     ['programs', 'inputs', 'configurations'],
     'all small tables and all sequences of vector reads, apply, in-place filters and id re-assignment to the stated depth, cache limits 0, 1 and default',
     'Tests read each vector once on a fresh dataset; staleness needs a read, then a mutation, then a read.',
     [DS + 'mem_dataset.py', DS + 'db_dataset.py'],
     [('interaction vector caches', DS + 'db_dataset.py'), ('cached interaction matrix', DS + 'mem_dataset.py')],
     'exhaustive enumeration of mutation/read sequences on the real code against vectors recomputed from the model table',
     'Bounded tables and depth.')

prop('C06', 'Saving and loading round-trips the data',
     'A dataset saved to CSV or SQLite and loaded again holds the same records in the same order of record ids (renumbered from 0), with the same '
     'columns and value types, and a dataset loaded from a saved file supports every operation a freshly imported one does. '
     'Only the requested columns are written, internal identifiers never are, the header is written iff asked for, and text containing '
     'commas, quotes or spaces survives. Saving does not change the dataset, replaces an existing file completely, and saving over a file does not '
     'affect live datasets that were loaded from it earlier.',
     ['programs', 'inputs', 'configurations'],
     'all histories (filters, ids, transformations, save, load, save again, save over own file) to the stated depth x backend x format x column subset x header',
     'Tests save one table once to each format; second generations (load then work then save over) are never run.',
     [DS + 'mem_dataset.py', DS + 'db_dataset.py'],
     [('save', DS + 'db_dataset.py'), ('save', DS + 'mem_dataset.py'), ('load from sqlite/csv', DS + 'db_dataset.py')],
     'exhaustive enumeration of save/load histories on the real code against a plain-table model',
     'Bounded histories; text with line breaks and missing values is not covered.')

prop('C07', 'A crash while saving never loses the previously saved data',
     'If the process dies at any point while a dataset is being saved to an SQLite file, the file at that path afterwards holds either '
     'the complete previous content or the complete new content (or is absent if it did not exist before), and saving '
     'again later succeeds. The data files the dataset was loaded from survive a crash at any point of any operation on it.',
     ['crash_points', 'histories'],
     'process death before every executed library line and before every file-system effect of the save path, for each save history',
     'Tests never kill the process.',
     [DS + 'db_dataset.py'],
     [('write to temporary file, then replace', DS + 'db_dataset.py')],
     'exhaustive crash-point enumeration on the real code (forked child killed at each point), recovery compared with old/new content',
     'Process crash model (no torn sectors/power loss); crash points at library-line and FS-event granularity.', level='fault_enumeration')

prop('C08', 'Temporary storage lives exactly as long as it is needed',
     'The private database file behind an out-of-memory dataset exists while any dataset derived from it is in use, in whatever order they '
     'are closed or garbage-collected, and it and its bookkeeping are gone once the last one goes; closing is idempotent. '
     'Files the user supplied or saved are never deleted, emptied or altered by closing or by reading, and temporary files left by a dead process are removed '
     'the next time the library starts, while unrelated files and the temporary files of running processes stay.',
     ['histories', 'crash_points'],
     'all orders of create/derive/save/close/collect over up to 4 instances, plus kill-and-restart at each of those points',
     'Tests never look at the directory; lifetime depends on the order in which several instances die.',
     [DS + 'db_dataset.py', DS + 'file_utils.py', DS + '__init__.py'],
     [('close', DS + 'db_dataset.py'), ('temporary file registry', DS + 'file_utils.py')],
     'exhaustive enumeration of creation/close orders on the real code with the directory checked after every step',
     'One process at a time; crash points between operations.')

prop('C09', 'apply transforms every record of that column, or none',
     'apply(column, f) replaces the value v of that column by f(v) in every record of the dataset and in nothing else, for every mix of old and new '
     'value types (int, float, text), on filtered, projected and shared datasets alike, and repeated applications '
     'compose. If the column is read-only or unknown, or f fails or returns an unsupported type, apply raises and the dataset is unchanged.',
     ['programs', 'inputs', 'fault_sequences'],
     'all functions x columns x dataset histories to the stated depth; f failing at every record position',
     'Tests apply one function once; type changes, composition, shared tables and failures midway are not reached.',
     [DS + 'mem_dataset.py', DS + 'db_dataset.py'],
     [('apply', DS + 'db_dataset.py'), ('apply', DS + 'mem_dataset.py')],
     'exhaustive enumeration of apply histories and failure positions on the real code against a plain-table model',
     'Bounded depth; failing f at every position of small tables.')

prop('C10', 'leave_k_out partitions each user exactly as documented',
     'For every dataset and parameters, leave_k_out puts exactly k (or the floor of the given ratio of) records of each user with more than k '
     'records into the test set and all others into the train set, drops users with fewer than min_user_interactions '
     'records from both, and never loses, duplicates or alters another record; every test user is in the train set. '
     'With last_timestamps the test records are the user\'s latest ones; otherwise every choice of k records of a user comes up for some seed, and the split depends only on the data and the seed. '
     'The input dataset is unchanged.',
     ['inputs', 'configurations'],
     'all per-user count profiles up to 3 users x 4 records, all timestamp orders, k, ratio, minimum, seeds, backends, int/text ids',
     'Tests run two or three configurations on one dataset.',
     [EV + 'Splits/leave_k_out.py'],
     [('per-user sampling tasks', EV + 'Splits/leave_k_out.py')],
     'exhaustive enumeration of small datasets and parameters on the real code against the split contract',
     'Bounded dataset sizes; threads run freely here (C13 explores schedules).')

prop('C11', 'matrix_split tests exactly the sampled user-item block',
     'For every dataset and ratios, matrix_split moves to the test set exactly the records whose user is among floor(ratio x users) sampled users and whose item is '
     'among floor(ratio x items) sampled items, except that a user whose records would all move keeps them all in train; '
     'users with fewer than min_user_interactions records are in neither set, and no other record is lost, duplicated or altered. '
     'The split depends only on the data, the parameters and the seed, and leaves the input dataset unchanged.',
     ['inputs', 'configurations'],
     'all 0/1 interaction matrices up to 3x3 (plus duplicates), all ratios of a grid, minimum, seeds, backends, int/text ids',
     'Tests run a few configurations on one dataset.',
     [EV + 'Splits/matrix_split.py'],
     [('user and item sampling + per-user tasks', EV + 'Splits/matrix_split.py')],
     'exhaustive enumeration of small matrices and parameters on the real code; the sampled block is solved for by enumeration of all user/item subsets',
     'Bounded matrix size.')

prop('C12', 'random_split is an exact partition of the requested size',
     'For every dataset and ratio, random_split returns disjoint train and test sets that together are the input, with exactly floor(ratio x rows) test records, records unaltered, '
     'and an error when that is zero. Every subset of that size is reachable by some choice of the random source, and the split depends only on the data, ratio and seed; '
     'the input dataset is unchanged.',
     ['inputs', 'configurations'],
     'all table sizes up to 7 x ratios x histories of the input (filtered, id-assigned) x backends x every outcome of the random source',
     'Tests check lengths for a few ratios.',
     [EV + 'Splits/random_split.py'],
     [('index sampling', EV + 'Splits/random_split.py')],
     'exhaustive enumeration of inputs and of all random-choice outcomes on the real code',
     'Bounded table size.')

prop('C13', 'Splits give the same result under every thread schedule and always end',
     'For a fixed dataset, parameters and seed, leave_k_out and matrix_split return the same train and test records whatever the number of threads and however the worker threads are scheduled, '
     'with progress reporting on or off, and always terminate. No record is lost, duplicated or misplaced by any interleaving, for both storage backends and on datasets that were filtered before. If a worker fails, the split raises its error instead of hanging or returning an incomplete result.',
     ['schedules', 'configurations'],
     'all schedules of 1-3 worker threads and the main thread with at most the stated number of delays (deviations from the deterministic scheduler), points at locks, visible bytecodes and library lines',
     'Tests run one OS schedule; a race needs a particular preemption.',
     [EV + 'Splits/leave_k_out.py', EV + 'Splits/matrix_split.py', DS + 'db_dataset.py'],
     [('thread pool with locks and task counter', EV + 'Splits/leave_k_out.py'), ('shared dataset reads', DS + 'db_dataset.py')],
     'stateless model checking of the real code under a controlled scheduler: exhaustive delay-bounded enumeration of thread schedules',
     'Delay-bounded; scheduling points at locks, visible bytecodes of the evaluation modules and lines of the other library modules; pandas and SQLite calls are atomic.')

prop('C14', 'Evaluations give the same result under every thread schedule and always end',
     'For a fixed model, test data, parameters and seed, ranking_evaluation and recommendation_evaluation return the same metric values whatever the number of threads and however the worker threads are scheduled, and always terminate, '
     'including with progress reporting on and when evaluating some user fails (that user is left out, the others are evaluated). No interleaving drops or double-counts a user.',
     ['schedules', 'fault_sequences', 'configurations'],
     'all schedules of 1-3 worker threads and the main thread with at most the stated number of delays; a failure injected at every user',
     'Tests run one OS schedule and never make a worker fail.',
     [EV + 'Processes/ranking_evaluation.py', EV + 'Processes/recommendation_evaluation.py'],
     [('per-user tasks, metric accumulation under a lock', EV + 'Processes/ranking_evaluation.py')],
     'stateless model checking of the real code under a controlled scheduler: exhaustive delay-bounded enumeration of thread schedules, plus failure injection per user',
     'Delay-bounded; scheduling points at locks, visible bytecodes of the evaluation modules and lines of the other library modules.')

prop('C15', 'Ranking metrics equal their definitions',
     'For every recommendation list, non-empty set of relevant items, relevancy map and truncation k, Precision, Recall, HitRatio, FScore, ReciprocalRank, AveragePrecision, DCG and NDCG return the value of their textbook definition on the first k recommendations '
     '(NDCG normalised by the best possible order of the same relevancies, truncated at the same k), lie within [0, 1] where the definition says so, and never modify their arguments. When no item matches, the value is 0 (precision and F-score of an empty list are undefined).',
     ['inputs'],
     'all recommendation lists without repetition over up to 5 items, all relevant subsets, all relevancy vectors over {0,1,2,0.5}, all k',
     'Tests compare about fifty hand-picked cases.',
     [EV + 'Metrics/ranking.py'],
     [('metric formulas', EV + 'Metrics/ranking.py')],
     'exhaustive enumeration of small rankings on the real code against definitions written independently',
     'Bounded list length; floating-point comparison to 1e-9.')

prop('C16', 'Predictive evaluation scores exactly the requested predictions',
     'MSE, RMSE and MAE equal their definitions, and predictive_evaluation returns them, rounded to 4 decimals, over exactly the first n_test_predictions counted test records: a pair the model '
     'cannot predict is skipped, or counts as a prediction of 0 if count_none_predictions is set, and errors are raised when skip_errors is off. With no test data given, the training data is evaluated; the datasets and the model are unchanged.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all patterns of predictable / None / failing predictions over up to 5 test records x limits x flags x backends',
     'Tests use one model and a handful of settings.',
     [EV + 'Processes/predictive_evaluation.py', EV + 'Metrics/regression.py'],
     [('prediction loop', EV + 'Processes/predictive_evaluation.py')],
     'exhaustive enumeration of prediction outcomes and settings on the real code against a reference evaluator',
     'Bounded test sizes; scripted model.')

prop('C17', 'Ranking evaluation averages exactly the documented per-user scores',
     'ranking_evaluation returns for each metric and k the mean, over exactly the evaluated users, of the metric on the model\'s ranking of that user\'s sampled positive and negative test items, where positives are the test records at or above the threshold and negatives those below. '
     'Requested numbers of positives/negatives, skipping of users with too few, generated negatives (only items that are positive for the user in neither train nor test) and the number of test users are as documented, for any kind of ids. '
     'The most relevant item is the one with the highest interaction.',
     ['inputs', 'configurations'],
     'all small test sets, thresholds, n_pos, n_neg (int and float), generate flag, k lists, n_test_users over a scripted model and recording metrics',
     'Tests compare final numbers for one dataset and a few settings.',
     [EV + 'Processes/ranking_evaluation.py'],
     [('per-user candidate sampling and scoring', EV + 'Processes/ranking_evaluation.py')],
     'exhaustive enumeration of small inputs and settings on the real code against a reference evaluator fed by recording metrics/models',
     'Bounded inputs; sampled choices checked for membership, count and average.')

prop('C18', 'Recommendation evaluation averages exactly the documented per-user scores',
     'recommendation_evaluation returns for each metric and k the mean, over exactly the users that have the required positive test records, of the metric on the model\'s top recommendations for that user against those positives. '
     'The number of test users, number of positives, novelty, the low-prediction threshold and the choice of the most relevant item (highest interaction) are honoured as documented, for any kind of ids; the datasets and the model are unchanged.',
     ['inputs', 'configurations'],
     'all small test sets, thresholds, n_pos, k lists, novelty, prediction threshold, n_test_users over a scripted model',
     'Tests compare final numbers for one dataset and a few settings.',
     [EV + 'Processes/recommendation_evaluation.py'],
     [('per-user scoring', EV + 'Processes/recommendation_evaluation.py')],
     'exhaustive enumeration of small inputs and settings on the real code against a reference evaluator',
     'Bounded inputs.')

prop('C19', 'Point sampling yields only genuine positive and negative pairs',
     'Every positive pair sampled (by the dataset\'s random record generator or the point sampler) is an actual record, at or above the threshold and satisfying the query if one is given, with its true ids and value, '
     'and every negative pair is a valid (user id, item id) with no record at or above the threshold — and no record at all when there is no threshold — reported with value 0, '
     'for every outcome of the random source. Every eligible record and every eligible pair can be sampled, in both backends; when no eligible record or pair exists, the request is refused with an exception instead of searching forever.',
     ['inputs', 'configurations'],
     'all 0/1/2-valued interaction matrices up to 2x2 and selected 3x2, thresholds, backends, and every outcome of the random source up to the stated number of draws',
     'Tests draw a few samples with fixed seeds.',
     [SA + 'point_sampler.py', DS + 'mem_dataset.py', DS + 'db_dataset.py'],
     [('sampling loops', SA + 'point_sampler.py'), ('null pair and random record generators', DS + 'db_dataset.py')],
     'exhaustive enumeration of all random-choice outcomes of the real code (choice-tree exploration)',
     'Rejection loops cut at a horizon of draws.')

prop('C20', 'List sampling yields well-formed sequences for every random choice',
     'Every sampled sequence consists of records of one group only, at or above the threshold, sorted by the sort column (else by record id), contiguous in that order, with at least the minimum and at most the maximum number of positives; '
     'the targets are the n_targets records that immediately follow the positives, and the negatives are neg_ratio distinct ids per target among ids of no positive record of that group. '
     'Only eligible groups are used, every eligible one can be, and an impossible request raises instead of looping.',
     ['inputs', 'configurations'],
     'all group-size profiles, thresholds, min/max/targets/neg_ratio settings and every outcome of the random source to the stated bounds, both backends',
     'No test covers the list sampler.',
     [SA + 'list_sampler.py'],
     [('group sampling', SA + 'list_sampler.py')],
     'exhaustive enumeration of all random-choice outcomes of the real code against the sampling contract',
     'Bounded group sizes.')

prop('C21', 'The same seed gives the same results, independent of history and backend',
     'Splits, samplers, dataset random generators, evaluations and model training with an explicit seed give identical results in every run, no matter what was executed before in the process, how the global random state stands, '
     'which string hash seed the interpreter uses, how many threads are used or how often they are called, and none of them disturbs the global random state of Python or NumPy. Different seeds do not all give the same split or sample. The splits of the same data agree between the in-memory and the out-of-memory backend.',
     ['histories', 'configurations'],
     'all seeded operations x all perturbation prefixes up to the stated length x repeated calls x backends',
     'Tests compare one run to constants.',
     [EV + 'Splits', EV + 'Processes', SA, DS + 'mem_dataset.py', DS + 'db_dataset.py', RE + 'recommender_abc.py'],
     [('seeded generators', DS + 'db_dataset.py')],
     'exhaustive enumeration of perturbation sequences before each seeded operation on the real code, differential oracle',
     'Bounded prefix length; one machine.')

prop('C22', 'KNN predictions follow the neighbourhood definition',
     'For every training set, similarity, k, minimum co-ratings m, shrinkage and aggregation, a user- or item-based KNN predicts for (user, item) the aggregation of the interactions of the k most similar valid neighbours (positive similarity, at least m co-ratings, shrunk as documented) that have one, '
     'the documented average if use_averages is set and no neighbour qualifies, and no prediction otherwise. Prediction, ranking and recommendation agree with each other, on both backends.',
     ['inputs', 'configurations'],
     'all rating matrices up to 3x3 over {none,1,2..} (sampled alphabets stated), all similarity/aggregation/k/m/shrinkage/average settings of a grid',
     'Tests compare a few predictions for one dataset.',
     [RE + 'Baseline/base_knn.py', RE + 'Baseline/user_knn.py', RE + 'Baseline/item_knn.py', RE + 'Baseline/aggregation.py'],
     [('similarity filter, neighbours, aggregation', RE + 'Baseline/base_knn.py')],
     'exhaustive enumeration of small rating matrices and settings on the real code against an independent KNN',
     'Bounded matrices; one rating per pair; ties in similarity are only compared where the outcome does not depend on the tie.')

prop('C23', 'Similarity measures equal their definitions for every matrix',
     'For every rating matrix each similarity measure (cosine, adjusted cosine = cosine of the mean-centred rows, co-rated cosine, Jaccard, Pearson, mean squared difference) returns the n x n symmetric matrix of its definition, computed over ratings present, with 0 for pairs that have nothing in common or no defined value, and does not modify its input. '
     'It always returns a full n x n result, whatever format the matrix is given in.',
     ['inputs'],
     'all matrices up to 3x3 over {0,1,2,5} (and 2x4, 4x2), sparse formats csr/lil/dense',
     'Tests compare about twenty fixed matrices.',
     [RE + 'Baseline/similarity.py'],
     [('similarity functions', RE + 'Baseline/similarity.py')],
     'exhaustive enumeration of small matrices on the real code against independent definitions',
     'Bounded; numbers compared to 1e-9.')

prop('C24', 'recommend, rank and predict honour their contract for every model',
     'For every fitted recommender and request that names each item at most once, rank returns only requested, known items (at most n, each once, best first, none the user already interacted with if novelty is on), recommend returns exactly the best n of all items under the same rules and at or above the threshold, '
     'scores equal what predict returns, ids are raw ids, and calls never change the model or the data. Unknown users or items and unfitted models raise unless skipping was asked for, in which case predict gives None and rank ignores the item.',
     ['inputs', 'configurations', 'programs'],
     'all request lists, n, novelty, threshold and skip settings over every shipped model and a scripted model, both backends, int/text ids',
     'Tests call each method a few times with valid arguments.',
     [RE + 'recommender_abc.py', RE + 'cdae.py', RE + 'dmf.py', RE + 'caser.py', RE + 'Baseline'],
     [('id abstraction + ranking', RE + 'recommender_abc.py')],
     'exhaustive enumeration of request space on the real code against a contract oracle',
     'Bounded item counts; one fitted instance per model, backend and id type.')

prop('C25', 'Training runs the epochs, callbacks and early stopping as documented',
     'fit performs exactly the requested number of epochs (fewer only if the early stopping rule asks to stop), calls the epoch callback exactly at the documented epochs when it is needed (also once before the first epoch when verbose), and hands the early stopping rule exactly the losses and callback results recorded so far with their epochs. '
     'At the end the model\'s weights equal those it had after the best epoch the rule reported, for models built from variables, layers or whole networks; without a rule they equal those of the last epoch.',
     ['histories', 'configurations'],
     'all epochs x callback frequency x rule frequency x callback result sequences x rule behaviours up to 5 epochs x kind of trainable x verbosity',
     'No test covers the training loop.',
     [RE + 'recommender_abc.py', RE + 'EarlyStopping', EV + 'loss_tracker.py'],
     [('training loop', RE + 'recommender_abc.py'), ('best-epoch rule', RE + 'EarlyStopping/max_validation_value_rule.py'), ('loss tracker', EV + 'loss_tracker.py')],
     'exhaustive enumeration of training configurations and callback outcomes on the real training loop with a scripted model',
     'Up to 5 epochs; scripted recommender with deterministic weight updates.')

prop('C26', 'A fit depends only on the data given to that fit',
     'Fitting a model again, on the same or other data, leaves it in the state a new model with the same settings and seed would be in after that fit alone: same predictions, rankings and recommendations, no trace of earlier fits. With copy_dataset the given dataset is not touched and later changes to it do not affect the model.',
     ['histories', 'programs'],
     'all sequences of up to 3 fits over a set of datasets for KNN and scripted trainable models, both backends, with and without copy_dataset',
     'Tests fit each model once.',
     [RE + 'recommender_abc.py', RE + 'Baseline/base_knn.py'],
     [('fit', RE + 'recommender_abc.py'), ('similarity and neighbour tables', RE + 'Baseline/base_knn.py')],
     'exhaustive enumeration of fit histories on the real code, differential oracle (fresh model)',
     'Bounded histories.')

prop('C27', 'Integrated datasets are complete, deterministic and crash-consistent',
     'get_full/train/test_dataset return the complete published data, and a train/test pair that partitions the records of users with enough interactions, the same on every call, whether the pair was just generated or read back, '
     'whichever of the two is asked for first, and in both storage modes. If the process dies at any point while downloading, extracting or generating, later calls still return complete and correct datasets. A failed download raises and does not spoil later calls; once stored, no network is needed.',
     ['crash_points', 'histories'],
     'all call sequences up to the stated length over a stubbed download, all configured datasets, and death at every library line and file-system event of the first call',
     'Tests mock the storage and never interrupt it.',
     [DS + 'integrated_datasets.py', DS + 'file_utils.py'],
     [('download, extract, generate and cache', DS + 'integrated_datasets.py')],
     'exhaustive enumeration of call sequences and crash points on the real code with a stubbed download',
     'Network replaced by a stub serving small archives; process-crash model.', level='fault_enumeration')

prop('C28', 'Text import keeps every row, column and value',
     'Importing a delimited text file yields one record per data line, in file order with record ids from 0, with exactly the named columns (unnamed ones skipped), columns of numbers as numbers and all others as text exactly as written, for any single- or (literal) multi-character delimiter, with or without header, '
     'any encoding given, any chunk size, blank lines ignored, and in both backends alike; importing a data frame does the same. Missing required columns or reserved column names raise an error.',
     ['inputs', 'configurations'],
     'all combinations of row count (around the chunk size), chunk size, delimiter, header, skipped columns, encoding, quoting, trailing newline, blank lines, value types (number-like text included) and column names',
     'Tests import a handful of files with default chunking.',
     [DS + 'db_dataset.py', DS + 'mem_dataset.py', DS + 'dataset_factory.py'],
     [('chunked import', DS + 'db_dataset.py'), ('csv reading', DS + 'mem_dataset.py')],
     'exhaustive enumeration of file shapes and import options on the real code against the generated table',
     'Bounded file sizes; homogeneous column types; integers within 64 bits. Known finding: column names that are not plain SQL identifiers, out of memory.')

prop('C29', 'A saved model, loaded again, is the same model',
     'Every shipped recommender fitted on an in-memory dataset can be saved after any sequence of fits; the loaded model predicts, ranks and recommends exactly what the saved one did, and saving changes nothing about the model. '
     'The two are independent afterwards: refitting either, changing the dataset of the original, or overwriting or removing the file does not affect the other, and the loaded model can be refitted and saved again like any other. '
     'A model on an out-of-memory dataset may refuse to be saved, but is left as it was.',
     ['histories', 'configurations'],
     'all shipped models x datasets x histories of one and two fits x what happens after loading',
     'Tests never save a fitted deep model.',
     [RE + 'recommender_abc.py', RE + 'cdae.py', RE + 'dmf.py', RE + 'caser.py', RE + 'Baseline/base_knn.py', SA + 'point_sampler.py'],
     [('save and load', RE + 'recommender_abc.py'), ('sampler state', SA + 'point_sampler.py')],
     'exhaustive enumeration of fit / save / load / work histories on the real code, differential oracle (the model before saving)',
     'In-memory datasets; same library version for saving and loading.')

prop('C30', 'Concurrent work on related datasets equals sequential work',
     'Threads may read one dataset at the same time (values, queries, aggregates, interaction vectors, id lookups), derive datasets from it, and work freely on their own derived datasets, which share storage behind the scenes: '
     'under every schedule each thread gets exactly the results it gets when it runs alone, nothing raises or deadlocks, and in the end every dataset has the content of a sequential run. In-place changes to a dataset are made by one thread only, and not while others use that same instance.',
     ['schedules', 'programs'],
     'all pairs of short thread programs (reads, derivations, changes of own derived datasets) x all thread schedules up to the stated number of deviations, both backends',
     'Splits and evaluations use datasets from worker threads; a test run sees one schedule.',
     [DS + 'db_dataset.py', DS + 'mem_dataset.py', DS + 'dataset_abc.py'],
     [('locking of the shared database', DS + 'db_dataset.py'), ('lazily built interaction matrices', DS + 'mem_dataset.py')],
     'systematic schedule enumeration (delay-bounded, controlled scheduler) of the real code, results of every thread compared with the table model',
     'Two threads, bounded deviations; switches at library source lines, locks, and queue operations of both threads.')

prop('C31', 'Deep models score and train with their documented network',
     'For every dataset and every random choice, the scores of CDAE, DMF and Caser are those of their network with the current weights: CDAE the denoising auto-encoder applied to the uncorrupted 0/1 vector of interactions at or above the threshold; '
     'DMF the non-negative cosine of the two towers on the (optionally l2-normalised) interaction vectors, rescaled to the range of interaction values including 0, the value of null pairs; '
     'Caser the convolutional network (max-pooled over the whole sequence) on the last L items of the user, without dropout. '
     'Each epoch makes one step of the optimizer given by the caller along the gradient of the documented loss (mean over the batch plus regularisation) of a batch that can be sampled, and every batch can occur: '
     'CDAE inputs are dropped with the corruption level and otherwise scaled by 1/(1 - level), DMF targets are interactions scaled to [0, 1] with nce and raw without, 0 for negatives, Caser predicts the T records following L consecutive ones against neg_ratio negatives per target.',
     ['inputs', 'configurations', 'histories'],
     'all small interaction matrices x model settings x every path of the tree of random choices of a fit, up to the stated number of draws',
     'Tests compare a few rounded predictions after training with one seed and the default settings.',
     [RE + 'cdae.py', RE + 'dmf.py', RE + 'caser.py', RE + 'recommender_abc.py'],
     [('network and loss', RE + 'cdae.py'), ('network and loss', RE + 'dmf.py'), ('network and loss', RE + 'caser.py'), ('training loop', RE + 'recommender_abc.py')],
     'exhaustive enumeration of all random-choice outcomes of fits of the real code, every gradient step matched against an independently stated network',
     'Bounded model and data sizes; one or two epochs; Caser gradients without dropout.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'] or ['public API return values', 'files on disk'],
                            'hook_needed': None}}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': f'./check {p["id"]}',
                           'thorough_cmd': f'VERIF_TIER=thorough ./check {p["id"]}',
                           'evidence_file': f'evidence/{p["id"]}.json',
                           'technique': 'model checking: ' + p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'check not built yet (work in progress)'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks are needed in /repo: the explorers drive the public API of the unmodified library; nondeterminism '
                  '(threads, random source, crashes) is taken over from outside the library.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
