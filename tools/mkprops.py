"""Writes properties.jsonl.  The property texts live here so that they stay readable."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (pid, len(title))
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        anchors['observe_at'] = observe
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anchors})


U = 'metcalcpy/util/'

prop('S01', 'Contingency statistics equal their definition on the pooled 2x2 table',
     'For any set of 2x2 contingency lines (CTC, CTS or neighborhood CTC), every categorical statistic '
     'equals its textbook formula applied to the cell counts summed over the lines, to the documented '
     'rounding. Where the formula is undefined (zero denominator, logarithm of zero) the result is '
     '"no value" and never a number or an exception.',
     ['inputs'], 'all lists of 2x2 tables of non-negative counts, including zero margins and large counts',
     'Tests feed a handful of fixed files; the statement ranges over every combination of cells, in '
     'particular all patterns of zero margins for each of about 40 statistics.',
     [U + 'ctc_statistics.py', U + 'nbrctc_statistics.py', U + 'utils.py', 'metcalcpy/agg_stat.py'],
     [('categorical statistic functions', U + 'ctc_statistics.py calculate_*'),
      ('neighborhood wrappers', U + 'nbrctc_statistics.py calculate_nbr_*'),
      ('column sums ignoring missing cells', U + 'utils.py sum_column_data_by_name')])

prop('S02', 'Scalar partial-sum statistics equal those of the pooled forecast-obs pairs',
     'Statistics aggregated from any set of scalar partial-sum lines (SL1L2) equal the same statistics '
     'computed directly from all the underlying forecast/observation pairs, however the pairs were '
     'distributed over the lines. Undefined statistics are reported as "no value".',
     ['inputs', 'configurations'],
     'all multisets of forecast/observation pairs and all ways to divide them into lines of unequal totals',
     'Tests compare one fixed data set against stored numbers; unequal line totals, degenerate variance and '
     'single-pair lines are never combined with every statistic.',
     [U + 'sl1l2_statistics.py', U + 'utils.py', 'metcalcpy/agg_stat.py'],
     [('statistic functions', U + 'sl1l2_statistics.py calculate_*'),
      ('weighting lines by total', 'metcalcpy/agg_stat.py AggStat data preparation and field table')])

prop('S03', 'Anomaly partial-sum statistics equal those of the pooled anomaly pairs',
     'Anomaly statistics aggregated from any set of scalar or vector anomaly partial-sum lines (SAL1L2, '
     'VAL1L2) equal the same statistics computed directly from all underlying anomaly pairs, however they '
     'were distributed over the lines. Undefined statistics are reported as "no value".',
     ['inputs'], 'all multisets of anomaly pairs and all divisions into lines',
     'No test computes an anomaly correlation from pairs; the aggregation weights and the zero-variance '
     'cases are not exercised.',
     [U + 'sal1l2_statistics.py', U + 'val1l2_statistics.py', 'metcalcpy/agg_stat.py'],
     [('statistic functions', U + 'sal1l2_statistics.py, ' + U + 'val1l2_statistics.py'),
      ('weighting lines by total', 'metcalcpy/agg_stat.py AggStat data preparation and field table')])

prop('S04', 'Wind vector statistics equal those of the pooled vector pairs',
     'Vector wind statistics (VL1L2 and VCNT) aggregated from any set of lines equal the same statistics '
     'computed from all underlying forecast/observed wind vectors, including speeds, directions in degrees '
     'and vector-difference statistics. Undefined statistics are reported as "no value".',
     ['inputs'], 'all multisets of wind vector pairs in all quadrants and all divisions into lines',
     'No test covers vector statistics for winds in each quadrant, calm winds or lines of unequal totals.',
     [U + 'vl1l2_statistics.py', U + 'vcnt_statistics.py', U + 'met_stats.py', 'metcalcpy/agg_stat.py'],
     [('statistic functions', U + 'vl1l2_statistics.py, ' + U + 'vcnt_statistics.py'),
      ('direction and speed', U + 'met_stats.py'),
      ('weighting lines by total', 'metcalcpy/agg_stat.py AggStat data preparation and field table')])

prop('S05', 'Gradient, neighborhood and RPS lines aggregate as total-weighted scores',
     'Gradient, neighborhood continuous and ranked probability statistics aggregated from any set of lines '
     'equal the score rebuilt from the lines\' component sums weighted by the number of pairs of each line. '
     'Undefined statistics are reported as "no value".',
     ['inputs'], 'all sets of GRAD, NBRCNT and RPS lines with unequal totals',
     'Tests do not aggregate these line types over lines with different totals.',
     [U + 'grad_statistics.py', U + 'nbrcnt_statistics.py', U + 'rps_statistics.py', 'metcalcpy/agg_stat.py'],
     [('statistic functions', U + 'grad_statistics.py, nbrcnt_statistics.py, rps_statistics.py'),
      ('weighting lines by total', 'metcalcpy/agg_stat.py AggStat data preparation')])

prop('S06', 'Ensemble continuous statistics aggregate consistently over any set of lines',
     'Ensemble continuous statistics (ECNT) aggregated from any set of lines equal the total-weighted mean '
     'of the line statistic, with spreads and RMSEs combined as variances, skill scores rebuilt from the '
     'combined scores, and bias ratios from counts above and below the observations.',
     ['inputs'], 'all sets of ECNT lines with unequal totals and member counts, including zero counts',
     'Tests store three aggregated values for one file; the other statistics and the oerr variants have no '
     'reference.',
     [U + 'ecnt_statistics.py', 'metcalcpy/agg_stat.py'],
     [('statistic functions', U + 'ecnt_statistics.py calculate_ecnt_*'),
      ('weighting lines by total', 'metcalcpy/agg_stat.py AggStat data preparation')])

prop('S07', 'Spread/skill bins aggregate to the statistics of the pooled bins',
     'Spread/skill statistics (SSVAR) aggregated from any set of bins equal the statistics of the pooled '
     'pairs, with each bin weighted by its own number of cases.',
     ['inputs'], 'all sets of SSVAR bins with unequal bin counts',
     'Tests aggregate one fixed SSVAR file for two statistics.',
     [U + 'ssvar_statistics.py', U + 'sl1l2_statistics.py', 'metcalcpy/agg_stat.py'],
     [('statistic functions', U + 'ssvar_statistics.py'),
      ('bin weighting', 'metcalcpy/agg_stat.py AggStat data preparation')])

prop('S08', 'Multi-category skill score is computed on the summed contingency table',
     'For any set of multi-category contingency lines with the same number of categories, the HSS_EC '
     'statistic equals its formula on the category table summed over the lines; where the formula is '
     'undefined the result is "no value". A point whose lines disagree on the expected fraction of correct '
     'forecasts is refused, and only then.',
     ['inputs'], 'all sets of n x n tables (n = 2, 3, 4), in any cell order',
     'Tests contain no multi-category lines.',
     [U + 'mcts_statistics.py', 'metcalcpy/agg_stat.py'],
     [('statistic function', U + 'mcts_statistics.py calculate_mcts_hss_ec')])

prop('S09', 'Probability statistics equal their definition on the pooled probability table',
     'For any set of probability contingency lines (PCT), Brier score, its reliability, resolution and '
     'uncertainty terms, skill score, base rate, per-threshold calibration and counts, and ROC area equal '
     'their definitions on the yes/no counts summed per probability threshold over the lines.',
     ['inputs'], 'all sets of PCT lines for 2 to 4 thresholds, including empty probability bins',
     'No test computes these statistics from PCT lines.',
     [U + 'pstd_statistics.py', 'metcalcpy/agg_stat.py'],
     [('statistic functions', U + 'pstd_statistics.py calculate_pstd_*')])

prop('S10', 'ROC curves list every threshold once, in order, with its POD and POFD',
     'The ROC curve built from categorical lines contains exactly one point per threshold, ordered by the '
     'numeric threshold value as requested, and each point\'s detection and false detection rates are those '
     'of the lines of that threshold. The curve of probability lines has one point per probability in increasing '
     'order, and its area is the chance that an event was given a higher probability than a non-event.',
     ['inputs'], 'all sets of thresholds (all operators, negative and multi-digit numbers) and tables',
     'Tests check one ascending and one descending list.',
     [U + 'ctc_statistics.py', U + 'pstd_statistics.py'],
     [('CTC ROC curve', U + 'ctc_statistics.py calculate_ctc_roc, sort_by_thresh'),
      ('PCT ROC curve', U + 'pstd_statistics.py calculate_pstd_roc_auc')])

prop('S11', 'Economic value curves follow the cost/loss definition for every table',
     'For any 2x2 contingency or probability table, the relative economic value at every cost/loss ratio '
     'between 0 and 1 equals its definition, is never above one, and the reported maximum and base rate match '
     'the table. An economic value job draws each curve from exactly the (equalized) lines its series values, '
     'groups and thresholds select.',
     ['inputs', 'configurations'], 'all tables of small counts with and without added base rate, all cost/loss '
     'points; jobs over every subset of a set of cells, with and without groups and event equalization',
     'Tests compare two stored curves.',
     [U + 'eclv_statistics.py', U + 'ctc_statistics.py', U + 'pstd_statistics.py', 'metcalcpy/agg_eclv.py'],
     [('economic value', U + 'ctc_statistics.py calculate_economic_value'),
      ('curve per table', U + 'eclv_statistics.py calculate_eclv')])

prop('S12', 'MODE object ratios count exactly the objects they name',
     'Every MODE ratio statistic (2D and 3D; by count, area or volume) equals the ratio of the objects that '
     'its name selects (forecast/observed, simple/cluster, matched/unmatched) in the supplied object list, '
     'and "no value" when the reference set is empty. Object hits, misses, false alarms, CSI, PODY and FAR '
     'follow from the matched and unmatched simple objects.',
     ['inputs'], 'all object lists of small size over every combination of the object flags',
     'Tests do not cover object ratios.',
     [U + 'mode_ratio_statistics.py', U + 'mode_arearat_statistics.py', U + 'mode_2d_ratio_statistics.py',
      U + 'mode_2d_arearat_statistics.py', U + 'mode_3d_ratio_statistics.py',
      U + 'mode_3d_volrat_statistics.py'],
     [('count ratios', U + 'mode_ratio_statistics.py'), ('area ratios', U + 'mode_arearat_statistics.py'),
      ('2D/3D selection', U + 'mode_2d_*, mode_3d_*')])

prop('S13', 'Missing data acts as absent data and never produces a number from nothing',
     'A line whose statistic columns are all missing changes no statistic of the remaining lines, and a '
     'statistic has "no value" when every value of the table, or of a count or sum it needs, is missing '
     '(bins of a probability table without counts are left out). No pattern of missing cells makes a '
     'statistic raise an exception.',
     ['inputs'], 'all placements of missing cells and missing lines in small tables of every line type',
     'Tests contain complete data only.',
     [U + 'utils.py', U + 'ctc_statistics.py', U + 'sl1l2_statistics.py', U + 'sal1l2_statistics.py',
      U + 'vl1l2_statistics.py', U + 'val1l2_statistics.py', U + 'vcnt_statistics.py',
      U + 'ecnt_statistics.py', U + 'grad_statistics.py', U + 'nbrcnt_statistics.py'],
     [('column sums ignoring missing cells', U + 'utils.py sum_column_data_by_name'),
      ('error mapping to "no value"', U + '*_statistics.py')])

prop('S14', 'Statistics are pure: order of lines and call history never matter',
     'The value of every statistic depends only on the set of lines supplied: not on their order, the '
     'column order, unrelated columns, nor on which statistics were computed before in the same process. '
     'Computing a statistic never modifies the supplied data.',
     ['inputs', 'histories'], 'all line and column orders of small tables and all ordered pairs of calls',
     'Each test computes a statistic once in a fresh arrangement; interference between successive calls '
     'cannot be seen.',
     [U + 'utils.py', U + 'ctc_statistics.py', U + 'sl1l2_statistics.py', U + 'vcnt_statistics.py',
      U + 'ecnt_statistics.py'],
     [('warning filters changed per call', U + '*_statistics.py warnings.filterwarnings'),
      ('lookup of columns by name', U + 'met_stats.py get_column_index_by_name')])

prop('E01', 'Event equalization keeps exactly the cases shared by every series',
     'After event equalization a record survives if and only if its case (valid time, lead and, unless it is '
     'a time, its independent value) occurs for every combination of series and fixed values being compared, '
     'where a group of values stands for its members. Surviving records are unchanged, and none is '
     'duplicated, invented or lost.',
     ['inputs', 'configurations'],
     'all small record sets over two series variables, leads and valid times, with duplicates and missing',
     'Tests compare a few files; which subsets of cases are present is an exponential space.',
     ['metcalcpy/event_equalize.py', U + 'utils.py'],
     [('case intersection', 'metcalcpy/event_equalize.py event_equalize')])

prop('E02', 'Equalization against a reference list keeps exactly the listed cases',
     'Equalizing against a reference set keeps exactly the records whose case is in the reference, once per '
     'record, for every series and independent value.',
     ['inputs'], 'all small record sets and reference sets',
     'One fixed file is tested.',
     ['metcalcpy/event_equalize_against_values.py'],
     [('case filter', 'metcalcpy/event_equalize_against_values.py event_equalize_against_values')])

prop('E03', 'Equalization across two axes keeps only cases common to both axes',
     'With event equalization on, a two-axis job keeps exactly the records whose cases exist for every '
     'series of both axes, each record once, and equalization changes nothing when all series have the same '
     'cases.',
     ['inputs', 'configurations'], 'all small record sets over two axes with one or two series variables',
     'No test equalizes two axes.',
     [U + 'utils.py', 'metcalcpy/event_equalize.py', 'metcalcpy/agg_stat_eqz.py',
      'metcalcpy/agg_stat_event_equalize.py'],
     [('two-axis equalization', U + 'utils.py perform_event_equalization, equalize_axis_data')])

prop('A01', 'Every requested point is output once, from exactly the matching records',
     'An aggregation job writes exactly one row per combination of requested series values, independent '
     'values and statistics on each axis, and the value and record count of each row come from exactly the '
     'input records matching that combination. A combination with no records has no value and a count of '
     'zero.',
     ['inputs', 'configurations'],
     'all small requests (axes, series variables, groups, statistics) over all small record sets',
     'Tests run three fixed configurations.',
     ['metcalcpy/agg_stat.py'],
     [('product of requested values and record filters', 'metcalcpy/agg_stat.py axis processing')])

prop('A02', 'Derived curves combine exactly the two curves they name',
     'For every derived curve (difference, ratio, skill score, single, significance of the difference, '
     'equivalence bounds) and every independent value, the output is the named operation applied to the two '
     'named series at that independent value, and "no value" when either operand has none. Curves that have '
     'several values at one time and lead are refused.',
     ['inputs', 'configurations'], 'all pairs of series, operations and independent values of small requests',
     'Tests use one derived curve.',
     ['metcalcpy/agg_stat.py', U + 'utils.py'],
     [('derived points', 'metcalcpy/agg_stat.py derived statistics'),
      ('operations', U + 'utils.py calc_derived_curve_value')])

prop('A03', 'Bootstrap replicates are resamples of whole blocks of the input',
     'Each bootstrap replicate consists of exactly as many records as the input, every one an input record, '
     'drawn in consecutive circular blocks of the configured length in time order with equally likely '
     'starts. The two curves of a derived curve are resampled together, object statistics resample whole '
     'cases, and the point estimate is always the statistic of the original data.',
     ['inputs', 'schedules'], 'all random draws for small data sets, block lengths, batches and threads',
     'Tests fix one seed; they cannot tell a replicate that never resamples the last record.',
     ['metcalcpy/bootstrap.py'],
     [('block index generation', 'metcalcpy/bootstrap.py generate_simulations'),
      ('bootstrap driver', 'metcalcpy/bootstrap.py bootstrap_and_value, bootstrap_and_value_mode')])

prop('A04', 'Confidence bounds are the requested quantiles of the replicates',
     'Reported lower and upper bounds are those the chosen method and significance level define for the '
     'distribution of replicate statistics; the lower bound never exceeds the upper, and a smaller '
     'significance level never narrows the interval. Replicates without a value are left out, and jobs use '
     'the level given to them.',
     ['inputs', 'configurations'], 'all small replicate distributions, interval methods and levels',
     'Tests compare stored bounds for the default level only.',
     ['metcalcpy/bootstrap.py', 'metcalcpy/agg_stat.py'],
     [('bounds', 'metcalcpy/bootstrap.py _get_confidence_interval_and_value'),
      ('level passed by the driver', 'metcalcpy/agg_stat.py')])

prop('A05', 'Aggregation output is a function of input, parameters and seed',
     'Running the same job twice with the same seed and number of threads gives identical output, whatever '
     'ran before in the process, and values (not interval bounds) do not depend on the number of threads. A '
     'job modifies neither its input file nor the parameters given to it.',
     ['histories', 'schedules', 'configurations'],
     'all sequences of two jobs over all line types, thread counts 1 to 3',
     'Each test runs one job in a fresh object.',
     ['metcalcpy/agg_stat.py', 'metcalcpy/bootstrap.py', 'metcalcpy/sum_stat.py', 'metcalcpy/agg_eclv.py',
      'metcalcpy/agg_stat_bootstrap.py', 'metcalcpy/scorecard.py', 'metcalcpy/agg_stat_eqz.py',
      'metcalcpy/agg_stat_event_equalize.py'],
     [('global random generator seeding', 'metcalcpy/agg_stat.py calculate_stats_and_ci'),
      ('shared parameters object', 'metcalcpy/agg_stat.py AggStat.__init__')])

prop('A06', 'Grouped values behave as the union of their members',
     'A point whose series or independent value is a group of values has the statistic of the pooled '
     'records of its members, and equals the point computed when all members are renamed to one value.',
     ['inputs', 'configurations'], 'all groupings of small value sets',
     'Tests use one grouped file.',
     ['metcalcpy/agg_stat.py', U + 'utils.py', 'metcalcpy/sum_stat.py'],
     [('group expansion', 'metcalcpy/agg_stat.py'), ('aggregation of groups', U + 'utils.py aggregate_field_values')])

prop('A07', 'Appending to an output file keeps earlier rows and one header',
     'In append mode an aggregation, economic value or scorecard job adds its rows after those in an existing '
     'output file without changing them and without a second header; otherwise the output holds this job\'s rows only.',
     ['histories'], 'all sequences of up to four jobs with append on or off, from absent or existing files',
     'No test appends.',
     ['metcalcpy/agg_stat.py', 'metcalcpy/agg_eclv.py', 'metcalcpy/scorecard.py'],
     [('output writing', 'metcalcpy/agg_stat.py and agg_eclv.py calculate_stats_and_ci, metcalcpy/scorecard.py')])

prop('A08', 'The summary job gives every line and group of lines its statistic',
     'The summary job writes each requested line with the statistic that line defines. Where a group of '
     'values (joined with semicolons) is requested, the lines of one case (valid time, lead, variable, '
     'statistic) in the group are replaced by one line with the statistic of their pooled counts or sums. With '
     'event equalization only the lines of cases that all requested series have are used.',
     ['inputs', 'configurations'], 'all small sets of lines of every supported line type',
     'No test runs the summary job.',
     ['metcalcpy/sum_stat.py', U + 'utils.py'],
     [('summary job', 'metcalcpy/sum_stat.py'), ('series sums', U + 'utils.py calc_series_sums')])

prop('A09', 'Scorecard rows compare the two models they name',
     'Every scorecard row is the requested comparison (mean difference, NCAR or EMC significance, or mean of '
     'the first series) of the two named series at its combination of fields. There is no row when a side '
     'has no data, and no value when the numbers of values differ or are too few.',
     ['inputs', 'configurations'], 'all small record sets with and without missing sides, all operations',
     'Tests run two fixed files.',
     ['metcalcpy/scorecard.py', U + 'utils.py'],
     [('scorecard values', 'metcalcpy/scorecard.py')])

prop('A10', 'Object jobs give each point the statistic of exactly the selected objects',
     'A job over object lines writes exactly one row per combination of requested series values, groups, independent '
     'values and statistics on each axis, computed from exactly the objects that match it, of its variable only. With '
     'event equalization only the objects of the reference cases count, also when no case is left.',
     ['inputs', 'configurations'], 'all small sets of objects, requests and sets of reference cases, with and without resampling',
     'Tests run one fixed job.',
     ['metcalcpy/agg_stat_bootstrap.py', 'metcalcpy/agg_stat_eqz.py'],
     [('points and filters', 'metcalcpy/agg_stat_bootstrap.py axis processing'),
      ('equalization against cases', 'metcalcpy/agg_stat_eqz.py')])

prop('U01', 'Two one-sided tests agree with the paired t statistics of the data',
     'For any paired data and equivalence bounds the equivalence test reports the statistics, p values, '
     'confidence limits and conclusions that follow from the paired differences. Every input whose '
     'differences vary yields exactly one of the four combined conclusions.',
     ['inputs'], 'all small paired samples, bounds and significance levels',
     'Tests use one sample.',
     [U + 'tost_paired.py', U + 'utils.py', U + 'correlation.py'],
     [('equivalence test', U + 'tost_paired.py and utils.py tost_paired'),
      ('equivalence curve', U + 'utils.py calc_derived_curve_value')])

prop('U02', 'Series helper functions enumerate and count exactly',
     'Listings of combinations of series values contain every combination exactly once in a fixed order. '
     'Derived curve names are recognised as derived and differ when their parts differ; number parsing, '
     'rounding half up, row selection, column sums and time ordering follow their descriptions.',
     ['inputs'], 'all small series definitions, names, texts and tables',
     'Tests use one or two definitions.',
     [U + 'utils.py'], [('permutations', U + 'utils.py create_permutations*')])

prop('U03', 'Standard errors and serial statistics follow their definitions',
     'Standard errors of the mean, median and sum (inflated by the lag one regression coefficient), '
     'autocorrelation, autocovariance, correlation and the runs test equal their definitions on the values '
     'that are not missing, and have no value or are zero where undefined.',
     ['inputs'], 'all short series over a small alphabet',
     'Tests use single series.',
     [U + 'utils.py', U + 'correlation.py', U + 'wald_wolfowitz_runs_test.py'],
     [('standard errors', U + 'utils.py'), ('correlation', U + 'correlation.py'),
      ('runs test', U + 'wald_wolfowitz_runs_test.py')])

prop('U04', 'Longitude conversion is a bijection that preserves positions',
     'Converting longitudes to -180..180, or to start at a given longitude, returns them in increasing order '
     'inside the requested range, never moves, loses or duplicates a point, and the returned indices say '
     'where each point came from.',
     ['inputs'], 'all grids of divisors of 360 degrees and both conventions',
     'Tests use one grid each.',
     [U + 'utils.py'], [('longitude conversion', U + 'utils.py convert_lon_360_to_180, convert_lons_indices')])

prop('U05', 'Revision statistics of tracked objects keep the objects apart',
     'The revision statistics (runs test p value, autocorrelation at the last lag and its level) are those '
     'of the objects\' series placed one after the other with a gap between objects, for any set and order '
     'of objects; an undefined statistic has no value.',
     ['inputs'], 'all small sets of tracked objects',
     'One fixed file is tested.',
     [U + 'utils.py', U + 'correlation.py', U + 'wald_wolfowitz_runs_test.py'], [('revision statistics', U + 'utils.py calculate_mtd_revision_stats')])

prop('U06', 'Correlations of every kind, their intervals and power agree',
     'The Pearson, rank, biweight, percentage bend and outlier-removing correlations of any paired data equal their definitions on '
     'the pairs without missing values, never leave -1..1, and come with the matching r2, p value, interval, power and number of '
     'pairs and outliers. Of coefficient, sample size, power and significance level of a correlation test each follows from the '
     'other three; intervals of effect sizes and Bayes factors equal their formulas; removing missing values keeps pairs together.',
     ['inputs'], 'all short paired series with ties, perfect correlation, gaps and far outliers; grids of sizes, levels and tails',
     'No test calls these functions except for one correlation.',
     [U + 'correlation.py'], [('coefficients', U + 'correlation.py corr, bicor, percbend, shepherd'), ('power', U + 'correlation.py power_corr'),
                              ('intervals', U + 'correlation.py compute_esci, bayesfactor_pearson'), ('missing', U + 'correlation.py remove_na')])

prop('F01', 'Configuration reading substitutes exactly the referenced variables',
     'Reading a YAML configuration replaces every ${NAME} in a plain or tagged value by the value of that '
     'environment variable, or by its name when it is not set, once and for all references; quoted untagged '
     'values and everything else are read as YAML reads them. The result depends on the document and the '
     'current environment only, and other YAML reading in the process is not affected.',
     ['inputs', 'configurations', 'histories'],
     'all values of up to three pieces in every quoting style, position and environment, and all histories of '
     'up to four reads and environment changes',
     'No test reads a configuration with references; values that look like references or a second reader in '
     'the process are combinations nobody writes down.',
     [U + 'read_env_vars_in_config.py'], [('substitution', U + 'read_env_vars_in_config.py')])

prop('F02', 'Image comparison detects and locates every difference',
     'Two images compare as identical if and only if their pixels are the same, whichever is given first. The '
     'difference image shows the structural similarity at each pixel, and the marked images show the same boxes '
     'around the differences. Every image can be saved or shown in any order and any number of times with the '
     'same result.',
     ['inputs', 'histories'],
     'all small images differing in any one or two pixels or any inverted rectangle, and all sequences of up to '
     'four save and show requests',
     'Tests compare two files and save one image each.',
     ['metcalcpy/compare_images.py'], [('comparison', 'metcalcpy/compare_images.py')])

prop('F03', 'Decision difficulty index stays on its scale and weights its factors',
     'The difficulty index equals its definition, for any ensemble statistics and thresholds, and never '
     'leaves the documented range; a negative or vanishing spread and a domain that is not increasing are refused.',
     ['inputs'], 'all small grids of means, spreads, thresholds and limits',
     'Tests use one grid.',
     ['metcalcpy/calc_difficulty_index.py', 'metcalcpy/piecewise_linear.py'],
     [('index', 'metcalcpy/calc_difficulty_index.py'), ('weights', 'metcalcpy/piecewise_linear.py')])

prop('F04', 'Vertical interpolation gives the value between the neighbouring levels',
     'Interpolating a field to target levels inside the data range gives the linear (or logarithmic) '
     'interpolation between the neighbouring levels, each column by its own coordinate and in any units; a '
     'target equal to a level gives that level and a target outside takes the nearest level.',
     ['inputs'], 'all small columns of levels, undefined values and positions of the targets',
     'No test interpolates.',
     ['metcalcpy/vertical_interp.py'], [('interpolation', 'metcalcpy/vertical_interp.py')])

prop('F05', 'Directional means average exactly the selected band',
     'The zonal mean is the average over all longitudes; the meridional mean is the average over exactly the '
     'latitudes between the two limits, weighted by the cosine of latitude, and limits that are not increasing '
     'are refused. Undefined values take no part, and other dimensions and their order do not matter.',
     ['inputs', 'configurations'], 'all small grids with undefined values, dimension orders and bands',
     'No test computes directional means.',
     ['metcalcpy/pre_processing/directional_means.py'],
     [('means', 'metcalcpy/pre_processing/directional_means.py')])

prop('F06', 'Zonal wave decomposition is complete and orthogonal',
     'The zonal wave contributions of all wave numbers add up to the field, the covariance contributions to '
     'the zonal covariance, and amplitude and phase describe each contribution. This holds for any number of '
     'longitudes, any selection of wave numbers and either transform package.',
     ['inputs', 'configurations'], 'all small periodic fields with odd and even numbers of longitudes and all '
     'sets of wave numbers',
     'No test covers waves.',
     ['metcalcpy/pre_processing/waves.py'], [('decomposition', 'metcalcpy/pre_processing/waves.py')])

prop('F07', 'Heights of pressure levels follow the hypsometric equation',
     'The height of every pressure level above the surface is the surface height plus the thickness of the '
     'layers between, each with the virtual temperature of the level at its top; levels below the '
     'surface have no height.',
     ['inputs'], 'all small columns of pressure levels, temperatures, moisture and positions of the surface',
     'No test computes heights; the layer that holds the surface is different in every column.',
     ['metcalcpy/vertical_interp.py'], [('heights', 'metcalcpy/vertical_interp.py')])

C = 'metcalcpy/contributed/'

prop('F08', 'Interpolated files hold the computed fields, where and when they are valid',
     'The vertical interpolation program writes every requested field and no other with the values it computed, '
     'in the order of the dimensions of the input, with the attributes and coordinates of the input. Valid and '
     'reference times in the file are the given ones whatever the local time zone.',
     ['inputs', 'configurations'], 'all dimension orders, kinds of numbers, optional times and time zones of small datasets, '
     'and whole runs of the program',
     'No test writes a file; a shifted time depends on the time zone of the machine.',
     ['metcalcpy/vertical_interp.py'], [('output', 'metcalcpy/vertical_interp.py write_dataset'),
                                        ('program', 'metcalcpy/vertical_interp.py main')])

prop('C01', 'Space-time spectra are the spectra of the field',
     'Power and cross spectra at every frequency and zonal wave number equal the products of the Fourier '
     'coefficients, eastward waves at positive wave numbers, for odd and even numbers of times and longitudes. '
     'Spectra of a whole series are the smoothed spectra of the detrended, tapered segments, averaged over all '
     'segments that fit, with coherence and phase of the averages; the input is not changed.',
     ['inputs', 'configurations'], 'all pairs of points of all small grids; every segment length and overlap of short series',
     'The tests of the spectra are skipped (they need data files).',
     [C + 'spacetime/spacetime.py'],
     [('segment spectra', C + 'spacetime/spacetime.py mjo_cross_segment*'),
      ('series', C + 'spacetime/spacetime.py mjo_cross, smooth121, window_cosbell')])

prop('C02', 'The equatorial wave filter keeps exactly the requested waves',
     'Filtering a field keeps, unchanged, exactly the waves whose period, eastward wave number and equivalent '
     'depth lie within the requested limits and removes all others. A depth limit that is left open does not limit, '
     'and odd and even numbers of times and longitudes are filtered alike.',
     ['inputs', 'configurations'], 'all single waves and their sum on small grids x every range of wave numbers, wave types, '
     'open and closed depth limits',
     'No test filters a field.',
     [C + 'spacetime/spacetime.py'], [('filter', C + 'spacetime/spacetime.py kf_filter, kf_filter_mask')])

prop('C03', 'Regridding keeps every value at its place',
     'Flipping longitudes between -180..180 and 0..360 keeps the value at every place and orders the longitudes; '
     'the symmetric and anti-symmetric part of a field about the equator are half the sum and difference of mirrored '
     'latitudes on the northern ones; stored spectra are read back unchanged. The data of the caller are left alone.',
     ['inputs'], 'all parts of regular circles of longitudes, all symmetric sets of latitudes in both orders',
     'No test flips longitudes that are not half west, half east, or splits fields of odd numbers of latitudes.',
     [C + 'spacetime/spacetime_utils.py', C + 'tropical_diagnostics/utils.py', C + 'spacetime/spacetime.py'],
     [('flip', 'lonFlip'), ('symmetric part', 'get_symmasymm'), ('storing', 'save_Spectra')])

prop('C04', 'MJO indices are the projection of the filtered data on the two patterns',
     'The RMM index of every time is the least squares coefficient of the three fields without their running 120 '
     'day mean, each divided by its norm, on the two patterns; the OMI index the same for data filtered to periods of '
     '20 to 96 days on the patterns of the day of the year. Filters keep exactly the requested periods and waves of detrended, '
     'tapered data, other grids are refused, and the data of the caller are not changed.',
     ['inputs', 'configurations'], 'all short series with undefined values, all small vectors, even and odd numbers of times and '
     'longitudes, several time steps',
     'No test computes an MJO index.',
     [C + 'rmm_omi/compute_mjo_indices.py'], [('indices', C + 'rmm_omi/compute_mjo_indices.py')])

prop('C05', 'Blocking is found wherever it lies on the circle',
     'A longitude is blocked where the largest difference of the mean height north and south of the central latitude is '
     'positive; groups are formed from blocked longitudes up to the requested distance apart, at least as wide as requested; a '
     'group that persists for five days and does not move away is a block. None of this depends on where '
     'longitude 0 lies, on other years, or on days without groups.',
     ['inputs', 'histories'], 'patterns of blocked longitudes at each of the 360 longitudes, all short walks of a group over days',
     'No test covers blocking; groups across longitude 0 need special handling at every step.',
     [C + 'blocking_weather_regime/Blocking.py'],
     [('central latitude', 'run_CBL'), ('blocked longitudes', 'run_Calc_IBL'), ('groups', 'run_Calc_GIBL'),
      ('blocks', 'run_Calc_Blocks')])

prop('C06', 'Weather regimes are numbered, matched and counted consistently',
     'Regimes are numbered by decreasing frequency and every day carries the number of the regime it belongs to; matching '
     'to other regimes moves patterns, frequencies and day labels together, and days without a match stay undefined. '
     'Data is prepared without trend and season and weighted by latitude; regime counts and the written regime and matched pair '
     'files hold exactly the days and values given.',
     ['inputs', 'configurations'], 'all small label tables, all maps between up to 4 regimes, all sequences of days over 2-3 patterns',
     'No test covers regimes.',
     [C + 'blocking_weather_regime/WeatherRegime.py', C + 'blocking_weather_regime/Blocking_WeatherRegime_util.py'],
     [('numbering', 'run_K_means'), ('matching', 'reorder_fcst_regimes, reorder_fcst_regimes_correlate'),
      ('counting', 'compute_wr_freq'), ('files', 'write_K_means_file, write_mpr_file, read_nc_met')])

prop('C07', 'Storm-relative winds are the rotated winds, whatever the file layout',
     'At every range, azimuth, level and track point the radial and tangential winds are the components of the wind along and '
     'across the direction 90 degrees from the azimuth, so that speed is preserved and undefined winds stay undefined. The order '
     'of the dimensions in the file does not matter.',
     ['inputs', 'configurations'], 'all positions on small grids, all azimuths of regular circles and pairs of azimuths, all '
     'orders of dimensions',
     'No test computes storm-relative winds.',
     ['metcalcpy/process_tcrmw.py'], [('winds', 'metcalcpy/process_tcrmw.py compute_wind_components, read_tcrmw')])

prop('C08', 'Dispersion curves solve the shallow water dispersion relation',
     'Every tabulated frequency of an equatorial wave is the root of the shallow water dispersion relation that belongs to the '
     'named wave, depth, meridional mode and latitude. Curves are given for exactly the direction of propagation of the wave.',
     ['inputs'], 'all tables of depths, latitudes, modes and grids of wave numbers',
     'No test looks at the curves; they come from an iterative solver whose starting point decides which root is found.',
     [C + 'spacetime/matsuno_plot.py'], [('curves', C + 'spacetime/matsuno_plot.py')])

prop('C09', 'MaKE and MaKI hold the minimum of the 90 days before every month',
     'The monthly indices have one value for the first day of every month after the first 90 days, the minimum of the daily '
     'index over the 90 days before, scaled to unit variance, whatever the first day and length of the series. The wind power is the '
     'product of currents and stresses weighted by a function of latitude that is symmetric about the equator. The MJO part of '
     'a stress is built from the four patterns for every point that has data, and is missing exactly where the stress is missing.',
     ['inputs'], 'series that begin on different days of leap and other years, 92-366 days; every set of points with data of small grids',
     'No test computes these indices.',
     [C + 'mjo_enso/compute_mjo_enso.py'], [('indices', 'make_maki'), ('power', 'calc_wpower_MJO'), ('stress', 'calc_tau_MJO')])

prop('C10', 'Wave activity is the norm of the projections of the anomalies',
     'Anomalies are differences from the mean of the same calendar day when dates repeat, and from the mean of the period otherwise; the '
     'activity of a wave is the root of the sum of squares of their projections on the patterns of the month or year, over the '
     'area of the patterns. Skill is the correlation of every line with the first for every lead and leaves the activities as they were; '
     'leading patterns, their series and shares of variance are those of the data for any time dimension.',
     ['inputs', 'configurations'], 'every small set of dates about year ends and leap days, waves, monthly and annual patterns, small tables of every shape',
     'No test imports this module.',
     [C + 'tropical_diagnostics/ccew_activity.py'], [('activity', 'waveact, waveproj'), ('anomalies', 'rem_seas_cyc, rem_seas_mean'),
                                                     ('skill', 'wave_skill'), ('patterns', 'eof_comp')])

prop('F09', 'Plot validation reports every plot and removes only what agrees',
     'Validating plots against a new METviewer run gives exactly one verdict for every request file of the tested days, success '
     'if and only if both images are the same or both are absent, and goes on to the next plot whatever happened to one. Requests, images, data '
     'and scripts of a plot that agrees are removed and those of every other plot, with the original plots and requests, stay. '
     'Every request is rerun with the new names, directories and user in place of the old.',
     ['histories', 'configurations'], 'sequences of plots whose names begin alike or contain dots, every kind of pair of images, dates about the period, '
     'directories with and without a final slash',
     'Tests cover the period and one file name; no test runs the validation.',
     ['metcalcpy/validate_mv_python.py', 'metcalcpy/compare_images.py'],
     [('validation', 'validate_mv_python.py main'), ('removal', 'validate_mv_python.py delete_similar_files, clean'),
      ('period', 'validate_mv_python.py get_testing_period, get_test_xml')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
