"""Writes /verif/properties.jsonl (kept as a script so the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
SM, DR, PC = 'sureal/subjective_model.py', 'sureal/dataset_reader.py', 'sureal/pc_subjective_model.py'

prop('C01', 'The vote matrix holds every vote of the dataset and nothing else',
 'Reading a dataset of raw votes yields a matrix indexed by (distorted video in dataset order, observer, repetition) in which each cell is exactly the vote that observer gave that video in that repetition, and is missing where there is no such vote. '
 'Observers are numbered by position when votes are lists, and by sorted name over all observers that voted on any video when votes are keyed by name; the repetition axis is as long as the longest vote list. '
 'Single votes count as one repetition, and reading does not change the dataset.',
 ['inputs'], 'all datasets: any number of videos, observers and repetitions, list- or dictionary-style votes, any pattern of missing votes',
 'The tests read three fixed dataset files and compare a few sums; they never vary which observer is missing from which video, the observer names, or mixed single/repeated votes.',
 [DR], [('opinion matrix construction', 'RawDatasetReader.opinion_score_3darray'), ('observer list', 'RawDatasetReader._get_list_observers, get_unique_sorted_list'), ('sizes', 'RawDatasetReader._get_num_observers, _get_max_repetitions')])

prop('C02', 'MOS, its standard error, confidence interval and ambiguity are right',
 'The mean opinion score of a video is the arithmetic mean of all votes present for it over all observers and repetitions, missing votes ignored; its ambiguity is their sample standard deviation (N-1), its standard error that divided by the square root of the number N of votes present, and both 95% half-widths are 1.95996 times the standard error.',
 ['inputs'], 'all vote matrices in which every video has a vote',
 'Tests compare means over a handful of fixed datasets, nearly all with one repetition and no missing vote; a wrong count or a wrong stacking of repetitions only shows with both.',
 [SM], [('statistics', 'MosModel._get_mos_and_stats'), ('repetition stacking', 'SubjectiveModel._stack_repetitions_along_axis')])

prop('C03', 'Per-vote fit statistics and reconstructions of MOS models are right',
 'For the MOS family the reported degrees of freedom per vote are the number of model parameters (two per video; plus one per observer and repetition when observer bias is removed) over the number of votes originally present, the log-likelihood per vote is the average Gaussian log-density of the votes used given the video mean and sample deviation, AIC is 2*dof-2*loglik and BIC is ln(votes)*dof-2*loglik. '
 'The reconstruction of every vote is the mean opinion score of its video.',
 ['inputs'], 'all vote matrices, with and without missing votes, repetitions, or rejected observers',
 'Tests pin numbers for a few datasets; the original vote count and the used vote count differ only when observers are rejected, which few tests combine with these statistics.',
 [SM], [('fit statistics', 'MosModel._get_mos_and_stats, _get_dof, _get_reconstructions'), ('density', 'sureal/tools/stats.py vectorized_gaussian')])

prop('C04', 'Differential scoring is relative to the own reference of each video',
 'With differential scoring every vote becomes vote + reference score - (mean opinion score of the unique reference presentation of the same content), so the reference presentation itself ends up with a mean equal to the reference score; missing votes stay missing. '
 'A dataset without exactly one reference presentation for some video, or without a reference score, is refused.',
 ['inputs'], 'all datasets, any order of videos and contents, any missing votes and repetitions',
 'The tests use one layout of contents and references; an index confusion between contents is invisible there.',
 [SM, DR], [('differential scoring', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing (dscore_mode)'), ('reference lookup', 'SubjectiveModel._get_ref_mos, DatasetReader.disvideo_is_refvideo, tools.misc.indices')])

prop('C05', 'Z-scoring normalises each observer by own mean and sample deviation',
 'With z-scoring every vote becomes (vote - m) / d, where m and d are the mean and the sample standard deviation (N-1) of the votes present of that same observer over all videos and repetitions; missing votes stay missing.',
 ['inputs'], 'all vote matrices in which every observer has votes',
 'Tests compare aggregate means on fixed datasets.',
 [SM], [('z-scoring', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing (zscore_mode)')])

prop('C06', 'Bias removal subtracts each observer\'s mean deviation from the MOS',
 'With ITU-T P.913 bias removal the reported bias of an observer is the mean, over all votes present of that observer, of the vote minus the mean opinion score of the video, and that bias is subtracted from each of that observer\'s votes before anything else (rejection, statistics) is computed.',
 ['inputs'], 'all vote matrices with any missing votes and repetitions',
 'Tests pin sums for fixed datasets.',
 [SM], [('bias offset', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing (bias_offset)'), ('result', 'BiasremvMosModel._run_modeling')])

prop('C07', 'BT.500 observer screening rejects exactly the observers of the rule',
 'For each video votes at least k population deviations above (P) or below (Q) the mean are counted to the observer who gave them, k=2 when the kurtosis of the video\'s votes lies in [2,4] and sqrt(20) otherwise; an observer is rejected exactly when (P+Q)/(videos*repetitions) > 0.05 and |P-Q|/(P+Q) < 0.3. '
 'If that would reject everybody nobody is rejected, exactly the votes of accepted observers remain, in order, and the flags and both statistics are reported per original observer.',
 ['inputs'], 'all vote matrices, any missing votes and repetitions',
 'The tests see a few datasets in which two or three fixed observers are rejected; thresholds, repetition attribution and the reject-all case are never at a boundary.',
 [SM], [('kurtosis screening', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing (subject_rejection kurtosis)'), ('propagation', 'MosModel._run_modeling')])

prop('C08', 'Correlation screening rejects exactly observers at or below threshold',
 'With Pearson (Spearman) screening each observer is given the correlation between own per-video mean vote and the mean over observers, on the videos that observer voted on; the threshold is mean minus population deviation of these correlations, capped at 0.7; observers with correlation at or below it are flagged and removed, all others keep all their votes in order.',
 ['inputs'], 'all vote matrices, any missing votes and repetitions',
 'Three tests over one dataset; the cap, ties and missing votes are not exercised.',
 [SM], [('correlation screening', 'SubjectiveModel._get_opinion_score_3darray_with_preprocessing (subject_rejection pearson/spearman)')])

prop('C09', 'P.910 estimates: each iteration is the alternating projection step',
 'The P.910 Annex E solver starts from the mean opinion scores and mean residual biases; each iteration sets observer inconsistency to the population deviation of the observer\'s residuals, quality to the mean of bias-corrected votes weighted by 1/(inconsistency^2+1e-8), and bias to the mean residual against the new quality. '
 'It stops at the first iteration whose change in quality has Euclidean norm below 1e-8 or after 1000 iterations, reports that iteration count, and finally shifts quality and bias so that, unless disabled, mean bias is zero and quality plus bias is unchanged.',
 ['inputs', 'histories'], 'all vote matrices with any missing votes and repetitions, all iteration histories',
 'Tests compare converged values on a few datasets with few missing votes; a step that is wrong only for repetitions, or a stop rule that is off by one, leaves them unchanged.',
 [SM, 'sureal/tools/misc.py'], [('solver', 'SubjectMLEModelProjectionSolver._run_modeling'), ('weighted mean', 'tools.misc.weighed_nanmean_2d')])

prop('C10', 'P.910 uncertainty, intervals and fit statistics are right',
 'From the final P.910 estimates, the standard error of a quality is 1/sqrt(sum over its votes of 1/inconsistency^2) (for the recommended variant: of 1/ambiguity^2 of that video), that of a bias is the same over the observer\'s votes, 95% half-widths are 1.95996 times these, and the interval of an inconsistency follows the chi-square quantiles at the observer\'s vote count. '
 'Per-observer mean and deviation are those of the votes used, each reconstruction is quality plus bias, degrees of freedom are (videos + 2*observers*repetitions)/votes, the log-likelihood is the per-vote Gaussian log-density, and AIC and BIC follow from these.',
 ['inputs'], 'all vote matrices and all final estimates',
 'Tests pin only some of these outputs for fixed datasets.',
 [SM], [('result assembly', 'SubjectMLEModelProjectionSolver._run_modeling, _get_s_j_std, _get_reconstructions, loglikelihood_function'), ('variant', 'SubjectMLEModelProjectionSolverAltSubjStdMixin._get_s_j_std')])

prop('C11', 'MLE model: each iteration is a damped Newton step on the likelihood',
 'In the maximum-likelihood model each iteration updates, in this order, observer bias, observer inconsistency, content ambiguity and quality; each parameter moves one tenth of the way of a Newton step on the Gaussian log-likelihood of all votes present (variance = inconsistency^2 + ambiguity^2 of the content), using the values already updated; inconsistency and ambiguity never become negative. '
 'Iteration starts from the MOS and residual deviations and stops when the quality change has norm below the threshold or after 10000 iterations; in the subject-oblivious (content-oblivious) variant bias and inconsistency (ambiguity) are zero throughout.',
 ['inputs', 'histories', 'configurations'], 'all vote matrices, content assignments, modes and gradient methods, all iteration histories',
 'Tests compare converged values on a few datasets; intermediate steps and modes with missing votes or repetitions are not observed.',
 [SM], [('belief propagation', 'MaximumLikelihoodEstimationModel._run_modeling'), ('likelihood', 'MaximumLikelihoodEstimationModel.loglikelihood_fcn')])

prop('C12', 'MLE model: reported parameters, intervals and fit statistics are right',
 'After the last iteration bias is shifted to mean zero with quality compensating (unless disabled); standard errors are 1/sqrt of the negative second derivative (0 when not positive) at the last step, 95% half-widths 1.95996 times them (chi-square based for inconsistency), each reconstruction is quality plus bias, and degrees of freedom, log-likelihood per vote, AIC and BIC are those of the chosen variant. '
 'Outputs of a disabled part of the model are absent.',
 ['inputs', 'configurations'], 'all vote matrices, modes and final states',
 'Tests pin some of these numbers for fixed datasets.',
 [SM], [('result assembly', 'MaximumLikelihoodEstimationModel._run_modeling, _get_dof, _get_reconstructions')])

prop('C13', 'Final normalisation and polynomial transform act on the final scores',
 'When normalisation is requested the final quality scores become (score - mean)/population deviation; when a transform is requested they become p2*score^2 + p1*score + p0 of the (normalised) scores with absent coefficients zero; otherwise they are unchanged, and nothing else in the result changes.',
 ['inputs', 'configurations'], 'all score vectors and option combinations',
 'Two tests with one dataset each.',
 [SM], [('postprocessing', 'SubjectiveModel._postprocess_model_result, run_modeling')])

prop('C14', 'Every named model runs exactly the processing its name promises',
 'Each model type, including the standard aliases for BT.500, P.913 clause 12.4 and P.910 Annex E, applies exactly the preprocessing steps it stands for (differential, z-scoring, bias removal, kurtosis/Pearson/Spearman rejection), passes every other option through, refuses being asked for a step it already does, never changes the caller\'s options, names the observers of a dictionary-style dataset in the order of its per-observer results, and is found under exactly one type name.',
 ['inputs', 'configurations'], 'all models and all option dictionaries',
 'Tests call each wrapper with default options only.',
 [SM, 'sureal/__init__.py', 'sureal/core/mixin.py'], [('wrappers', 'run_modeling of the MosModel/MLE subclasses'), ('lookup', 'TypeVersionEnabled.find_subclass')])

prop('C15', 'Aggregated datasets keep every video and carry its own score',
 'Writing model results back gives a dataset with the same videos in the same order, each with all its original fields except the raw votes plus its own score (and its own standard error when given), the same reference videos and dataset fields, overridden only by the options given; with a content or asset filter exactly the matching videos remain. '
 'The source dataset is left unchanged.',
 ['inputs', 'configurations'], 'all datasets, score vectors and option combinations',
 'Tests check a few entries of one dataset.',
 [DR, SM], [('aggregation', 'RawDatasetReader.to_aggregated_dataset, _prepare_new_dataset'), ('entry', 'SubjectiveModel.to_aggregated_dataset')])

prop('C16', 'Per-subject datasets list every vote once with the right video',
 'The per-subject dataset repeats each distorted video once per observer that voted on it, in video order then observer order, each copy carrying that observer\'s processed score and every original field except the raw votes; for votes keyed by name, an observer that did not vote on a video does not appear, and the source dataset is unchanged.',
 ['inputs'], 'all datasets with one vote per observer, any missing votes',
 'One test on one dataset without missing votes.',
 [DR, SM], [('per-subject', 'RawDatasetReader.to_persubject_dataset')])

prop('C17', 'Dictionary-style conversion and overlap merging keep every vote',
 'Converting list votes to dictionary style gives every observer a distinct name built from the dataset name and position and keeps each vote; merging two datasets yields exactly the videos whose paths occur in both (paths being distinct within each dataset), in order of the first, each with the votes of both datasets, where an observer present in both keeps first then second votes, and contents renumbered consistently from zero. '
 'Neither source dataset is changed.',
 ['inputs'], 'all pairs of datasets, with or without shared observers and repeated votes',
 'Tests merge two fixed datasets in a single style.',
 [DR], [('dictionary style', 'RawDatasetReader.to_dictionary_style_dataset'), ('merging', 'RawDatasetReader.to_combined_overlap_dataset')])

prop('C18', 'Converting ratings to paired comparisons preserves each preference',
 'Without sampling, coin tossing or noise, each observer (one vote per video) contributes for every pair of videos both rated (within the same content, or across contents when asked) exactly one preference: 1 recorded at the video with the higher rating against the other, or on a tie one half at both (even split) or 1 at one of the two (coin toss); no other entries appear. With a sampling rate below one a pair may also be left out (all are at rate zero), and a coin-tossed pair gives 1 at one of the two. '
 'The source dataset is left unchanged.',
 ['inputs', 'configurations'], 'all datasets, pair types and tie rules',
 'Tests look at totals for one dataset.',
 [DR], [('conversion', 'RawDatasetReader.to_pc_dataset')])

prop('C19', 'The paired-comparison matrix records each vote and its complement',
 'Reading paired comparisons gives, for every recorded vote v of an observer for video i against video j, the entry v at (i, j, observer) and 1-v at (j, i, observer), and missing everywhere nothing was recorded; observers are numbered by sorted name and votes other than 0, 0.5 and 1 are refused.',
 ['inputs'], 'all paired-comparison datasets in which each pair and observer is recorded consistently',
 'Tests compare sums of one fixed matrix.',
 [DR], [('matrix', 'PairedCompDatasetReader.opinion_score_3darray, _get_list_observers')])

prop('C20', 'Bradley-Terry estimates follow the fixed-point / Newton iteration',
 'The Bradley-Terry maximum-likelihood solver starts from equal strengths and repeats p_i <- (wins of i)/(sum over j of comparisons_ij/(p_i+p_j)) normalised to sum one until the change has norm at most 1e-8, and reports log strengths, the covariance given by the pseudo-inverse of the negated curvature matrix bordered by ones, its square-rooted diagonal as errors (scaled by 1/p for the log strengths) and 1.95996 times them as 95% intervals; the Newton-Raphson variant repeats Newton steps on the log-likelihood with the last video fixed at zero until the step is at most 1e-8.',
 ['inputs', 'histories'], 'all win matrices and iteration histories',
 'Tests compare converged values on two fixed datasets.',
 [PC], [('BT MLE', 'BradleyTerryMlePairedCompSubjectiveModel.resolve_model'), ('BT NR', 'BradleyTerryNewtonRaphsonPairedCompSubjectiveModel._run_modeling')])

prop('C21', 'The Thurstone objective is the negative log-likelihood of the votes',
 'The Thurstone model minimises minus the sum over ordered pairs (i,j) of wins_ij*log(Phi(v_i-v_j)+eps) + wins_ji*log(Phi(v_j-v_i)+eps), eps = 1e-8/videos, starting from zero, and reports the minimiser; errors are the square roots of the diagonal of the pseudo-inverse of the negated curvature matrix bordered by ones, and 95% intervals 1.95996 times them; on request score and error are z-scored consistently.',
 ['inputs'], 'all win matrices and score vectors',
 'Tests compare converged values on fixed datasets.',
 [PC], [('objective', 'ThurstoneMlePairedCompSubjectiveModel.neg_log_likelihood_function'), ('solver', 'ThurstoneMlePairedCompSubjectiveModel.resolve_model, _run_modeling')])

prop('C22', 'Performance metrics compare each prediction with its own ground truth',
 'RMSE is the square root of the mean squared difference between each prediction and its ground truth, and PCC, SRCC and KENDALL are the Pearson, Spearman and Kendall coefficients of the paired values; ground truths given as several raw scores are first aggregated (mean unless another method is given); with mapping enabled each prediction is first replaced by its value under the logistic curve fitted by least squares to the ground truth range widened by 0.1 at both ends; lists of different length are refused.',
 ['inputs', 'configurations'], 'all pairs of equally long score lists',
 'Tests use one pair of short lists per metric.',
 ['sureal/perf_metric.py'], [('metrics', '_evaluate of the PerfMetric subclasses'), ('aggregation', 'AggrScorePerfMetric._preprocess, PerfMetric.evaluate')])

prop('C23', 'A dataset written to file reads back as the same dataset',
 'Writing a dataset to a file and importing that file gives back every public field, reference video and distorted video with equal values, whatever the fields, nesting, names and votes; nothing is dropped, duplicated or reordered.',
 ['inputs'], 'all datasets of finite numbers, strings, lists, tuples and dictionaries',
 'Tests round-trip a few fixed datasets.',
 [DR, 'sureal/tools/misc.py'], [('writer', 'DatasetReader.write_out_dataset'), ('importer', 'tools.misc.import_python_file')])

prop('C24', 'Simulated readers alter only the votes they are asked to alter',
 'A reader that selects observers (or videos, by asset id) yields exactly the votes of the selected ones in the order given; one that simulates missing votes leaves every vote either unchanged or missing (all unchanged at probability 0, all missing at 1); one that corrupts observers changes no vote of any other observer and, for flip, min, mid, max and constant, gives the selected ones max+min-vote, min, (min+max)/2, max or one value within [min,max]; shuffling permutes the selected observer\'s votes among the videos; when a probability is given each video of a selected observer is either altered so or left alone; one that corrupts data leaves each vote unchanged or replaces it by a value between 1 and the reference score.',
 ['inputs', 'configurations'], 'all datasets, selections, probabilities and random draws',
 'Tests check averages with one seed.',
 [DR], [('selection', 'SelectSubjectRawDatasetReader, SelectDisVideoRawDatasetReader'), ('missing', 'MissingDataRawDatasetReader'), ('corruption', 'CorruptSubjectRawDatasetReader, CorruptDataRawDatasetReader')])

prop('C25', 'Synthetic votes follow the stated generative model',
 'A synthetic vote is the video quality plus observer bias plus content bias of the video\'s content, plus independent standard draws scaled by the observer inconsistency, the content ambiguity and, when given, the video ambiguity (logistic draws are scaled to the same deviation); the generated dataset carries exactly these votes.',
 ['inputs'], 'all parameter vectors, content assignments and random draws',
 'Tests use one seed and one dataset.',
 [DR], [('generator', 'SyntheticRawDatasetReader.opinion_score_3darray, SyntheticLogisticRawDatasetReader.opinion_score_3darray'), ('dataset', 'MockedRawDatasetReader.to_dataset')])

prop('C26', 'Weighted means and probability densities equal their definitions',
 'The weighted mean along either axis of a matrix with missing entries is the sum of weight*entry over the sum of weights of the entries present; the Gaussian and logistic densities and the density of the sum of two uniform variables equal their textbook formulas at every point, location and scale; the histogram counts each finite value once.',
 ['inputs'], 'all matrices, weights, points, locations and positive scales',
 'Doctests evaluate the uniform convolution at location zero only.',
 ['sureal/tools/stats.py', 'sureal/tools/misc.py'], [('densities', 'vectorized_gaussian, vectorized_logistic, convolution_of_two_uniforms'), ('weighted mean', 'weighed_nanmean_2d'), ('histogram', 'histc')])

prop('C27', 'The standalone reference scripts compute the recommended P.910 result',
 'For the same votes the standalone P.910, P.913 and BT.500 demonstration programs perform the same iteration, stopping rule and zero-mean shift as the library\'s recommended P.910 solver and report the same quality, standard error, bias and inconsistency.',
 ['inputs', 'histories'], 'all vote matrices, iteration histories',
 'The scripts have one test on one CSV file.',
 ['itut_p910_demo/demo_p910.py', 'itut_p913_demo/demo.py', 'itur_bt500_demo/demo_bt500.py'], [('solver', 'run_alternating_projection, weighed_nanmean_2d, get_sos_j')])

prop('C28', 'LIVE-style DMOS, least squares and legacy MLE follow their definitions',
 'The LIVE-style score is the per-video mean of (z+3)*100/6 over the z-scored differential votes; the least-squares model, when every observer voted once on every video, solves vote = quality + bias in the least-squares sense with the first quality tied to its mean opinion score; the legacy maximum-likelihood model performs its damped updates of bias, inconsistency and quality in that order until the quality change is below 1e-8 or 5000 iterations, then shifts bias to zero mean unless disabled.',
 ['inputs', 'histories'], 'all vote matrices (one repetition for the last two)',
 'Tests compare converged values on fixed datasets.',
 [SM], [('LIVE', 'LiveDmosModel._run_modeling'), ('least squares', 'LeastSquaresModel._run_modeling'), ('legacy', 'LegacyMaximumLikelihoodEstimationModel._run_modeling')])

prop('C29', 'Loading with a content or asset filter keeps exactly the matching videos',
 'Building a model from a dataset file with content and/or asset filters keeps exactly the distorted videos whose content and asset are listed, in file order and unmodified, and keeps everything without a filter; datasets whose videos refer to an unknown content, or whose list votes differ in length, are refused.',
 ['inputs', 'configurations'], 'all datasets and filters',
 'Tests use no filter or one fixed filter.',
 [SM, DR], [('filter', 'SubjectiveModel._import_dataset_and_filter, from_dataset_file'), ('validation', 'DatasetReader._assert_dataset, RawDatasetReader._assert_dataset')])

prop('C30', 'Command-line option lookup and cached results return the right value',
 'Looking up a command-line option returns the argument right after its first occurrence within the given range and nothing when absent, and an option is reported present exactly when it occurs there; a memoised or disk-cached function returns for each argument list the value the function returned for those arguments, computing it once (hashable arguments with distinct printed forms; for the disk caches, results that JSON represents exactly).',
 ['inputs', 'histories'], 'all argument vectors; all call histories',
 'Doctests use one argument vector; the caches have a single test.',
 ['sureal/tools/misc.py', 'sureal/tools/decorator.py'], [('options', 'get_cmd_option, cmd_option_exists'), ('caches', 'memoized, persist_to_dir, persist_to_file')])

prop('C31', 'Model runs and reports keep each result with its own model and video',
 'Running several models on a dataset file (Python or JSON) returns one result per model, in the order given, each being what that model returns for that dataset with the options given, plus the video paths in dataset order and, when votes and reconstructions are reported, their RMSE, Pearson and Spearman coefficients over exactly the cells where both are present; the report (also what the command line prints or writes) has one entry per video, per observer and per content, in order and under its own name, holding for each model exactly that model\'s own values for it (scores, errors, both interval sides) and each model\'s AIC and BIC; interval coverage is the percentage of true values within [estimate - lower, estimate + upper].',
 ['inputs', 'configurations'], 'all datasets, model lists and result sets',
 'Tests look at two or three fixed entries of one dataset.',
 ['sureal/routine.py', 'sureal/__main__.py', 'sureal/cmd_deprecated.py', 'sureal/tools/misc.py'], [('run', 'run_subjective_models'), ('report', 'format_output_of_run_subjective_models'), ('coverage', 'get_ci_percentage'), ('command line', '__main__.main, cmd_deprecated.main'), ('import', 'import_json_file')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
