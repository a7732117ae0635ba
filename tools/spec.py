"""Single source for properties.jsonl and MANIFEST.json (run tools/mkspec.py)."""
LIB = "visqol-rs/src/"
CLI = "visqol/src/"
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, technique="", note="", reason=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, technique=technique, note=note, reason=reason))

P("C01", "MOS-LQO always lies in 1..5",
  "Whatever the two signals, the mode and the configuration, a comparison that succeeds never reports a MOS-LQO below 1.0 or above 5.0.",
  ["inputs", "configurations"], "all pairs of audio files, both modes, scaled and unscaled mapping, any SVR model file",
  "The suite checks one SVR prediction and no reported MOS at all; the bound quantifies over every feature vector.",
  [LIB+"visqol.rs", LIB+"speech_similarity_to_quality_mapper.rs", LIB+"svr_similarity_to_quality_mapper.rs"],
  [("clamp in each quality mapper", LIB+"speech_similarity_to_quality_mapper.rs"), ("extreme-dissimilarity override", LIB+"visqol.rs")])
P("C02", "MOS is the mapper's verdict, or exactly 1.0 for alien signals",
  "A comparison whose reported mean similarity (vnsim) is below 0.15 reports a MOS-LQO of exactly 1.0; every other comparison reports, unmodified, the quality mapper's prediction for the per-band similarities it also reports (fvnsim). The reported vnsim is the arithmetic mean of the reported fvnsim.",
  ["inputs"], "all successful comparisons",
  "No test in the built suite runs a comparison and looks at its scores; the threshold is never sampled.",
  [LIB+"visqol.rs"], [("alter_for_similarity_extremes, predict_mos", LIB+"visqol.rs")])
P("C03", "A reused manager has no memory of earlier comparisons",
  "The result of a comparison depends only on the two inputs and the manager's configuration: running any other comparisons on the same manager first, successful or failed, does not change it.",
  ["histories", "inputs"], "all histories of comparisons on one manager",
  "Tests never reuse a manager; histories are unbounded.",
  [LIB+"visqol_manager.rs", LIB+"gammatone_filterbank.rs", LIB+"gammatone_spectrogram_builder.rs"],
  [("filter coefficients and state are overwritten before they are read", LIB+"gammatone_spectrogram_builder.rs")])
P("C04", "Every analysis frame is filtered from rest",
  "Each column of a spectrogram depends only on the samples of its own analysis frame (and the filter design), never on earlier frames: all four filter stages of all bands start each frame from zero state.",
  ["inputs"], "all signals, all frames, all bands",
  "The one spectrogram test looks at the first element of the first frame only.",
  [LIB+"gammatone_spectrogram_builder.rs", LIB+"gammatone_filterbank.rs"],
  [("reset_filter_conditions before apply_filter in the frame loop", LIB+"gammatone_spectrogram_builder.rs")])
P("C05", "Scoring is deterministic and side-effect free",
  "A comparison reads nothing but the two audio files (and, at construction, the model file): no clock, randomness, environment, thread scheduling, hash order or process-global mutable state influences it. The library never writes, creates or deletes files, starts processes or threads, opens sockets, writes to stdout/stderr or ends the process.",
  ["inputs", "schedules", "configurations"], "all calls into the library",
  "Tests run once per input in one environment; absence of an effect is not observable from samples.",
  [LIB+"lib.rs", LIB+"visqol_manager.rs", LIB+"wav_reader.rs", LIB+"support_vector_regression_model.rs"],
  [("WavReader::open and read_to_string are the only I/O", LIB+"wav_reader.rs")])
P("C06", "Files with different sample rates are always refused",
  "Comparing two files whose sample rates differ always fails with the different-sample-rates error, which carries the reference's rate as the reference rate and the degraded file's rate as the degraded rate; no score is ever produced.",
  ["inputs"], "all pairs of files with differing rates",
  "No test compares files with different rates.",
  [LIB+"visqol_manager.rs", LIB+"visqol_error.rs"], [("validate_input_audio before compute_results", LIB+"visqol_manager.rs")])
P("C07", "Only 16-bit WAV is accepted and its metadata is kept",
  "Loading succeeds only for files with 16 bits per sample; any other width is refused with an error carrying the width found. A loaded signal carries the sample rate of the file's header, and its samples are decoded with the channel count of that header.",
  ["inputs"], "all wav headers",
  "Two other widths are sampled with should_panic tests, which any panic satisfies.",
  [LIB+"wav_reader.rs", LIB+"audio_utils.rs"], [("bits_per_sample guard in WavFile::open", LIB+"wav_reader.rs")])
P("C08", "Failures surface as errors, never dropped, never a panic",
  "Whenever opening or decoding an audio file fails (missing, truncated or malformed), or a stage of the pipeline reports an error, the comparison returns an error to the caller: the failure is not turned into a panic, a default value, a shortened signal or a successful result.",
  ["inputs", "fault_sequences"], "all I/O and decode failures at any sample, all stage failures",
  "Tests only load well-formed files or accept any panic.",
  [LIB+"wav_reader.rs", LIB+"audio_utils.rs", LIB+"visqol_manager.rs", LIB+"visqol.rs", LIB+"comparison_patches_selector.rs", LIB+"gammatone_spectrogram_builder.rs"],
  [("? propagation of hound and VisqolError results", LIB+"visqol.rs")])
P("C09", "Signals too short to score are refused, not miscounted",
  "However short or mismatched in length the signals are: a signal shorter than one analysis window, and a reference with fewer frames than its patches need, is refused, exactly then, with an error that states the actual and the required length; a comparison in which the degraded signal supports none of the patches is refused too; and cutting a signal into frames, laying out the reference's patches, judging voice activity and counting the patches the degraded signal supports never subtracts below zero, divides by zero or slices out of range.",
  ["inputs"], "all signal lengths, window sizes, frame counts and patch starts, in both modes",
  "Tests use files of several seconds only.",
  [LIB+"gammatone_spectrogram_builder.rs", LIB+"vad_patch_creator.rs", LIB+"image_patch_creator.rs", LIB+"comparison_patches_selector.rs"],
  [("length guards in front of unsigned subtractions and slices", LIB+"image_patch_creator.rs")])
P("C10", "The degraded signal is compared at the reference's level",
  "Before features are computed the degraded signal is multiplied by exactly the one constant that makes its sound pressure level (mean square) equal the reference's; hence a constant gain on the degraded file cancels. The reference signal itself is never rescaled or otherwise modified.",
  ["inputs"], "all signal pairs with non-zero energy",
  "No test calls the level matching or looks at scaled signals.",
  [LIB+"audio_utils.rs", LIB+"visqol.rs"], [("scale_to_match_sound_pressure_level", LIB+"audio_utils.rs")])
P("C11", "Spectrograms are always conditioned as a pair before comparison",
  "Every pair of spectrograms that is compared, over whole signals and over realigned patches alike, has first been converted to decibels, raised to the absolute floor of -45 dB, raised per frame to a common floor 45 dB below the louder signal's peak in that frame, and shifted by one and the same constant, the lower of the two minima, in that order; so compared values are never negative.",
  ["inputs"], "all signal pairs, all patches",
  "Tests cover the three helpers on one vector each and never the composition.",
  [LIB+"audio_utils.rs", LIB+"visqol.rs", LIB+"comparison_patches_selector.rs", LIB+"spectrogram.rs"],
  [("prepare_spectrograms_for_comparison", LIB+"audio_utils.rs")])
P("C12", "Reference and degraded roles are never swapped or mixed",
  "In every comparison of patches one side stems from the reference signal and the other from the level-matched degraded signal; reported band energies stem from the degraded side; reported reference times locate reference audio and degraded times degraded audio.",
  ["inputs"], "all comparisons and all patches",
  "NSIM is symmetric, so a swap leaves the sampled similarity scores unchanged.",
  [LIB+"visqol.rs", LIB+"comparison_patches_selector.rs", LIB+"neurogram_similiarity_index_measure.rs", LIB+"alignment.rs", LIB+"visqol_manager.rs"],
  [("argument order through the pipeline", LIB+"visqol.rs")])
P("C13", "Similarity measures never divide by zero or root a negative",
  "For any finite spectrogram patches of at least two frames, the patch similarity measure divides only by strictly positive quantities and takes square roots only of non-negative ones, and the reported per-band standard deviations are square roots of non-negative numbers; so no NaN or infinity arises from silence or constant patches.",
  ["inputs"], "all finite patch contents",
  "Tests use one generic patch; degenerate (constant, silent) patches are never sampled.",
  [LIB+"neurogram_similiarity_index_measure.rs", LIB+"visqol.rs"],
  [("structure denominator guard, c1 and c3 constants, variance guard", LIB+"neurogram_similiarity_index_measure.rs")])
P("C14", "Decibel conversion never sees zero or a negative",
  "Converting a spectrogram to decibels takes logarithms of strictly positive values only, for any finite spectrogram including digital silence, so every converted value is finite.",
  ["inputs"], "all finite spectrogram values",
  "One vector with two zeros is tested; the guard quantifies over all values.",
  [LIB+"spectrogram.rs"], [("zero guard and abs in convert_to_db", LIB+"spectrogram.rs")])
P("C15", "FFT sizes are powers of two that fit the data",
  "For every positive length the FFT size chosen is a power of two, at least the length and at least the minimum size, and cross-correlation pads both signals to a common length of at least twice the longer one minus one.",
  ["inputs"], "all lengths up to 2^32",
  "Eight lengths are sampled; the rule depends on every bit of the length.",
  [LIB+"math_utils.rs", LIB+"fft_manager.rs", LIB+"xcorr.rs"], [("next_pow_two bit smearing", LIB+"math_utils.rs")])
P("C16", "Inverse transforms are normalised exactly once",
  "Every inverse FFT result is multiplied exactly once by the reciprocal of the size the transform was planned with before it is used, on every path, whether or not the buffer had to be padded; forward transforms are not scaled.",
  ["inputs"], "all buffers, padded or not",
  "Round trips are tested for one length per branch with loose tolerance.",
  [LIB+"fft_manager.rs", LIB+"fast_fourier_transform.rs"], [("apply_reverse_fft_scaling after time_from_freq_domain", LIB+"fast_fourier_transform.rs")])
P("C17", "Filter design and filter use agree on every coefficient",
  "Each coefficient the filter design computes for a band is the one the filterbank applies in that role: the four numerators use the common leading and trailing coefficient and the middle coefficient of their own stage, the gain divides exactly the first stage's numerator once, and the denominator is shared by all stages.",
  ["inputs"], "all sample rates and band counts",
  "One element of one spectrogram and three filter outputs (tolerance 1e-4 against values of 1e-9) are compared.",
  [LIB+"equivalent_rectangular_bandwidth.rs", LIB+"gammatone_filterbank.rs", LIB+"signal_filter.rs"],
  [("column layout written by make_filters and read by set_filter_coefficients", LIB+"gammatone_filterbank.rs")])
P("C18", "The gammatone cascade keeps its stages and bands apart",
  "Each band's output is the input passed through that band's four stages in sequence, each stage reading and writing back only its own state for that band and feeding its output to the next; the row of the output belongs to the same band.",
  ["inputs"], "all bands, all signals",
  "The filterbank test's tolerance exceeds the values it compares.",
  [LIB+"gammatone_filterbank.rs", LIB+"signal_filter.rs"], [("apply_filter", LIB+"gammatone_filterbank.rs")])
P("C19", "Bands and centre frequencies are listed in the same order",
  "In every result entry i of the per-band vectors belongs to entry i of the centre frequencies, and centre frequencies ascend: filter rows and centre frequencies, designed together from high to low, are both reversed exactly once.",
  ["inputs", "configurations"], "both modes, all sample rates",
  "No test inspects the order of bands in a spectrogram.",
  [LIB+"gammatone_spectrogram_builder.rs", LIB+"equivalent_rectangular_bandwidth.rs"], [("invert_axis and sort in build", LIB+"gammatone_spectrogram_builder.rs")])
P("C20", "Voice activity is judged per frame and speech is never dropped",
  "Over two or more frames the voice activity detector gives exactly one verdict, 0 or 1, per full frame of one hop: a frame is silent if and only if it and the two frames before it all have an RMS below 5000 on the 16-bit scale (so a frame that reaches 5000, and the first two frames, are always active). All whole patches of the reference are judged, and a patch is used if and only if at least one of its frames is active.",
  ["inputs"], "all frame sequences",
  "Three short sequences are sampled.",
  [LIB+"rms_vad.rs", LIB+"vad_patch_creator.rs"], [("get_vad_results, check_previous_chunks_for_silence", LIB+"rms_vad.rs")])
P("C21", "Patch search stays inside its window and keeps time order",
  "The search for a reference patch's counterpart compares exactly the degraded positions inside the degraded spectrogram and within the search radius (in patch widths) of the patch's own position. A patch is chained to the best strictly earlier position of the previous patch inside that patch's own window, unless leaving it unmatched scores no less; the last patch is placed at its best position and the others follow the chain.",
  ["inputs", "configurations"], "all spectrogram sizes, patch positions and radii",
  "Small synthetic matrices with one radius each are sampled.",
  [LIB+"comparison_patches_selector.rs"], [("loop bounds of find_most_optimal_deg_patch", LIB+"comparison_patches_selector.rs")])
P("C22", "Unmatched patches count as zero similarity",
  "A reference patch for which no counterpart was found is reported with similarity 0, all-zero band similarities and degraded times 0, and is left untouched by fine alignment; every patch, matched or not, carries its own reference start time and an end one patch duration later. A matched patch is the measurement of its own reference patch against the degraded spectrogram from the matched position on (zero-padded at the end), and carries that position as its degraded time.",
  ["inputs"], "all comparisons with lost patches",
  "No sampled degraded signal loses a patch.",
  [LIB+"comparison_patches_selector.rs"], [("backtrace self-reference marks a lost patch", LIB+"comparison_patches_selector.rs")])
P("C23", "Fine alignment never lowers a patch's similarity",
  "The similarity reported for a patch after fine alignment is the better of the coarse and the realigned one: the realigned measurement replaces the coarse record as a whole or not at all; then the later of the two signals starts later by the lag found, and the reported end times equal start plus the duration of the audio compared.",
  ["inputs"], "all patches",
  "The suite never runs fine alignment with an assertion.",
  [LIB+"comparison_patches_selector.rs"], [("max selection in finely_align_and_recreate_patches", LIB+"comparison_patches_selector.rs")])
P("C24", "Each mode runs with its own patching, mapping and options",
  "Wideband mode selects voice-active patches of 20 frames and the polynomial speech mapping, rescaled to 5 unless the unscaled mapping is requested; fullband mode tiles the spectrogram in patches of 30 frames and maps with the model file given. Both analyse windows of 80 ms (rounded to samples) every quarter window, and search within the radius configured.",
  ["configurations"], "all variants and radii",
  "The managers are constructed in a doc test only; nothing checks which parts they got.",
  [LIB+"visqol_manager.rs", LIB+"constants.rs"], [("match on Variant in VisqolManager::new", LIB+"visqol_manager.rs")])
P("C25", "The speech mapping is monotone and its optimum is pinned",
  "In wideband mode a higher mean similarity never yields a lower MOS-LQO, the rescaled mapping is never below the unscaled one, a perfect similarity of 1.0 in all bands maps to 5.0 (within 0.001) rescaled and to a value strictly between 4 and 5 unscaled.",
  ["inputs", "configurations"], "all similarity vectors",
  "The mapper has no test.",
  [LIB+"speech_similarity_to_quality_mapper.rs", LIB+"math_utils.rs"], [("exponential fit, scale, clamp", LIB+"speech_similarity_to_quality_mapper.rs")])
P("C26", "Down-mixing averages all channels of a frame",
  "A loaded mono sample is the sum of all interleaved channel samples of its frame divided by the channel count and by the 16-bit full scale 32767, for every channel count.",
  ["inputs"], "all channel counts and sample values",
  "One stereo file is sampled with tolerance 0.01.",
  [LIB+"audio_utils.rs", LIB+"math_utils.rs"], [("extract_multichannel, to_mono_matrix, normalize_int16_to_double", LIB+"audio_utils.rs")])
P("C27", "Every compared pair reaches every requested output, in order",
  "For each pair in the request, in input order, the command line tool prints a score, adds a row with that pair's two paths and score to the results CSV when one is requested, and appends that pair's full record to the debug JSON file when one is requested, without discarding records of other pairs.",
  ["inputs", "configurations"], "all batches and output options",
  "The CLI's only test reads a two-line batch file.",
  [CLI+"output_utils.rs", CLI+"main.rs"], [("loops over results in write_results", CLI+"output_utils.rs")])
P("C28", "Batch and single inputs keep pairs intact and in order",
  "The pairs compared are exactly those requested, in order: a single pair from the two file options, or one pair per record of the batch CSV with its reference and degraded columns in their roles; an unreadable batch file or record is reported, never skipped.",
  ["inputs"], "all batch files and option combinations",
  "One batch file is sampled.",
  [CLI+"command_line_utils.rs", CLI+"path_pair.rs", CLI+"main.rs"], [("build_file_pair_paths, read_files_to_compare, run", CLI+"command_line_utils.rs")])
P("C29", "Every command line option has its documented effect",
  "Each option the tool declares is consumed: mode, unscaled mapping, model path and search radius reach the comparison they configure, output options reach their writers, and options that refer to one another (required together, mutually exclusive) refer to options that exist.",
  ["configurations"], "all option combinations",
  "No test parses a command line.",
  [CLI+"command_line_utils.rs", CLI+"main.rs", CLI+"output_utils.rs"], [("clap attributes and main", CLI+"main.rs")])
P("C30", "The tool exits non-zero when anything failed",
  "If reading the request, any comparison, or writing any requested output fails, the tool ends with a non-zero exit status; it never reports success after dropping an error.",
  ["fault_sequences", "inputs"], "all failures of inputs, comparisons and output writes",
  "No test runs the tool.",
  [CLI+"main.rs", CLI+"output_utils.rs", CLI+"command_line_utils.rs"], [("? and expect on every Result", CLI+"output_utils.rs")])
P("C31", "No input can cause undefined behaviour",
  "The workspace's own code contains no unsafe operations, so that every out-of-range access is a defined panic and never memory corruption.",
  ["inputs"], "all inputs and callers",
  "Undefined behaviour need not show in any test.",
  [LIB+"lib.rs", CLI+"main.rs"], [("safe Rust throughout", LIB+"lib.rs")])
P("C32", "The debug record is complete",
  "The serialised record of a comparison contains every field of the result and of each of its patches, under its own name and with its own value.",
  ["inputs"], "all results",
  "No test serialises a result.",
  [LIB+"similarity_result.rs", LIB+"patch_similarity_comparator.rs"], [("derived Serialize", LIB+"similarity_result.rs")])
P("C33", "Every comparison terminates",
  "Every loop on the comparison path either consumes a finite sequence or strictly advances a counter towards its bound on every way round, so a comparison of finite signals always ends.",
  ["inputs"], "all loops, all inputs",
  "A test that terminates says nothing about other inputs.",
  [LIB+"comparison_patches_selector.rs"], [("counter updates in the search loops", LIB+"comparison_patches_selector.rs")])

P("C35", "Patch similarity is NSIM: symmetric, and 1 for equal patches",
  "Each element of the similarity map is NSIM's intensity times structure term, computed from means under one symmetric normalised window with constants (0.01 L)^2 and (0.03 L)^2/2 for intensity range L and a structure denominator that falls back to the constant for a negative variance product; so it is unchanged when the patches are swapped and 1 for equal patches. A patch's band similarities and deviations are mean and sample deviation of its map's rows, its overall similarity is their mean, its energies are row means of the degraded patch.",
  ["inputs"], "all patch pairs",
  "One 3x1 patch pair is sampled with a tolerance of 1e-4.",
  [LIB+"neurogram_similiarity_index_measure.rs", LIB+"convolution_2d.rs"], [("measure_patch_similarity", LIB+"neurogram_similiarity_index_measure.rs")])
P("C36", "Patches are contiguous and lie inside the spectrogram",
  "A patch holds all bands of the consecutive frames from its start index on. Starts lie on a grid of one patch width whose first cell begins at half a patch minus one; in fullband mode every cell that fits is used (at most a cell ending at the very last frame may be left out), at least one, and none reaches beyond the spectrogram; a spectrogram without room for one patch is refused.",
  ["inputs"], "all spectrogram lengths",
  "Two spectrogram lengths are sampled.",
  [LIB+"image_patch_creator.rs", LIB+"vad_patch_creator.rs"], [("create_ref_patch_indices, create_patches_from_indices", LIB+"image_patch_creator.rs")])
P("C38", "The model sees every band's similarity, in order",
  "In fullband mode the model predicts once per comparison, from features of which entry i is the similarity of band i for every band, and the value reported is the label of that prediction, limited to 1..5 and otherwise unchanged.",
  ["inputs"], "all similarity vectors and models",
  "One prediction of the model wrapper is sampled; the mapper around it is not tested.",
  [LIB+"svr_similarity_to_quality_mapper.rs", LIB+"support_vector_regression_model.rs"], [("predict", LIB+"support_vector_regression_model.rs")])
P("C39", "Every reported patch weighs the same in every band score",
  "Over the patches a comparison reports, all of them and no others, each entry of fvnsim and fvdegenergy is the mean of the patches' band similarities and degraded band energies, and each entry of fstdnsim is the standard deviation pooled over all frames of all patches.",
  ["inputs"], "all lists of patches",
  "No test looks at the per-band vectors of a comparison.",
  [LIB+"visqol.rs"], [("calc_per_patch_mean_freq_band_means, _degraded_energy, _std_devs", LIB+"visqol.rs")])

P("C34", "Global alignment only shifts, by the best lag",
  "The globally aligned degraded signal is the degraded signal shifted as a whole: for a lag of b samples with 0 < |b| <= half the reference's length, b zeros are put in front (b > 0) or the first |b| samples are dropped (b < 0), nothing else changes and the delay reported is b over the sample rate; otherwise the signal is unchanged and the delay is 0. The lag is the one, of all from -(m-1) to m-1 for m the longer length, whose cross-correlation (first spectrum times conjugate of the second) has the largest magnitude. The truncated pair for fine alignment starts both aligned signals at one common sample, makes them equally long and cuts off only leading silence and the tail that one of them lacks.",
  ["inputs"], "all pairs of signals, all lags",
  "Lags of plus and minus 2 on 14 samples are tested for the search; no test runs the alignment itself.",
  [LIB+"alignment.rs", LIB+"xcorr.rs"], [("globally_align, align_and_truncate", LIB+"alignment.rs"), ("calculate_best_lag", LIB+"xcorr.rs")])
P("C37", "Windowed means cover each element's own neighbourhood",
  "Element (i,j) of a valid convolution with a symmetric 3x3 window is the window's weighted sum over the 3x3 neighbourhood of element (i,j), where edge rows and columns are repeated beyond the matrix; the result has the matrix's shape for matrices of every size from 1x1 on, the matrix itself is left as it was, and NSIM's own window is 3x3 and symmetric.",
  ["inputs"], "all matrices of at least one element",
  "One matrix of one size is convolved in the tests.",
  [LIB+"convolution_2d.rs", LIB+"neurogram_similiarity_index_measure.rs"], [("perform_valid_2d_conv_with_boundary, add_matrix_boundary", LIB+"convolution_2d.rs")])
P("C41", "The alignment envelope is the magnitude of the analytic signal",
  "The envelope that alignment correlates has one value per sample: the magnitude of the transform of the mean-free signal, plus the mean. The transform keeps the signal's length and inverts the signal's own spectrum weighted by 1 at zero frequency, 2 at positive and 0 at negative frequencies.",
  ["inputs"], "all signals of at least two samples",
  "The first element of one signal's transform and envelope is compared.",
  [LIB+"envelope.rs"], [("calculate_upper_env, calculate_hilbert", LIB+"envelope.rs")])
P("C40", "Time slices are sample accurate",
  "The segment of a signal from time a to time b, as used for fine alignment, has as many samples as lie between the sample indices of the two times (truncated), sample j is the signal's own sample at the start index + j, and silence stands exactly where the signal has no sample: behind its end, and in front for a negative start.",
  ["inputs"], "all signals, all start and end times with the start not behind the signal",
  "One segment of three seconds of silence is sampled, by its length.",
  [LIB+"comparison_patches_selector.rs"], [("slice", LIB+"comparison_patches_selector.rs")])

# ---- not claimed
P("C50", "Scores conform to the reference implementation",
  "For any pair of files the reported MOS-LQO agrees with that of Google's ViSQOL v3.1 for the same mode within 0.01.",
  ["inputs"], "all file pairs", "The conformance tests of the repository are not built and sample seven files.",
  [LIB+"visqol.rs"], [("whole pipeline", LIB+"visqol.rs")],
  reason="quantifies over numerical results of the whole signal chain against an external program; no static argument in reach bounds them. Structural clauses of it are claimed as C04, C11, C17, C18, C24.")
P("C51", "Global alignment recovers a pure delay",
  "If the degraded file is the reference delayed or advanced by less than half its length, the aligned signals coincide sample by sample where they overlap.",
  ["inputs"], "all signals and delays", "Four 14-sample vectors are tested.",
  [LIB+"alignment.rs", LIB+"xcorr.rs", LIB+"envelope.rs"], [("argmax of envelope cross-correlation", LIB+"xcorr.rs")],
  reason="depends on where the maximum of a cross-correlation of runtime signals lies; not decidable from the shape of the code. The overflow-free padding clause is claimed in C15.")
P("C52", "A signal compared with itself scores best",
  "Comparing any voiced file with itself yields a similarity of 1 in every band and the maximal MOS-LQO of the mode.",
  ["inputs"], "all files", "Not tested in the built suite.",
  [LIB+"neurogram_similiarity_index_measure.rs", LIB+"visqol.rs"], [("NSIM equals 1 for equal patches", LIB+"neurogram_similiarity_index_measure.rs")],
  reason="needs float-exact reasoning over runtime data (alignment lag 0, NSIM quotient exactly 1); value-level, not structural.")
P("C53", "SVR predictions equal libsvm's",
  "In fullband mode the prediction equals that of libsvm for the same model file and features within 1e-5.",
  ["inputs", "configurations"], "all model files and features", "One prediction is sampled.",
  [LIB+"support_vector_regression_model.rs"], [("ffsvm", LIB+"support_vector_regression_model.rs")],
  reason="the computation is inside the third-party crate ffsvm; agreement is numerical.")
P("C54", "A comparison takes time near-linear in the signal length",
  "The time of a comparison grows at most with n log n of the signal length for a fixed search radius.",
  ["inputs"], "all lengths", "Tests have no time bound.",
  [LIB+"comparison_patches_selector.rs", LIB+"fft_manager.rs"], [("bounded search window", LIB+"comparison_patches_selector.rs")],
  reason="timing property over runtime lengths; termination is claimed as C33.")
