"""Third set of behaviour-preserving rewrites (see mutants_b2.py): the rest of the files"""
from mutants import m, S, CL, SEL, VQ, NS, AU, MG, AL, XC, SP
from mutants_b2 import *

# ---- visqol.rs
m("b3-vq-average-helper", "", (VQ, """    let mut fvnsim = Array1::<f64>::zeros(sim_match_info[0].freq_band_means.len());
    for patch in sim_match_info {
        for (index, band) in fvnsim.iter_mut().enumerate() {
            *band += patch.freq_band_means[index];
        }
    }
    fvnsim / sim_match_info.len() as f64
}
""", """    average_over_patches(sim_match_info, |patch| &patch.freq_band_means)
}

/// Averages a per-band quantity over all patches
fn average_over_patches<F: Fn(&PatchSimilarityResult) -> &Vec<f64>>(
    sim_match_info: &[PatchSimilarityResult],
    per_band: F,
) -> Array1<f64> {
    let mut total = Array1::<f64>::zeros(sim_match_info[0].freq_band_means.len());
    for patch in sim_match_info {
        let values = per_band(patch);
        for (index, band) in total.iter_mut().enumerate() {
            *band += values[index];
        }
    }
    total / sim_match_info.len() as f64
}
"""), (VQ, """    let mut total_fvdegenergy = Array1::<f64>::zeros(sim_match_info[0].freq_band_means.len());
    for patch in sim_match_info {
        for (index, band) in total_fvdegenergy.iter_mut().enumerate() {
            *band += patch.freq_band_deg_energy[index];
        }
    }
    total_fvdegenergy / sim_match_info.len() as f64
""", """    average_over_patches(sim_match_info, |patch| &patch.freq_band_deg_energy)
"""))
m("b3-vq-realign-direct", "", (VQ, """    let realign_result = selector.finely_align_and_recreate_patches(
        &mut sim_match_info,
        ref_signal,
        &deg_signal_scaled,
        spect_builder,
        window,
    )?;
    sim_match_info = realign_result;
""", """    let sim_match_info = selector.finely_align_and_recreate_patches(
        &mut sim_match_info,
        ref_signal,
        &deg_signal_scaled,
        spect_builder,
        window,
    )?;
"""))
m("b3-vq-order-stats", "", (VQ, """    let fvnsim = calc_per_patch_mean_freq_band_means(&sim_match_info);
    let fstdnsim = calc_per_patch_mean_freq_band_std_devs(&sim_match_info, frame_duration);
    let fvdegenergy = calc_per_patch_mean_freq_band_degraded_energy(&sim_match_info);
""", """    let fvdegenergy = calc_per_patch_mean_freq_band_degraded_energy(&sim_match_info);
    let fstdnsim = calc_per_patch_mean_freq_band_std_devs(&sim_match_info, frame_duration);
    let fvnsim = calc_per_patch_mean_freq_band_means(&sim_match_info);
"""))
m("b3-vq-extremes-inline", "", (VQ, """    moslqo = alter_for_similarity_extremes(vnsim, moslqo);
    Ok(""", """    if vnsim < MINIMUM_SIMILARITY {
        moslqo = 1.0;
    }
    Ok("""), (VQ, """/// Clamps the MOS to 1.0 in case the files are too dissimilar
fn alter_for_similarity_extremes(vnsim: f64, moslqo: f64) -> f64 {
    if vnsim < 0.15 {
        1.0
    } else {
        moslqo
    }
}
""", """/// Similarity below which the MOS is clamped to 1.0
const MINIMUM_SIMILARITY: f64 = 0.15;
"""))
m("b3-vq-struct", "", (VQ, """    Ok(SimilarityResult::new(
        moslqo,
        vnsim,
        fvnsim.to_vec(),
        fstdnsim.to_vec(),
        fvdegenergy.to_vec(),
        ref_spectrogram.center_freq_bands,
        sim_match_info,
    ))""", """    let result = SimilarityResult {
        patch_sims: sim_match_info,
        center_freq_bands: ref_spectrogram.center_freq_bands,
        fvdegenergy: fvdegenergy.to_vec(),
        fstdnsim: fstdnsim.to_vec(),
        fvnsim: fvnsim.to_vec(),
        vnsim,
        moslqo,
    };
    Ok(result)"""))
m("b3-vq-window-dur", "", (VQ, """    let frame_duration = calculate_frame_duration(
        (window.size as f64 * window.overlap).trunc(),
        ref_signal.sample_rate as usize,
    );

    let mut ref_patches""", """    let hop = (window.overlap * window.size as f64) as usize as f64;
    let frame_duration = hop / f64::from(ref_signal.sample_rate);

    let mut ref_patches"""), (VQ, """
/// Calculates fraeme duration in seonds
fn calculate_frame_duration(frame_size: f64, sample_rate: usize) -> f64 {
    frame_size / sample_rate as f64
}""", ""))
m("b3-vq-vnsim-manual", "", (VQ, """    let vnsim = fvnsim.mean().expect("Failed to compute nsim mean");
""", """    let vnsim = fvnsim.sum() / fvnsim.len() as f64;
"""))
m("b3-vq-var-order", "", (VQ, """            *contributing_element += (frame_count - 1) as f64 * dev * dev;
            *contributing_element += frame_count as f64 * mean * mean;
""", """            *contributing_element +=
                frame_count as f64 * mean.powi(2) + (frame_count as f64 - 1.0) * dev.powi(2);
"""))
m("b3-vq-search-let", "", (VQ, """    let mut sim_match_info = selector.find_most_optimal_deg_patches(
""", """    let search_radius = search_window.min(i32::MAX as usize) as i32;
    let mut sim_match_info = selector.find_most_optimal_deg_patches(
"""), (VQ, "        search_window.min(i32::MAX as usize) as i32,\n", "        search_radius,\n"))
m("b3-vq-search-tryfrom", "", (VQ, "        search_window.min(i32::MAX as usize) as i32,\n", "        std::convert::TryFrom::try_from(search_window).unwrap_or(i32::MAX),\n"))
m("b3-vq-stage-helper", "", (VQ, """    let mut ref_spectrogram = spect_builder.build(ref_signal, window)?;
    let mut deg_spectrogram = spect_builder.build(&deg_signal_scaled, window)?;

    audio_utils::prepare_spectrograms_for_comparison(&mut ref_spectrogram, &mut deg_spectrogram);
""", """    let (ref_spectrogram, deg_spectrogram) =
        build_comparable_spectrograms(ref_signal, &deg_signal_scaled, spect_builder, window)?;
"""), (VQ, "/// Computes prediction with", """/// Builds both spectrograms and brings them to a common floor
fn build_comparable_spectrograms<const NUM_BANDS: usize>(
    reference: &AudioSignal,
    degraded: &AudioSignal,
    spect_builder: &mut GammatoneSpectrogramBuilder<NUM_BANDS>,
    window: &AnalysisWindow,
) -> Result<(crate::spectrogram::Spectrogram, crate::spectrogram::Spectrogram), Box<dyn Error>> {
    let mut first = spect_builder.build(reference, window)?;
    let mut second = spect_builder.build(degraded, window)?;
    audio_utils::prepare_spectrograms_for_comparison(&mut first, &mut second);
    Ok((first, second))
}

/// Computes prediction with"""))

# ---- visqol_manager
m("b3-mg-load-helper", "", (MG, """        let mut ref_signal = audio_utils::load_as_mono(ref_signal_path)?;
        let mut deg_signal = audio_utils::load_as_mono(deg_signal_path)?;

        Self::validate_input_audio(&ref_signal, &deg_signal)?;

        self.compute_results(""", """        let (mut ref_signal, mut deg_signal) = Self::load_pair(ref_signal_path, deg_signal_path)?;
        self.compute_results("""), (MG, """    pub fn compute_results(""", """    fn load_pair(
        ref_signal_path: &str,
        deg_signal_path: &str,
    ) -> Result<(AudioSignal, AudioSignal), Box<dyn Error>> {
        let ref_signal = audio_utils::load_as_mono(ref_signal_path)?;
        let deg_signal = audio_utils::load_as_mono(deg_signal_path)?;
        Self::validate_input_audio(&ref_signal, &deg_signal)?;
        Ok((ref_signal, deg_signal))
    }

    pub fn compute_results("""))
m("b3-mg-align-match", "", (MG, """        let (mut deg_signal, _) = alignment::globally_align(ref_signal, deg_signal)
            .ok_or(VisqolError::FailedToAlignSignals)?;
""", """        let mut deg_signal = match alignment::globally_align(ref_signal, deg_signal) {
            Some((aligned, _)) => aligned,
            None => return Err(VisqolError::FailedToAlignSignals.into()),
        };
"""))
m("b3-mg-validate-helper", "", (MG, """        if (ref_signal.get_duration() - deg_signal.get_duration()).abs()
            > constants::DURATION_MISMATCH_TOLERANCE
        {""", """        let mismatch = (ref_signal.get_duration() - deg_signal.get_duration()).abs();
        if mismatch > constants::DURATION_MISMATCH_TOLERANCE {"""))
m("b3-mg-window-fn", "", (MG, """        let window = AnalysisWindow::new(
            ref_signal.sample_rate,
            constants::OVERLAP,
            constants::WINDOW_DURATION,
        );
""", """        let window = Self::analysis_window(ref_signal.sample_rate);
"""), (MG, "    /// Performs sanity checks", """    fn analysis_window(sample_rate: u32) -> AnalysisWindow {
        AnalysisWindow::new(sample_rate, constants::OVERLAP, constants::WINDOW_DURATION)
    }

    /// Performs sanity checks"""))
m("b3-mg-new-order", "", (MG, """        let spectrogram_builder = GammatoneSpectrogramBuilder::<NUM_BANDS>::new(
            GammatoneFilterbank::new(constants::MINIMUM_FREQ),
        );

        let patch_selector =
            ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default());

        Self {
            search_window: window_size,
            patch_creator,
            patch_selector,
            spectrogram_builder,
            sim_to_quality_mapper,
        }""", """        let filter_bank = GammatoneFilterbank::new(constants::MINIMUM_FREQ);
        Self {
            sim_to_quality_mapper,
            patch_selector: ComparisonPatchesSelector::new(
                NeurogramSimiliarityIndexMeasure::default(),
            ),
            spectrogram_builder: GammatoneSpectrogramBuilder::<NUM_BANDS>::new(filter_bank),
            patch_creator,
            search_window: window_size,
        }"""))
m("b3-mg-window-before", "", (MG, """        let (mut deg_signal, _) = alignment::globally_align(ref_signal, deg_signal)
            .ok_or(VisqolError::FailedToAlignSignals)?;

        let window = AnalysisWindow::new(
            ref_signal.sample_rate,
            constants::OVERLAP,
            constants::WINDOW_DURATION,
        );
""", """        let window = AnalysisWindow::new(
            ref_signal.sample_rate,
            constants::OVERLAP,
            constants::WINDOW_DURATION,
        );

        let (mut deg_signal, _) = alignment::globally_align(ref_signal, deg_signal)
            .ok_or(VisqolError::FailedToAlignSignals)?;
"""))
m("b3-as-new", "", (AS, """        AudioSignal {
            data_matrix: Array1::from_vec(data_matrix.to_vec()),
            sample_rate,
        }""", """        let samples = Array1::from(data_matrix.to_vec());
        Self {
            sample_rate,
            data_matrix: samples,
        }"""))
m("b3-as-new-iter", "", (AS, "data_matrix: Array1::from_vec(data_matrix.to_vec()),", "data_matrix: data_matrix.iter().copied().collect(),"))
m("b3-as-dur", "", (AS, "pub fn get_duration(&self) -> f64 { self.len() as f64 / self.sample_rate as f64 }", """pub fn get_duration(&self) -> f64 {
        let samples = self.data_matrix.len() as f64;
        samples / f64::from(self.sample_rate)
    }"""))

# ---- NSIM
m("b3-ns-conv-closure", "", (NS, """        let mu_ref = perform_valid_2d_conv_with_boundary(&window, ref_patch);
        let mu_deg = perform_valid_2d_conv_with_boundary(&window, deg_patch);
""", """        let smooth = |patch: &mut ndarray::Array2<f64>| perform_valid_2d_conv_with_boundary(&window, patch);
        let mu_deg = smooth(deg_patch);
        let mu_ref = smooth(ref_patch);
"""))
m("b3-ns-sigma-helper", "", (NS, """        let conv2_ref_neuro_squared =
            perform_valid_2d_conv_with_boundary(&window, &mut ref_neuro_sq);
        let sigma_ref_squared = &conv2_ref_neuro_squared - &ref_mu_squared;

        let conv2_deg_neuro_squared =
            perform_valid_2d_conv_with_boundary(&window, &mut deg_neuro_sq);
        let sigma_deg_squared = &conv2_deg_neuro_squared - &deg_mu_squared;
""", """        let sigma_ref_squared = weighted_covariance(&window, &mut ref_neuro_sq, &ref_mu_squared);
        let sigma_deg_squared = weighted_covariance(&window, &mut deg_neuro_sq, &deg_mu_squared);
"""), (NS, "impl PatchSimilarityComparator for", """fn weighted_covariance(
    window: &ndarray::Array2<f64>,
    product: &mut ndarray::Array2<f64>,
    mean_product: &ndarray::Array2<f64>,
) -> ndarray::Array2<f64> {
    perform_valid_2d_conv_with_boundary(window, product) - mean_product
}

impl PatchSimilarityComparator for"""))
m("b3-ns-mean", "", (NS, """        let mean_freq_band_means = freq_band_means
            .mean()
            .expect("Failed to compute mean of means for degraded signal!");
""", """        let mean_freq_band_means = freq_band_means.sum() / freq_band_means.len() as f64;
"""))
m("b3-ns-c", "", (NS, """        let k = [0.01, 0.03];
        let c1 = (k[0] * self.intensity_range).powf(2.0);
        let c3 = (k[1] * self.intensity_range).powf(2.0) / 2.0;
""", """        let c1 = (0.01 * self.intensity_range).powi(2);
        let c3 = (0.03 * self.intensity_range).powi(2) * 0.5;
"""))
m("b3-ns-structure-fn", "", (NS, """        let structure_numerator = &sigma_r_d + c3;
        let mut structure_denominator = &sigma_ref_squared * &sigma_deg_squared;

        // Avoid nans
        structure_denominator.map_inplace(|element| {
            *element = if *element < 0.0 {
                c3
            } else {
                element.sqrt() + c3
            }
        });

        let structure = &structure_numerator / &structure_denominator;
""", """        let structure = structure_term(&sigma_r_d, &sigma_ref_squared, &sigma_deg_squared, c3);
"""), (NS, "impl PatchSimilarityComparator for", """fn structure_term(
    covariance: &ndarray::Array2<f64>,
    ref_variance: &ndarray::Array2<f64>,
    deg_variance: &ndarray::Array2<f64>,
    c3: f64,
) -> ndarray::Array2<f64> {
    let denominator = (ref_variance * deg_variance).mapv(|product| {
        // Avoid nans
        if product >= 0.0 {
            product.sqrt() + c3
        } else {
            c3
        }
    });
    (covariance + c3) / denominator
}

impl PatchSimilarityComparator for"""))
m("b3-ns-simmap-early", "", (NS, """        let sim_map = &intensity * &structure;

        let freq_band_deg_energy: Array1<f64> = deg_patch
            .mean_axis(Axis(1))
            .expect("Failed to compute mean for degraded signal!");
        let freq_band_means""", """        let freq_band_deg_energy: Array1<f64> = deg_patch
            .mean_axis(Axis(1))
            .expect("Failed to compute mean for degraded signal!");
        let sim_map = intensity * structure;
        let freq_band_means"""))
m("b3-ns-default", "", (NS, """        Self {
            intensity_range: 1.0,
        }""", """        Self::new(1.0)"""))
m("b3-ns-zip-structure", "", (NS, """        let intensity_numerator = &mu_r_mu_d * 2.0 + c1;
        let intensity_denominator = &ref_mu_squared + &deg_mu_squared + c1;

        let intensity = &intensity_numerator / &intensity_denominator;
""", """        let mut intensity = &mu_r_mu_d * 2.0 + c1;
        intensity /= &(&ref_mu_squared + &deg_mu_squared + c1);
"""))

# ---- image / VAD patch creators
m("b3-ip-indices-collect", "", (IP, """        let mut ref_patch_indices = Vec::<usize>::with_capacity(spectrum_length / self.patch_size);

        for i in (init_patch_index..max_index).step_by(self.patch_size) {
            ref_patch_indices.push(i - 1);
        }
        Ok(ref_patch_indices)
""", """        Ok((init_patch_index..max_index)
            .step_by(self.patch_size)
            .map(|i| i - 1)
            .collect())
"""))
m("b3-ip-min-req", "", (IP, """        if spectrum_length < self.patch_size + init_patch_index {
            return Err(VisqolError::ReferenceSpectrogramTooSmall {
                spectrogram_length: spectrum_length,
                minimum_required: self.patch_size + init_patch_index,
            });
        }
""", """        let minimum_required = init_patch_index + self.patch_size;
        if minimum_required > spectrum_length {
            return Err(VisqolError::ReferenceSpectrogramTooSmall {
                spectrogram_length: spectrum_length,
                minimum_required,
            });
        }
"""))
m("b3-ip-max", "", (IP, """        let max_index = if init_patch_index < (spectrum_length - self.patch_size) {
            spectrum_length - self.patch_size
        } else {
            init_patch_index + 1
        };
""", """        let max_index = (spectrum_length - self.patch_size).max(init_patch_index + 1);
"""))
m("b3-ip-extract", "", (IP, """            end_col = start_col + self.patch_size;
            patch = spectrogram.slice(s![.., *start_col..end_col]).to_owned();
            patches.push(patch);
        }
        patches
""", """            patches.push(self.extract_patch(spectrogram, *start_col));
        }
        patches
"""), (IP, """        let mut end_col: usize;

        let mut patches = Vec::<Array2<f64>>::new();

        let mut patch: Array2<f64>;
""", """        let mut patches = Vec::<Array2<f64>>::new();
"""), (IP, "    /// Returns a new `ImagePatchCreator`", """    fn extract_patch(&self, spectrogram: &Array2<f64>, start_col: usize) -> Array2<f64> {
        let end_col = start_col + self.patch_size;
        spectrogram.slice(s![.., start_col..end_col]).to_owned()
    }

    /// Returns a new `ImagePatchCreator`"""))
m("b3-ip-inline", "", (IP, "        self.create_ref_patch_indices_from_spectrogram(spectrogram)\n", "        let indices = self.create_ref_patch_indices_from_spectrogram(spectrogram)?;\n        Ok(indices)\n"))
m("b3-vp-counts", "", (VP, """        let mut patch_idx = first_patch_idx;

        for patch in &vad_result.iter().chunks(self.patch_size) {
            let frames_with_va = patch.sum::<f64>();

            if frames_with_va >= self.frames_with_va_threshold {
                ref_patch_indices.push(patch_idx);
            }
            patch_idx += self.patch_size;
        }
""", """        for (i, patch) in vad_result.chunks(self.patch_size).enumerate() {
            let frames_with_va: f64 = patch.iter().sum();
            if frames_with_va < self.frames_with_va_threshold {
                continue;
            }
            ref_patch_indices.push(first_patch_idx + i * self.patch_size);
        }
"""), (VP, "use itertools::Itertools;\n", ""))
m("b3-vp-min-req", "", (VP, """        if spectrum_length < first_patch_idx + self.patch_size {
            return Err(VisqolError::ReferenceSpectrogramTooSmall {
                spectrogram_length: spectrum_length,
                minimum_required: first_patch_idx + self.patch_size,
            });
        }
        let patch_count""", """        let minimum_required = self.patch_size + first_patch_idx;
        if spectrum_length < minimum_required {
            return Err(VisqolError::ReferenceSpectrogramTooSmall {
                spectrogram_length: spectrum_length,
                minimum_required,
            });
        }
        let patch_count"""))
m("b3-vp-norm-late", "", (VP, """        let norm_mat = math_utils::normalize_signal(&ref_signal.data_matrix);
        let norm_sig = AudioSignal::new(
            norm_mat
                .as_slice()
                .expect("Failed to create AudioSignal from slice!"),
            ref_signal.sample_rate,
        );

""", ""), (VP, """        let vad_result = self.get_voice_activity(
            norm_sig
                .data_matrix
                .as_slice()
                .ok_or(VisqolError::FailedToComputeVad)?,
""", """        let normalized = math_utils::normalize_signal(&ref_signal.data_matrix);
        let vad_result = self.get_voice_activity(
            normalized
                .as_slice()
                .ok_or(VisqolError::FailedToComputeVad)?,
"""), (VP, "use crate::{analysis_window::AnalysisWindow, audio_signal::AudioSignal, math_utils, rms_vad};", "use crate::audio_signal::AudioSignal;\nuse crate::{analysis_window::AnalysisWindow, math_utils, rms_vad};"))
m("b3-vp-patches-map", "", (VP, """        let mut patches = Vec::<Array2<f64>>::with_capacity(patch_indices.len());

        let mut patch: Array2<f64>;

        let mut end_col: usize;
        for start_col in patch_indices {
            end_col = start_col + self.patch_size;
            patch = spectrogram.slice(s![.., *start_col..end_col]).to_owned();
            patches.push(patch);
        }
        patches
""", """        patch_indices
            .iter()
            .map(|&start| spectrogram.slice(s![.., start..start + self.patch_size]).to_owned())
            .collect()
"""))
m("b3-vp-frame-helper", "", (VP, """            let mut scaled_val = ((*patch_element * ((1 << 15) as f64)) as i16) as f64;
            scaled_val = (-(1 << 15) as f64)
                .max(1.0 * ((1 << 15) - 1) as f64)
                .min(scaled_val);
            frame.push(scaled_val as i16);
""", """            frame.push(to_pcm(*patch_element));
"""), (VP, "impl VadPatchCreator {", """fn to_pcm(sample: f64) -> i16 { (sample * 32768.0) as i16 }

impl VadPatchCreator {"""))
m("b3-rv-classify", "", (RV, """        if rms < self.rms_threshold {
            self.results_per_chunk.push(self.voice_activity_absent);
        } else {
            self.results_per_chunk.push(self.voice_activity_present);
        }
        rms
""", """        let flag = if rms >= self.rms_threshold {
            self.voice_activity_present
        } else {
            self.voice_activity_absent
        };
        self.results_per_chunk.push(flag);
        rms
"""))
m("b3-rv-square-iter", "", (RV, """        let mut square: i64 = 0;
        for elem in chunk {
            square += (*elem as i64).pow(2);
        }
        (square as f64 / chunk.len() as f64).sqrt()
""", """        let square: i64 = chunk
            .iter()
            .map(|&elem| i64::from(elem) * i64::from(elem))
            .sum();
        let mean_square = square as f64 / chunk.len() as f64;
        mean_square.sqrt()
"""))
m("b3-rv-silence", "", (RV, """        let mut previous_chunks_silent = true;
        for j in 1..self.silent_chunk_count {
            if self.results_per_chunk[idx - j] == self.voice_activity_present {
                previous_chunks_silent = false;
                break;
            }
        }
        previous_chunks_silent
""", """        (1..self.silent_chunk_count)
            .all(|j| self.results_per_chunk[idx - j] != self.voice_activity_present)
"""))
m("b3-rv-results", "", (RV, """        let mut vad_results = vec![1.0; self.silent_chunk_count - 1];

        for i in self.silent_chunk_count - 1..self.results_per_chunk.len() {
            if self.results_per_chunk[i] == 0.0 && self.check_previous_chunks_for_silence(&i) {
                vad_results.push(self.voice_activity_absent);
            } else {
                vad_results.push(self.voice_activity_present);
            }
        }
        vad_results
""", """        let first = self.silent_chunk_count - 1;
        let mut vad_results = vec![1.0; first];
        for (i, flag) in self.results_per_chunk.iter().enumerate().skip(first) {
            let silent = *flag == 0.0 && self.check_previous_chunks_for_silence(&i);
            vad_results.push(if silent {
                self.voice_activity_absent
            } else {
                self.voice_activity_present
            });
        }
        vad_results
"""))

# ---- spectrogram
m("b3-sp-db-fn", "", (SP, """        let sample_to_db = |element: f64| {
            let sample: f64 = if element == 0.0 {
                f64::EPSILON
            } else {
                element.abs()
            };
            10.0 * (sample.log10())
        };
        self.data.mapv_inplace(sample_to_db);
""", """        self.data.mapv_inplace(amplitude_to_db);
"""), (SP, "impl std::ops::Index<(usize, usize)> for Spectrogram {", """fn amplitude_to_db(element: f64) -> f64 {
    let magnitude = if element != 0.0 { element.abs() } else { f64::EPSILON };
    magnitude.log10() * 10.0
}

impl std::ops::Index<(usize, usize)> for Spectrogram {"""))
m("b3-sp-frame-cols", "", (SP, """            let our_frame = &mut self.data.index_axis_mut(Axis(1), index);
            let other_frame = &mut other.data.index_axis_mut(Axis(1), index);
""", """            let mut our_frame = self.data.column_mut(index);
            let mut other_frame = other.data.column_mut(index);
"""), (SP, "use ndarray::{Array2, Axis};", "use ndarray::Array2;"))
m("b3-sp-frame-helper", "", (SP, """            let our_max = our_frame
                .max()
                .expect("Failed to raise level for spectrogram!");
            let other_max = other_frame
                .max()
                .expect("Failed to raise level for spectrogram!");
            let any_max = our_max.max(*other_max);
            let floor_db = any_max - noise_threshold;
""", """            let our_max = *our_frame
                .max()
                .expect("Failed to raise level for spectrogram!");
            let other_max = *other_frame
                .max()
                .expect("Failed to raise level for spectrogram!");
            let peak = if our_max > other_max { our_max } else { other_max };
            let floor_db = peak - noise_threshold;
"""))
m("b3-sp-sub", "", (SP, "pub fn subtract_floor(&mut self, floor: f64) { self.data -= floor; }", """pub fn subtract_floor(&mut self, floor: f64) {
        self.data.mapv_inplace(|element| element - floor);
    }"""))
m("b3-sp-floor-if", "", (SP, "self.data.mapv_inplace(|element| new_floor.max(element));", """for element in &mut self.data {
            if *element < new_floor {
                *element = new_floor;
            }
        }"""))
m("b3-sp-floor-frames", "", (SP, """            our_frame.mapv_inplace(|element| floor_db.max(element));
            other_frame.mapv_inplace(|element| floor_db.max(element));
""", """            let raise = |element: f64| element.max(floor_db);
            other_frame.mapv_inplace(raise);
            our_frame.mapv_inplace(raise);
"""))
m("b3-sp-min-fold", "", (SP, """        *self
            .data
            .min()
            .expect("Failed to compute minimum for spectrogram")
""", """        self.data.iter().copied().fold(f64::INFINITY, f64::min)
"""))

# ---- ERB
m("b3-er-cap", "", (ER, """    let mut high_freq = high_freq;
    if (high_freq > sample_rate as f64 / 2.0) {""", """    let mut high_freq = high_freq;
    let nyquist = sample_rate as f64 / 2.0;
    if high_freq > nyquist {"""), (ER, "        high_freq = sample_rate as f64 / 2.0;\n", "        high_freq = nyquist;\n"))
m("b3-er-gain-map", "", (ER, """    let mut gain = vec![0.0f64; x01.len()];
    for i in 0..gain.len() {
        gain[i] = ((x1[i] * x2[i] * x3[i] * x4[i]) / x5[i].powf(4.0)).norm();
    }
""", """    let gain: Vec<f64> = (0..x01.len())
        .map(|i| ((x1[i] * x2[i] * x3[i] * x4[i]) / x5[i].powf(4.0)).norm())
        .collect();
"""))
m("b3-er-b1-zip", "", (ER, """    for i in 0..B1.len() {
        B1[i] = -2.0 * (2.0 * cf[i] * pi * t).cos() / exp_bt[i];
    }
""", """    for ((b1_element, cf_element), exp) in B1.iter_mut().zip(&cf).zip(&exp_bt) {
        *b1_element = -2.0 * (2.0 * *cf_element * pi * t).cos() / *exp;
    }
"""))
m("b3-er-rows", "", (ER, """        vf_coeffs[(i, 0)] = A0[i];
        vf_coeffs[(i, 1)] = A11[i].re;
""", """        vf_coeffs[[i, 1]] = A11[i].re;
        vf_coeffs[[i, 0]] = t;
"""))
m("b3-er-erb-const", "", (ER, """    let a = -(EAR_Q * MIN_BW);
    let b = -((high_freq + EAR_Q * MIN_BW).ln());
    let c = (low_freq + EAR_Q * MIN_BW).ln();
    let d = high_freq + EAR_Q * MIN_BW;
    let e = (b + c) / NUM_BANDS as f64;
""", """    let scale = EAR_Q * MIN_BW;
    let a = -scale;
    let d = high_freq + scale;
    let e = ((low_freq + scale).ln() - d.ln()) / NUM_BANDS as f64;
"""))
m("b3-er-x-helper", "", (ER, """    let mut x22 = xcos.clone();
    x22.iter_mut()
        .zip(&xsin)
        .for_each(|(cos_element, sin_element)| *cos_element = *cos_element + (s1 * sin_element));
""", """    let x22: Vec<Complex64> = xcos
        .iter()
        .zip(&xsin)
        .map(|(cos_element, sin_element)| cos_element + s1 * sin_element)
        .collect();
"""))

# ---- mappers
m("b3-svr-inline", "", (SVR, """        let solution = self.model.predict(similarity_vector);
        solution.clamp(1.0, 5.0)
""", """        const WORST_MOS: f64 = 1.0;
        const BEST_MOS: f64 = 5.0;
        self.model
            .predict(similarity_vector)
            .max(WORST_MOS)
            .min(BEST_MOS)
"""))
m("b3-sm-mean", "", (SM, """        let nsim_mean = similarity_vector.iter().sum::<f64>() / (similarity_vector.len() as f64);
""", """        let mut total = 0.0;
        for similarity in similarity_vector {
            total += similarity;
        }
        let nsim_mean = total / similarity_vector.len() as f64;
"""))
m("b3-sm-scale-fn", "", (SM, """        let scale = if self.scale_max_to_mos {
            FIT_SCALE
        } else {
            1.0
        };

        (mos * scale).clamp(1.0, 5.0)
""", """        let mut mos = mos;
        if self.scale_max_to_mos {
            mos *= FIT_SCALE;
        }
        mos.clamp(1.0, 5.0)
"""))
m("b3-svm-copy", "", (SVM, """        for (i, element) in observation.iter().enumerate() {
            features[i] = *element as f32;
        }
""", """        for i in 0..observation.len() {
            features[i] = observation[i] as f32;
        }
"""))
m("b3-svm-score", "", (SVM, """        let solution = problem.label();
        let mut score = 0.0;
        if let Label::Value(s) = solution {
            score = s;
        }
        score as f64
""", """        match problem.label() {
            Label::Value(score) => f64::from(score),
            _ => 0.0,
        }
"""))
m("b3-svm-new", "", (SVM, """        Self {
            model: DenseSVM::try_from(model_description.as_str())
                .expect("Failed to load SVM model"),
        }""", """        let model =
            DenseSVM::try_from(model_description.as_str()).expect("Failed to load SVM model");
        Self { model }"""))
m("b3-ps-new", "", (PS, """        Self {
            freq_band_means,
            freq_band_stddevs,
            freq_band_deg_energy,
            similarity,
            ref_patch_start_time: 0.0,
            ref_patch_end_time: 0.0,
            deg_patch_start_time: 0.0,
            deg_patch_end_time: 0.0,
        }
    }
}

impl Default""", """        Self {
            similarity,
            freq_band_deg_energy,
            freq_band_stddevs,
            freq_band_means,
            ..Self::default()
        }
    }
}

impl Default"""))
m("b3-ps-default", "", (PS, """        Self {
            freq_band_means: Vec::<f64>::new(),
            freq_band_stddevs: Vec::<f64>::new(),
            freq_band_deg_energy: Vec::<f64>::new(),
            similarity: 0.0,
            ref_patch_start_time: 0.0,
            ref_patch_end_time: 0.0,
            deg_patch_start_time: 0.0,
            deg_patch_end_time: 0.0,
        }
""", """        Self::new(vec![], vec![], vec![], 0.0)
"""))

# ---- alignment, xcorr, envelope, convolution
m("b3-al-shift-helper", "", (AL, """        let mut new_deg_matrix = deg_signal.data_matrix.clone();
        // align degraded matrix
        if best_lag < 0 {
            new_deg_matrix = new_deg_matrix
                .slice(s![
                    best_lag.unsigned_abs() as usize..deg_signal.data_matrix.len()
                ])
                .to_owned();
        } else {
            let zeros = Array1::<f64>::zeros(best_lag as usize);
            new_deg_matrix = concatenate(Axis(0), &[zeros.view(), new_deg_matrix.view()])
                .expect("Failed to zero pad degraded matrix!");
        }
""", """        let new_deg_matrix = shift(&deg_signal.data_matrix, best_lag);
"""), (AL, """/// Aligns a degraded signal to the reference signal, truncating them to
""", """/// Shifts `samples` by `lag`
fn shift(samples: &Array1<f64>, lag: i64) -> Array1<f64> {
    if lag < 0 {
        samples.slice(s![lag.unsigned_abs() as usize..]).to_owned()
    } else {
        let zeros = Array1::<f64>::zeros(lag as usize);
        concatenate(Axis(0), &[zeros.view(), samples.view()])
            .expect("Failed to zero pad degraded matrix!")
    }
}

/// Aligns a degraded signal to the reference signal, truncating them to
"""))
m("b3-al-trunc-helper", "", (AL, """            new_ref_matrix = new_ref_matrix
                .slice(s![
                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
                ])
                .to_owned();
            new_deg_matrix = new_deg_matrix
                .slice(s![
                    (lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()
                ])
                .to_owned();
""", """            let end = new_ref_matrix.len();
            let ref_start = (lag * f64::from(ref_signal.sample_rate)) as usize;
            let deg_start = (lag * f64::from(deg_signal.sample_rate)) as usize;
            new_ref_matrix = new_ref_matrix.slice(s![ref_start..end]).to_owned();
            new_deg_matrix = new_deg_matrix.slice(s![deg_start..end]).to_owned();
"""))
m("b3-al-env-pair", "", (AL, """    let ref_upper_env = envelope::calculate_upper_env(&ref_signal.data_matrix)?;
    let deg_upper_env = envelope::calculate_upper_env(&deg_signal.data_matrix)?;

    let best_lag = xcorr::calculate_best_lag(ref_upper_env.as_slice()?, deg_upper_env.as_slice()?)?;
""", """    let best_lag = find_lag(&ref_signal.data_matrix, &deg_signal.data_matrix)?;
"""), (AL, """/// Aligns a degraded signal to the reference signal, truncating them to
""", """fn find_lag(reference: &Array1<f64>, degraded: &Array1<f64>) -> Option<i64> {
    let degraded_envelope = envelope::calculate_upper_env(degraded)?;
    let reference_envelope = envelope::calculate_upper_env(reference)?;
    xcorr::calculate_best_lag(reference_envelope.as_slice()?, degraded_envelope.as_slice()?)
}

/// Aligns a degraded signal to the reference signal, truncating them to
"""))
m("b3-al-copy", "", (AL, """        let new_deg_signal =
            AudioSignal::new(deg_signal.data_matrix.as_slice()?, deg_signal.sample_rate);

        Some((new_deg_signal, 0.0f64))
""", """        let unchanged = AudioSignal {
            data_matrix: deg_signal.data_matrix.clone(),
            sample_rate: deg_signal.sample_rate,
        };
        Some((unchanged, 0.0))
"""))
m("b3-xc-concat", "", (XC, """    let mut corrs = point_wise_fft_vec[point_wise_fft_vec.len() - max_lag as usize..].to_vec();
    // Positive errors
    let mut positives = point_wise_fft_vec[0..max_lag as usize + 1].to_vec();

    corrs.append(&mut positives);
""", """    let lags = max_lag as usize;
    let mut corrs = Vec::with_capacity(2 * lags + 1);
    corrs.extend_from_slice(&point_wise_fft_vec[point_wise_fft_vec.len() - lags..]);
    // Positive errors
    corrs.extend_from_slice(&point_wise_fft_vec[..=lags]);
"""))
m("b3-xc-resize", "", (XC, """    match &signal_1.len().cmp(&signal_2.len()) {
        std::cmp::Ordering::Less => {
            signal_1.resize(biggest_length, 0.0);
        }
        std::cmp::Ordering::Greater => {
            signal_2.resize(biggest_length, 0.0);
        }
        _ => {}
    }
    let (_, exp) = frexp((signal_1.len() * 2 - 1) as f64);
""", """    if signal_1.len() < biggest_length {
        signal_1.resize(biggest_length, 0.0);
    }
    if signal_2.len() < biggest_length {
        signal_2.resize(biggest_length, 0.0);
    }
    let (_, exp) = frexp((biggest_length * 2 - 1) as f64);
"""))
m("b3-xc-product-for", "", (XC, """    fft_signal_1
        .iter()
        .zip(fft_signal_2.iter())
        .map(|(a, b)| a * b)
        .collect()
""", """    let mut product = Vec::with_capacity(fft_signal_1.len());
    for (a, b) in fft_signal_1.iter().zip(&fft_signal_2) {
        product.push(a * b);
    }
    product
"""))
m("b3-en-scaling", "", (EN, """    if !is_odd && is_non_empty {
        hilbert_scaling[signal.len() / 2] = 1.0;
    } else if is_odd && is_non_empty {
        hilbert_scaling[signal.len() / 2] = 2.0;
    }
""", """    if is_non_empty {
        hilbert_scaling[signal.len() / 2] = if is_odd { 2.0 } else { 1.0 };
    }
"""))
m("b3-en-product", "", (EN, """    let mut element_wise_product = Array1::<Complex64>::zeros(freq_domain_signal.len());

    for i in 0..freq_domain_signal.len() {
        element_wise_product[i] = freq_domain_signal[i] * hilbert_scaling[i];
    }

    let mut hilbert =
        fast_fourier_transform::inverse_1d(&mut fft_manager, element_wise_product.as_slice()?);
    hilbert
        .iter_mut()
        .for_each(|element| *element = *element * 2.0 - 0.000001);
    Some(Array1::<Complex64>::from_vec(hilbert))
""", """    let element_wise_product: Vec<Complex64> = freq_domain_signal
        .iter()
        .zip(&hilbert_scaling)
        .map(|(value, scale)| value * scale)
        .collect();

    let mut hilbert = fast_fourier_transform::inverse_1d(&mut fft_manager, &element_wise_product);
    for element in &mut hilbert {
        *element = *element * 2.0 - 0.000001;
    }
    Some(Array1::from(hilbert))
"""))
m("b3-cv-flatten", "", (CV, """    let mut res = Vec::<f64>::new();
    for i in 0..input_matrix.nrows() {
        for j in 0..input_matrix.ncols() {
            res.push(input_matrix[(i, j)]);
        }
    }
    res
""", """    input_matrix.iter().copied().collect()
"""))
m("b3-cv-edges", "", (CV, """    for i in 0..output_matrix.ncols() {
        output_matrix.row_mut(0)[i] = output_matrix.row(1)[i];
        output_matrix.row_mut(output_matrix.nrows() - 1)[i] =
            output_matrix.row(output_matrix.nrows() - 2)[i];
    }

    for i in 0..output_matrix.nrows() {
        output_matrix.column_mut(0)[i] = output_matrix.column_mut(1)[i];
        output_matrix.column_mut(output_matrix.ncols() - 1)[i] =
            output_matrix.column(output_matrix.ncols() - 2)[i];
    }
    output_matrix
""", """    let (rows, cols) = output_matrix.dim();
    for col in 0..cols {
        output_matrix[(0, col)] = output_matrix[(1, col)];
        output_matrix[(rows - 1, col)] = output_matrix[(rows - 2, col)];
    }
    for row in 0..rows {
        output_matrix[(row, 0)] = output_matrix[(row, 1)];
        output_matrix[(row, cols - 1)] = output_matrix[(row, cols - 2)];
    }
    output_matrix
"""))
m("b3-cv-kernel-helper", "", (CV, """            let mut sum = 0.0f64;
            let mut filter_index = filter_size - 1;

            for f_col in 0..f_c_c {
                for f_row in 0..f_r_c {
                    let idx = ((f_row + o_row) * i_c_c) + f_col + o_col;
                    sum += padded_flattened_matrix[idx] * flattened_filter[filter_index];
                    filter_index = filter_index.saturating_sub(1);
                }
            }
            out_matrix[(o_row, o_col)] = sum;
""", """            let mut sum = 0.0f64;
            for f_col in 0..f_c_c {
                for f_row in 0..f_r_c {
                    let idx = ((f_row + o_row) * i_c_c) + f_col + o_col;
                    let filter_index = filter_size - 1 - (f_col * f_r_c + f_row);
                    sum += padded_flattened_matrix[idx] * flattened_filter[filter_index];
                }
            }
            out_matrix[(o_row, o_col)] = sum;
"""))

# ---- selector
m("b3-sel-lost-helper", "", (SEL, """            if last_offset == backtrace[patch_index as usize][last_offset] {
                best_deg_patches[patch_index as usize].deg_patch_start_time = 0.0;
                best_deg_patches[patch_index as usize].deg_patch_end_time = 0.0;
                best_deg_patches[patch_index as usize].similarity = 0.0;
                let num_rows = best_deg_patches[patch_index as usize].freq_band_means.len();
                best_deg_patches[patch_index as usize].freq_band_means = vec![0.0; num_rows];
            } else {
                best_deg_patches[patch_index as usize].deg_patch_start_time =
                    last_offset as f64 * frame_duration;
                best_deg_patches[patch_index as usize].deg_patch_end_time =
                    best_deg_patches[patch_index as usize].deg_patch_start_time + patch_duration;
            }

            best_deg_patches[patch_index as usize].ref_patch_start_time =
                ref_patch_indices[patch_index as usize] as f64 * frame_duration;
            best_deg_patches[patch_index as usize].ref_patch_end_time =
                best_deg_patches[patch_index as usize].ref_patch_start_time + patch_duration;
""", """            let best = &mut best_deg_patches[patch_index as usize];
            if last_offset == backtrace[patch_index as usize][last_offset] {
                Self::mark_as_lost(best);
            } else {
                best.deg_patch_start_time = last_offset as f64 * frame_duration;
                best.deg_patch_end_time = best.deg_patch_start_time + patch_duration;
            }

            best.ref_patch_start_time =
                ref_patch_indices[patch_index as usize] as f64 * frame_duration;
            best.ref_patch_end_time = best.ref_patch_start_time + patch_duration;
"""), (SEL, """    /// This function finds the most suitable patch""", """    fn mark_as_lost(patch: &mut PatchSimilarityResult) {
        patch.deg_patch_start_time = 0.0;
        patch.deg_patch_end_time = 0.0;
        patch.similarity = 0.0;
        patch.freq_band_means = vec![0.0; patch.freq_band_means.len()];
    }

    /// This function finds the most suitable patch"""))
m("b3-sel-final-helper", "", (SEL, """        let mut last_offset = 0;

        let lower_limit = 0.max(ref_patch_indices[last_index] as i32 - search_window) as usize;
""", """        let mut last_offset = 0;

        let reference_frame = ref_patch_indices[last_index];
        let lower_limit = (reference_frame as i32 - search_window).max(0) as usize;
        let upper_limit = (reference_frame + search_window as usize + 1).min(num_frames_in_deg_spectro);
"""), (SEL, """        for slide_offset in lower_limit..ref_patch_indices[last_index] + search_window as usize + 1
        {
            if slide_offset >= num_frames_in_deg_spectro {
                // The frame offset for degraded start patch cannot be more than the
                // number of frames in the degraded spectrogram.
                break;
            }

""", """        for slide_offset in lower_limit..upper_limit {
"""))
m("b3-sel-patches-map", "", (SEL, """        let mut deg_patches = Vec::<Array2<f64>>::with_capacity(spectrogram_data.ncols());

        for slide_offset in 0..spectrogram_data.ncols() {
            deg_patches.push(Self::build_degraded_patch(
                spectrogram_data,
                slide_offset,
                slide_offset + ref_patches[0].ncols(),
            ));
        }
""", """        let mut deg_patches: Vec<Array2<f64>> = (0..num_frames_in_deg_spectro)
            .map(|start| {
                Self::build_degraded_patch(spectrogram_data, start, start + num_frames_per_patch)
            })
            .collect();
"""))
m("b3-sel-best-prev", "", (SEL, """            let mut past_slide_offset = -1;
            let mut highest_sim = f64::MIN;

            if patch_index > 0 {""", """            let mut past_slide_offset = -1;

            if patch_index > 0 {
                let mut highest_sim = f64::MIN;"""))
m("b3-sel-dp-row", "", (SEL, """                while back_offset >= lower_limit {
                    if cumulative_similarity_dp[patch_index - 1][back_offset as usize] > highest_sim
                    {
                        highest_sim =
                            cumulative_similarity_dp[patch_index - 1][back_offset as usize];
                        past_slide_offset = back_offset;
                    }
                    back_offset -= 1;
                }
""", """                while back_offset >= lower_limit {
                    let candidate = cumulative_similarity_dp[patch_index - 1][back_offset as usize];
                    if candidate > highest_sim {
                        past_slide_offset = back_offset;
                        highest_sim = candidate;
                    }
                    back_offset -= 1;
                }
"""))
m("b3-sel-max-patches", "", (SEL, """        let mut num_patches = ref_patch_indices.len();

        while num_patches != 0
            && ref_patch_indices[num_patches - 1]
                > num_frames_in_deg_spectro + num_frames_per_patch / 2
        {
            num_patches -= 1;
        }
        num_patches
""", """        let limit = num_frames_in_deg_spectro + num_frames_per_patch / 2;
        let mut num_patches = ref_patch_indices.len();
        while num_patches > 0 && ref_patch_indices[num_patches - 1] > limit {
            num_patches -= 1;
        }
        num_patches
"""))
m("b3-sel-max-rposition", "", (SEL, """        let mut num_patches = ref_patch_indices.len();

        while num_patches != 0
            && ref_patch_indices[num_patches - 1]
                > num_frames_in_deg_spectro + num_frames_per_patch / 2
        {
            num_patches -= 1;
        }
        num_patches
""", """        let limit = num_frames_in_deg_spectro + num_frames_per_patch / 2;
        ref_patch_indices
            .iter()
            .rposition(|&index| index <= limit)
            .map_or(0, |last| last + 1)
"""))
m("b3-sel-slide-clamp", "", (SEL, """        let mut slide_offset = ref_frame_index as i32 - search_window;
        while slide_offset <= ref_frame_index as i32 + search_window {
            if slide_offset < 0 {
                // The degraded patch index cannot be less than 0.
                slide_offset = 0;
                continue;
            }
""", """        let mut slide_offset = (ref_frame_index as i32 - search_window).max(0);
        while slide_offset <= ref_frame_index as i32 + search_window {
"""))
m("b3-sel-pad-else", "", (SEL, """        let mut deg_patch = spectrogram_data
            .slice(s![.., first_real_frame..last_real_frame])
            .to_owned();

        if window_end > spectrogram_data.ncols() {
            let append_matrix = Array2::<f64>::zeros((
                spectrogram_data.nrows(),
                window_end - spectrogram_data.ncols(),
            ));

            deg_patch = concatenate(Axis(1), &[deg_patch.view(), append_matrix.view()])
                .expect("Could not zero-pad patch!");
        }
        deg_patch
""", """        let real_frames = spectrogram_data.slice(s![.., first_real_frame..last_real_frame]);
        if window_end <= spectrogram_data.ncols() {
            return real_frames.to_owned();
        }

        let missing_frames = window_end - spectrogram_data.ncols();
        let silence = Array2::<f64>::zeros((spectrogram_data.nrows(), missing_frames));
        concatenate(Axis(1), &[real_frames, silence.view()]).expect("Could not zero-pad patch!")
"""))
m("b3-sel-fine-helper", "", (SEL, """            // 3. Compute a new spectrogram for the degraded audio.

            let mut ref_spectrogram = spect_builder.build(&ref_audio_aligned, analysis_window)?;
            let mut deg_spectrogram = spect_builder.build(&deg_audio_aligned, analysis_window)?;
            // 4. Recreate an aligned degraded patch from the new spectrogram.

            audio_utils::prepare_spectrograms_for_comparison(
                &mut ref_spectrogram,
                &mut deg_spectrogram,
            );
            // 5. Update the similarity result with the new patch.

            let mut new_sim_result = self
                .sim_comparator
                .measure_patch_similarity(&mut ref_spectrogram.data, &mut deg_spectrogram.data);
""", """            let mut new_sim_result = self.compare_audio(
                &ref_audio_aligned,
                &deg_audio_aligned,
                spect_builder,
                analysis_window,
            )?;
"""), (SEL, """    /// Performs alignment on a per-patch level.
""", """    /// Compares two aligned segments
    fn compare_audio<const NUM_BANDS: usize>(
        &self,
        reference: &AudioSignal,
        degraded: &AudioSignal,
        spect_builder: &mut GammatoneSpectrogramBuilder<NUM_BANDS>,
        analysis_window: &AnalysisWindow,
    ) -> Result<PatchSimilarityResult, VisqolError> {
        let mut ref_spectrogram = spect_builder.build(reference, analysis_window)?;
        let mut deg_spectrogram = spect_builder.build(degraded, analysis_window)?;
        audio_utils::prepare_spectrograms_for_comparison(&mut ref_spectrogram, &mut deg_spectrogram);
        Ok(self
            .sim_comparator
            .measure_patch_similarity(&mut ref_spectrogram.data, &mut deg_spectrogram.data))
    }

    /// Performs alignment on a per-patch level.
"""))
m("b3-sel-fine-times", "", (SEL, """                if lag > 0.0 {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time + lag;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time;
                } else {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time - lag;
                }
""", """                new_sim_result.ref_patch_start_time = result.ref_patch_start_time + lag.max(0.0);
                new_sim_result.deg_patch_start_time = result.deg_patch_start_time - lag.min(0.0);
"""))
m("b3-sel-slice-helper", "", (SEL, """        let start_index = ((start_time * in_signal.sample_rate as f64) as usize).max(0);
        let end_index =
            ((end_time * in_signal.sample_rate as f64) as usize).min(in_signal.data_matrix.len());
""", """        let to_index = |seconds: f64| (seconds * in_signal.sample_rate as f64) as usize;
        let start_index = to_index(start_time);
        let end_index = to_index(end_time).min(in_signal.len());
"""))
m("b3-sel-zero-err", "", (SEL, """        if num_patches == 0 {
            return Err(VisqolError::SignalsTooDifferent);
        } else if num_patches < ref_patch_indices.len() {""", """        if num_patches == 0 {
            return Err(VisqolError::SignalsTooDifferent);
        }
        if ref_patch_indices.len() > num_patches {"""))

# ---- CLI
m("b3-cu-pairs-match", "", (CU, """    let mut file_pairs = Vec::<PathPair>::new();
    if let (Some(ref_file), Some(deg_file)) = (&args.reference_file, &args.degraded_file) {
        file_pairs.push(PathPair::new(ref_file, deg_file));
        Ok(file_pairs)
    } else if let Some(csv_file) = &args.batch_input_csv {
        read_files_to_compare(&PathBuf::from(csv_file))
    } else {
        Ok(file_pairs)
    }
""", """    if let (Some(ref_file), Some(deg_file)) = (&args.reference_file, &args.degraded_file) {
        return Ok(vec![PathPair::new(ref_file, deg_file)]);
    }
    match &args.batch_input_csv {
        Some(csv_file) => read_files_to_compare(&PathBuf::from(csv_file)),
        None => Ok(Vec::new()),
    }
"""))
m("b3-cu-open", "", (CU, """        .from_path(batch_input_path)
        .unwrap_or_else(|_| panic!("Failed to read csv file!"));
""", """        .from_path(batch_input_path)
        .expect("Failed to read csv file!");
"""))
m("b3-cu-row-helper", "", (CU, """        let record = result?;
        let row: PathPair = record
            .deserialize(Some(&header))
            .expect("Failed to deserialize line in csv file!");
        file_paths.push(row);
""", """        file_paths.push(parse_row(&result?, &header));
"""), (CU, "#[cfg(test)]\nmod tests", """fn parse_row(record: &StringRecord, header: &StringRecord) -> PathPair {
    record
        .deserialize(Some(header))
        .expect("Failed to deserialize line in csv file!")
}

#[cfg(test)]
mod tests"""))
m("b3-pp-to-owned", "", (PP, """            reference: String::from(reference),
            degraded: String::from(degraded),
""", """            reference: reference.to_string(),
            degraded: degraded.to_owned(),
"""))
m("b3-mn-arms", "", (MN, """            variant = Variant::Wideband {
                use_unscaled_mos_mapping: *use_unscaled_speech_mos_mapping,
            };
            visqol_speech = VisqolManager::new(variant, args.search_window_radius);
            results = run(&files_to_compare, &mut visqol_speech)?;
""", """            let wideband = Variant::Wideband {
                use_unscaled_mos_mapping: *use_unscaled_speech_mos_mapping,
            };
            let mut manager: VisqolManager<NUM_BANDS_SPEECH> =
                VisqolManager::new(wideband, args.search_window_radius);
            results = run(&files_to_compare, &mut manager)?;
"""), (MN, "    let mut visqol_speech: VisqolManager<NUM_BANDS_SPEECH>;\n", ""))
m("b3-mn-logger", "", (MN, """    // Set up logger
    TermLogger::init(
        LevelFilter::Trace,
        Config::default(),
        TerminalMode::Stdout,
        ColorChoice::Always,
    )?;
""", """    init_logging()?;
"""), (MN, "fn main() ->", """fn init_logging() -> Result<(), Box<dyn Error>> {
    TermLogger::init(
        LevelFilter::Trace,
        Config::default(),
        TerminalMode::Stdout,
        ColorChoice::Always,
    )?;
    Ok(())
}

fn main() ->"""))
m("b3-mn-match-expr", "", (MN, "    let results: Vec<SimilarityResult>;\n    match &args.subcommand {", "    let results = match &args.subcommand {"),
  (MN, "            results = run(&files_to_compare, &mut visqol_speech)?;", "            run(&files_to_compare, &mut visqol_speech)?"),
  (MN, """            results = run(&files_to_compare, &mut visqol_audio)?;
        }
    }""", """            run(&files_to_compare, &mut visqol_audio)?
        }
    };"""))
m("b3-ou-json-write", "", (OU, """    OpenOptions::new()
        .create(true)
        .append(true)
        .open(json_output_path)
        .and_then(|mut file| file.write_all(json_output.as_bytes()))
        .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path.as_str()));
""", """    let failed = |_| panic!("Could not write JSON to {}!", json_output_path.as_str());
    let mut file = OpenOptions::new()
        .append(true)
        .create(true)
        .open(json_output_path)
        .unwrap_or_else(failed);
    if file.write_all(json_output.as_bytes()).is_err() {
        panic!("Could not write JSON to {}!", json_output_path.as_str());
    }
"""))
m("b3-ou-csv-loop", "", (OU, """    for (result, file_pair) in results.iter().zip(file_pairs) {
        writer
            .serialize(""", """    for (file_pair, result) in file_pairs.iter().zip(results) {
        writer
            .serialize("""))
m("b3-ou-console-order", "", (OU, """    for (sim_result, file_pair) in results.iter().zip(file_pairs) {
        write_to_console(args, sim_result, file_pair);
    }
""", """    results
        .iter()
        .zip(file_pairs)
        .for_each(|(sim_result, file_pair)| write_to_console(args, sim_result, file_pair));
"""))
m("b3-ou-table-helper", "", (OU, """    let mut table = Table::new();

    let format = get_default_table_format();

    table.set_format(format);
    for (fn_sim, freq_band) in result.fvnsim.iter().zip(&result.center_freq_bands) {
        table.add_row(Row::new(vec![
            Cell::new(&fn_sim.to_string()[..]),
            Cell::new(&freq_band.to_string()[..]),
        ]));
    }
""", """    let mut table = new_table();
    for (fn_sim, freq_band) in result.fvnsim.iter().zip(result.center_freq_bands.iter()) {
        let cells = vec![
            Cell::new(&fn_sim.to_string()),
            Cell::new(&freq_band.to_string()),
        ];
        table.add_row(Row::new(cells));
    }
"""), (OU, "/// Returns the default table format for", """fn new_table() -> Table {
    let mut table = Table::new();
    table.set_format(get_default_table_format());
    table
}

/// Returns the default table format for"""))
m("b3-ou-interval", "", (OU, """        let ref_info = patch_sim.ref_patch_start_time.to_string()
            + "  -   "
            + &patch_sim.ref_patch_end_time.to_string()[..];
""", """        let ref_info = format!(
            "{}  -   {}",
            patch_sim.ref_patch_start_time, patch_sim.ref_patch_end_time
        );
"""))
