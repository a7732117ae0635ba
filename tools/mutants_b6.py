"""Rewrites that keep the behaviour, in another hand: whole functions restated, state bundled, helpers moved out"""
from mutants import m
L6 = "visqol-rs/src/"; C6 = "visqol/src/"
def f6(n): return L6 + n + ".rs"
SEL6, VQ6, MG6, NS6, SP6 = f6("comparison_patches_selector"), f6("visqol"), f6("visqol_manager"), f6("neurogram_similiarity_index_measure"), f6("spectrogram")
GF6, GB6, VP6, RV6, AL6 = f6("gammatone_filterbank"), f6("gammatone_spectrogram_builder"), f6("vad_patch_creator"), f6("rms_vad"), f6("alignment")
IP6, WR6, SF6, XC6, EN6 = f6("image_patch_creator"), f6("wav_reader"), f6("signal_filter"), f6("xcorr"), f6("envelope")
AU6, FM6, FF6, ER6, MU6 = f6("audio_utils"), f6("fft_manager"), f6("fast_fourier_transform"), f6("equivalent_rectangular_bandwidth"), f6("math_utils")
SV6, SM6, SVM6, CV6, AW6, PS6, SR6 = f6("svr_similarity_to_quality_mapper"), f6("speech_similarity_to_quality_mapper"), f6("support_vector_regression_model"), f6("convolution_2d"), f6("analysis_window"), f6("patch_similarity_comparator"), f6("similarity_result")
MN6, CU6, OU6 = C6 + "main.rs", C6 + "command_line_utils.rs", C6 + "output_utils.rs"
def ok(name, *e): m("b6-" + name, "", *e)

# selector
ok("sel-best-alias", (SEL6, """            best_deg_patches[patch_index as usize] = self
                .sim_comparator
                .measure_patch_similarity(&mut ref_patch, &mut deg_patch);
""", """            let traced_offset = backtrace[patch_index as usize][last_offset];
            let best = &mut best_deg_patches[patch_index as usize];
            *best = self
                .sim_comparator
                .measure_patch_similarity(&mut ref_patch, &mut deg_patch);
"""), (SEL6, """            if last_offset == backtrace[patch_index as usize][last_offset] {
                best_deg_patches[patch_index as usize].deg_patch_start_time = 0.0;
                best_deg_patches[patch_index as usize].deg_patch_end_time = 0.0;
                best_deg_patches[patch_index as usize].similarity = 0.0;
                let num_rows = best_deg_patches[patch_index as usize].freq_band_means.len();
                best_deg_patches[patch_index as usize].freq_band_means = vec![0.0; num_rows];
            } else {
                best_deg_patches[patch_index as usize].deg_patch_start_time =
                    last_offset as f64 * frame_duration;
                best_deg_patches[patch_index as usize].deg_patch_end_time =
                    best_deg_patches[patch_index as usize].deg_patch_start_time + patch_duration;
            }

            best_deg_patches[patch_index as usize].ref_patch_start_time =
                ref_patch_indices[patch_index as usize] as f64 * frame_duration;
            best_deg_patches[patch_index as usize].ref_patch_end_time =
                best_deg_patches[patch_index as usize].ref_patch_start_time + patch_duration;
            last_offset = backtrace[patch_index as usize][last_offset];
""", """            if last_offset == traced_offset {
                best.deg_patch_start_time = 0.0;
                best.deg_patch_end_time = 0.0;
                best.similarity = 0.0;
                best.freq_band_means.fill(0.0);
            } else {
                best.deg_patch_start_time = last_offset as f64 * frame_duration;
                best.deg_patch_end_time = best.deg_patch_start_time + patch_duration;
            }

            best.ref_patch_start_time =
                ref_patch_indices[patch_index as usize] as f64 * frame_duration;
            best.ref_patch_end_time = best.ref_patch_start_time + patch_duration;
            last_offset = traced_offset;
"""))
ok("sel-back-rev-for", (SEL6, """        let mut patch_index: i32 = (num_patches - 1) as i32;
        while patch_index >= 0 {
""", """        for patch_index in (0..num_patches as i32).rev() {
"""), (SEL6, """            last_offset = backtrace[patch_index as usize][last_offset];

            patch_index -= 1;
        }
        Ok(best_deg_patches)
""", """            last_offset = backtrace[patch_index as usize][last_offset];
        }
        Ok(best_deg_patches)
"""))
ok("sel-back-fold", (SEL6, """                let mut back_offset = slide_offset - 1;

                // The current for loop is used to find out the highest cumulative score
                // achieved till the previous ref_patch_index.
                while back_offset >= lower_limit {
                    if cumulative_similarity_dp[patch_index - 1][back_offset as usize] > highest_sim
                    {
                        highest_sim =
                            cumulative_similarity_dp[patch_index - 1][back_offset as usize];
                        past_slide_offset = back_offset;
                    }
                    back_offset -= 1;
                }
""", """                let previous_row = &cumulative_similarity_dp[patch_index - 1];
                (highest_sim, past_slide_offset) = (lower_limit..slide_offset).rev().fold(
                    (highest_sim, past_slide_offset),
                    |(best, at), back_offset| {
                        let candidate = previous_row[back_offset as usize];
                        if candidate > best {
                            (candidate, back_offset)
                        } else {
                            (best, at)
                        }
                    },
                );
"""))
ok("sel-last-iter", (SEL6, """        for slide_offset in lower_limit..ref_patch_indices[last_index] + search_window as usize + 1
        {
            if slide_offset >= num_frames_in_deg_spectro {
                // The frame offset for degraded start patch cannot be more than the
                // number of frames in the degraded spectrogram.
                break;
            }

            if cumulative_similarity_dp[last_index][slide_offset] > max_similarity_score {
                max_similarity_score = cumulative_similarity_dp[last_index][slide_offset];
                last_offset = slide_offset;
            }
        }
""", """        let upper_limit = (ref_patch_indices[last_index] + search_window as usize + 1)
            .min(num_frames_in_deg_spectro);
        for (slide_offset, &score) in cumulative_similarity_dp[last_index]
            .iter()
            .enumerate()
            .take(upper_limit)
            .skip(lower_limit)
        {
            if score > max_similarity_score {
                max_similarity_score = score;
                last_offset = slide_offset;
            }
        }
"""))
ok("sel-mark-missing", (SEL6, """                best_deg_patches[patch_index as usize].deg_patch_start_time = 0.0;
                best_deg_patches[patch_index as usize].deg_patch_end_time = 0.0;
                best_deg_patches[patch_index as usize].similarity = 0.0;
                let num_rows = best_deg_patches[patch_index as usize].freq_band_means.len();
                best_deg_patches[patch_index as usize].freq_band_means = vec![0.0; num_rows];
""", """                best_deg_patches[patch_index as usize].mark_unmatched();
"""), (PS6, "impl Default for PatchSimilarityResult {", """impl PatchSimilarityResult {
    /// Turns this result into that of a patch without counterpart
    pub(crate) fn mark_unmatched(&mut self) {
        self.similarity = 0.0;
        self.deg_patch_start_time = 0.0;
        self.deg_patch_end_time = 0.0;
        for mean in self.freq_band_means.iter_mut() {
            *mean = 0.0;
        }
    }

    /// Whether no counterpart was found in the degraded signal
    pub(crate) fn is_unmatched(&self) -> bool {
        self.deg_patch_start_time == 0.0 && self.deg_patch_end_time == 0.0
    }
}

impl Default for PatchSimilarityResult {"""), (SEL6, """            if result.deg_patch_start_time == result.deg_patch_end_time
                && result.deg_patch_start_time == 0.0
            {
""", """            if result.is_unmatched() {
"""))
ok("sel-slice-to-samples", (SEL6, """        let start_index = ((start_time * in_signal.sample_rate as f64) as usize).max(0);
        let end_index =
            ((end_time * in_signal.sample_rate as f64) as usize).min(in_signal.data_matrix.len());
""", """        let to_samples = |seconds: f64| seconds * in_signal.sample_rate as f64;
        let num_samples = in_signal.len();
        let start_index = to_samples(start_time) as usize;
        let end_index = num_samples.min(to_samples(end_time) as usize);
"""), (SEL6, """            (end_time * in_signal.sample_rate as f64 - in_signal.data_matrix.len() as f64) as usize;
""", """            (to_samples(end_time) - num_samples as f64) as usize;
"""))
ok("sel-fine-choose", (SEL6, """            if new_sim_result.similarity < result.similarity {
                realigned_results[i] = result.clone();
            } else {
                if lag > 0.0 {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time + lag;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time;
                } else {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time - lag;
                }
                new_sim_result.ref_patch_end_time =
                    new_sim_result.ref_patch_start_time + new_ref_duration;
                new_sim_result.deg_patch_end_time =
                    new_sim_result.deg_patch_start_time + new_deg_duration;
                realigned_results[i] = new_sim_result;
            }
""", """            let keep_old = new_sim_result.similarity < result.similarity;
            realigned_results[i] = if keep_old {
                result.clone()
            } else {
                let (ref_shift, deg_shift) = if lag > 0.0 { (lag, 0.0) } else { (0.0, -lag) };
                let ref_start = result.ref_patch_start_time + ref_shift;
                let deg_start = result.deg_patch_start_time + deg_shift;
                new_sim_result.ref_patch_start_time = ref_start;
                new_sim_result.ref_patch_end_time = ref_start + new_ref_duration;
                new_sim_result.deg_patch_start_time = deg_start;
                new_sim_result.deg_patch_end_time = deg_start + new_deg_duration;
                new_sim_result
            };
"""))
ok("sel-fine-update-syntax", (SEL6, """                if lag > 0.0 {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time + lag;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time;
                } else {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time - lag;
                }
                new_sim_result.ref_patch_end_time =
                    new_sim_result.ref_patch_start_time + new_ref_duration;
                new_sim_result.deg_patch_end_time =
                    new_sim_result.deg_patch_start_time + new_deg_duration;
                realigned_results[i] = new_sim_result;
""", """                let ref_patch_start_time = result.ref_patch_start_time + lag.max(0.0);
                let deg_patch_start_time = result.deg_patch_start_time - lag.min(0.0);
                realigned_results[i] = PatchSimilarityResult {
                    ref_patch_start_time,
                    ref_patch_end_time: ref_patch_start_time + new_ref_duration,
                    deg_patch_start_time,
                    deg_patch_end_time: deg_patch_start_time + new_deg_duration,
                    ..new_sim_result
                };
"""), (SEL6, "let mut new_sim_result = self", "let new_sim_result = self"))
ok("sel-window-i64", (SEL6, """        let search_window = search_window_radius
            .saturating_mul(num_frames_per_patch as i32)
            .min(i32::MAX / 2);
""", """        let search_window = (i64::from(search_window_radius) * num_frames_per_patch as i64)
            .min(i64::from(i32::MAX / 2)) as i32;
"""))
# visqol.rs
ok("vq-closure-mean", (VQ6, """    let mut fvnsim = Array1::<f64>::zeros(sim_match_info[0].freq_band_means.len());
    for patch in sim_match_info {
        for (index, band) in fvnsim.iter_mut().enumerate() {
            *band += patch.freq_band_means[index];
        }
    }
    fvnsim / sim_match_info.len() as f64
""", """    average_over_patches(sim_match_info, |patch| &patch.freq_band_means)
"""), (VQ6, """    let mut total_fvdegenergy = Array1::<f64>::zeros(sim_match_info[0].freq_band_means.len());
    for patch in sim_match_info {
        for (index, band) in total_fvdegenergy.iter_mut().enumerate() {
            *band += patch.freq_band_deg_energy[index];
        }
    }
    total_fvdegenergy / sim_match_info.len() as f64
""", """    average_over_patches(sim_match_info, |patch| &patch.freq_band_deg_energy)
"""), (VQ6, "fn calculate_frame_duration(", """fn average_over_patches<F>(sim_match_info: &[PatchSimilarityResult], pick: F) -> Array1<f64>
where
    F: Fn(&PatchSimilarityResult) -> &Vec<f64>,
{
    let num_bands = sim_match_info[0].freq_band_means.len();
    let mut total = vec![0.0; num_bands];
    for patch in sim_match_info.iter() {
        total
            .iter_mut()
            .zip(pick(patch).iter())
            .for_each(|(sum, value)| *sum += *value);
    }
    let count = sim_match_info.len() as f64;
    Array1::from_iter(total.into_iter().map(|sum| sum / count))
}

fn calculate_frame_duration("""))
ok("vq-std-zip", (VQ6, """        for (index, contributing_element) in contribution.iter_mut().enumerate() {
            let dev = patch.freq_band_stddevs[index];
            let mean = patch.freq_band_means[index];

            *contributing_element += (frame_count - 1) as f64 * dev * dev;
            *contributing_element += frame_count as f64 * mean * mean;
        }
""", """        let moments = patch.freq_band_stddevs.iter().zip(&patch.freq_band_means);
        for (contributing_element, (dev, mean)) in contribution.iter_mut().zip(moments) {
            *contributing_element +=
                (frame_count - 1) as f64 * dev.powi(2) + frame_count as f64 * mean.powi(2);
        }
"""))
ok("vq-std-late", (VQ6, """    let mut result = (&contribution - (&fvn_sim * &fvn_sim * total_frame_count as f64))
        / (total_frame_count as f64 - 1.0);

    result.map_inplace(|element| {
        *element = if *element < 0.0 { 0.0 } else { element.sqrt() };
    });
    result
""", """    let total = total_frame_count as f64;
    let variance = (contribution - fvn_sim.mapv(|mean| mean * mean) * total) / (total - 1.0);
    variance.mapv(|v| if v < 0.0 { 0.0 } else { v.sqrt() })
"""))
ok("vq-inline-small", (VQ6, """    let mut moslqo = predict_mos(
        fvnsim
            .as_slice()
            .expect("failed to convert fvnsim to slice"),
        sim_to_qual_mapper,
    );

    let vnsim = fvnsim.mean().expect("Failed to compute nsim mean");

    moslqo = alter_for_similarity_extremes(vnsim, moslqo);
    Ok(SimilarityResult::new(
        moslqo,
        vnsim,
        fvnsim.to_vec(),
        fstdnsim.to_vec(),
        fvdegenergy.to_vec(),
        ref_spectrogram.center_freq_bands,
        sim_match_info,
    ))
}

/// Computes prediction with the given `SimilarityToQualityMapper`
fn predict_mos(fvnsim: &[f64], mapper: &dyn SimilarityToQualityMapper) -> f64 {
    mapper.predict_quality(fvnsim)
}
""", """    let fvnsim = fvnsim.to_vec();
    let vnsim = fvnsim.iter().sum::<f64>() / fvnsim.len() as f64;
    let moslqo = alter_for_similarity_extremes(vnsim, sim_to_qual_mapper.predict_quality(&fvnsim));

    Ok(SimilarityResult::new(
        moslqo,
        vnsim,
        fvnsim,
        fstdnsim.into_raw_vec(),
        fvdegenergy.into_raw_vec(),
        ref_spectrogram.center_freq_bands,
        sim_match_info,
    ))
}
"""))
ok("vq-extremes-lazy", (VQ6, """    let mut moslqo = predict_mos(
        fvnsim
            .as_slice()
            .expect("failed to convert fvnsim to slice"),
        sim_to_qual_mapper,
    );

    let vnsim = fvnsim.mean().expect("Failed to compute nsim mean");

    moslqo = alter_for_similarity_extremes(vnsim, moslqo);
""", """    let vnsim = fvnsim.mean().expect("Failed to compute nsim mean");

    const ALIEN_THRESHOLD: f64 = 0.15;
    let moslqo = if vnsim >= ALIEN_THRESHOLD {
        let features = fvnsim
            .as_slice()
            .expect("failed to convert fvnsim to slice");
        predict_mos(features, sim_to_qual_mapper)
    } else {
        1.0
    };
"""), (VQ6, """fn alter_for_similarity_extremes(vnsim: f64, moslqo: f64) -> f64 {
    if vnsim < 0.15 {
        1.0
    } else {
        moslqo
    }
}

""", ""))
# manager
ok("mg-tuple-match", (MG6, """        let patch_creator: Box<dyn PatchCreator>;
        let sim_to_quality_mapper: Box<dyn SimilarityToQualityMapper>;
        match variant {
            Variant::Wideband {
                use_unscaled_mos_mapping,
            } => {
                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH));
                sim_to_quality_mapper = Box::new(SpeechSimilarityToQualityMapper::new(
                    !use_unscaled_mos_mapping,
                ));
            }
            Variant::Fullband { model_path } => {
                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO));
                sim_to_quality_mapper = Box::new(SvrSimilarityToQualityMapper::new(&model_path));
            }
        }
""", """        let (patch_creator, sim_to_quality_mapper) = Self::components_for(variant);
"""), (MG6, "    pub fn run(\n", """    fn components_for(
        variant: Variant,
    ) -> (Box<dyn PatchCreator>, Box<dyn SimilarityToQualityMapper>) {
        match variant {
            Variant::Fullband { model_path } => (
                Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO)),
                Box::new(SvrSimilarityToQualityMapper::new(model_path.as_str())),
            ),
            Variant::Wideband {
                use_unscaled_mos_mapping: unscaled,
            } => {
                let mapper = SpeechSimilarityToQualityMapper::new(!unscaled);
                (
                    Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH)),
                    Box::new(mapper),
                )
            }
        }
    }

    pub fn run(
"""))
ok("mg-validate-match", (MG6, """        if ref_signal.sample_rate != deg_signal.sample_rate {
            return Err(VisqolError::DifferentSampleRates {
                reference: ref_signal.sample_rate,
                degraded: deg_signal.sample_rate,
            });
        }

        if (ref_signal.get_duration() - deg_signal.get_duration()).abs()
            > constants::DURATION_MISMATCH_TOLERANCE
        {
            log::warn!("Mismatch in duration between reference and degraded signal. Reference is {} seconds. Degraded is {} seconds.", ref_signal.get_duration(), deg_signal.get_duration());
        }
        Ok(())
""", """        let (reference, degraded) = (ref_signal.sample_rate, deg_signal.sample_rate);
        let durations = [ref_signal, deg_signal].map(|signal| signal.get_duration());

        let mismatch = (durations[0] - durations[1]).abs();
        match reference == degraded {
            false => Err(VisqolError::DifferentSampleRates {
                reference,
                degraded,
            }),
            true => {
                if mismatch > constants::DURATION_MISMATCH_TOLERANCE {
                    log::warn!("Mismatch in duration between reference and degraded signal. Reference is {} seconds. Degraded is {} seconds.", durations[0], durations[1]);
                }
                Ok(())
            }
        }
"""))
ok("mg-run-and-then", (MG6, """        Self::validate_input_audio(&ref_signal, &deg_signal)?;

        self.compute_results(&mut ref_signal, &mut deg_signal)
""", """        match Self::validate_input_audio(&ref_signal, &deg_signal) {
            Ok(()) => self.compute_results(&mut ref_signal, &mut deg_signal),
            Err(error) => Err(error.into()),
        }
"""))
ok("mg-align-let-else", (MG6, """        let (mut deg_signal, _) = alignment::globally_align(ref_signal, deg_signal)
            .ok_or(VisqolError::FailedToAlignSignals)?;
""", """        let Some((mut aligned_signal, _lag)) = alignment::globally_align(ref_signal, deg_signal)
        else {
            return Err(Box::new(VisqolError::FailedToAlignSignals));
        };
"""), (MG6, "            &mut deg_signal,\n            &mut self.spectrogram_builder", "            &mut aligned_signal,\n            &mut self.spectrogram_builder"))
# nsim
ok("ns-const-window", (NS6, """        let window = arr2(&[
            [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
            [0.0838251475442633, 0.619485845753726, 0.0838251475442633],
            [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
        ]);

        let k = [0.01, 0.03];
        let c1 = (k[0] * self.intensity_range).powf(2.0);
        let c3 = (k[1] * self.intensity_range).powf(2.0) / 2.0;
""", """        const CORNER: f64 = 0.0113033910173052;
        const EDGE: f64 = 0.0838251475442633;
        const CENTER: f64 = 0.619485845753726;
        let window = arr2(&[
            [CORNER, EDGE, CORNER],
            [EDGE, CENTER, EDGE],
            [CORNER, EDGE, CORNER],
        ]);

        let c1 = (0.01 * self.intensity_range).powi(2);
        let c3 = 0.5 * (0.03 * self.intensity_range).powi(2);
"""))
ok("ns-zip-structure", (NS6, """        let structure_numerator = &sigma_r_d + c3;
        let mut structure_denominator = &sigma_ref_squared * &sigma_deg_squared;

        // Avoid nans
        structure_denominator.map_inplace(|element| {
            *element = if *element < 0.0 {
                c3
            } else {
                element.sqrt() + c3
            }
        });

        let structure = &structure_numerator / &structure_denominator;
""", """        let mut structure = sigma_r_d;
        ndarray::Zip::from(&mut structure)
            .and(&sigma_ref_squared)
            .and(&sigma_deg_squared)
            .for_each(|s, &vr, &vd| {
                let product = vr * vd;
                let root = if product < 0.0 { 0.0 } else { product.sqrt() };
                *s = (*s + c3) / (root + c3);
            });
"""))
ok("ns-moments-fn", (NS6, """        let mut ref_neuro_sq = ref_patch.clone() * ref_patch.clone();
        let mut deg_neuro_sq = deg_patch.clone() * deg_patch.clone();

        // Compute sigmas
        let conv2_ref_neuro_squared =
            perform_valid_2d_conv_with_boundary(&window, &mut ref_neuro_sq);
        let sigma_ref_squared = &conv2_ref_neuro_squared - &ref_mu_squared;

        let conv2_deg_neuro_squared =
            perform_valid_2d_conv_with_boundary(&window, &mut deg_neuro_sq);
        let sigma_deg_squared = &conv2_deg_neuro_squared - &deg_mu_squared;

        let mut ref_neuro_deg = ref_patch.clone() * deg_patch.clone();
        let conv2_ref_neuro_deg = perform_valid_2d_conv_with_boundary(&window, &mut ref_neuro_deg);

        let sigma_r_d = &conv2_ref_neuro_deg - &mu_r_mu_d;
""", """        let covariance = |a: &ndarray::Array2<f64>,
                          b: &ndarray::Array2<f64>,
                          product_of_means: &ndarray::Array2<f64>| {
            let mut product = a * b;
            perform_valid_2d_conv_with_boundary(&window, &mut product) - product_of_means
        };
        let sigma_ref_squared = covariance(ref_patch, ref_patch, &ref_mu_squared);
        let sigma_deg_squared = covariance(deg_patch, deg_patch, &deg_mu_squared);
        let sigma_r_d = covariance(ref_patch, deg_patch, &mu_r_mu_d);
"""))
ok("ns-rows-stat", (NS6, """        let freq_band_deg_energy: Array1<f64> = deg_patch
            .mean_axis(Axis(1))
            .expect("Failed to compute mean for degraded signal!");
        let freq_band_means: Array1<f64> = sim_map
            .mean_axis(Axis(1))
            .expect("Failed to compute mean for similarity map!");
""", """        let num_frames = deg_patch.ncols() as f64;
        let freq_band_deg_energy: Array1<f64> = deg_patch.sum_axis(Axis(1)) / num_frames;
        let freq_band_means: Array1<f64> = sim_map.sum_axis(Axis(1)) / num_frames;
"""))
# spectrogram
ok("sp-db-loop", (SP6, """        let sample_to_db = |element: f64| {
            let sample: f64 = if element == 0.0 {
                f64::EPSILON
            } else {
                element.abs()
            };
            10.0 * (sample.log10())
        };
        self.data.mapv_inplace(sample_to_db);
""", """        for element in self.data.iter_mut() {
            let magnitude = match *element == 0.0 {
                true => f64::EPSILON,
                false => element.abs(),
            };
            *element = magnitude.log10() * 10.0;
        }
"""))
ok("sp-frames-zip", (SP6, """        let min_columns = self.data.ncols().min(other.data.ncols());

        for index in 0..min_columns {
            let our_frame = &mut self.data.index_axis_mut(Axis(1), index);
            let other_frame = &mut other.data.index_axis_mut(Axis(1), index);
            let our_max = our_frame
""", """        for (mut our_frame, mut other_frame) in self
            .data
            .axis_iter_mut(Axis(1))
            .zip(other.data.axis_iter_mut(Axis(1)))
        {
            let our_max = our_frame
"""))
ok("sp-frames-columns", (SP6, """        let min_columns = self.data.ncols().min(other.data.ncols());

        for index in 0..min_columns {
            let our_frame = &mut self.data.index_axis_mut(Axis(1), index);
            let other_frame = &mut other.data.index_axis_mut(Axis(1), index);
            let our_max = our_frame
                .max()
                .expect("Failed to raise level for spectrogram!");
            let other_max = other_frame
                .max()
                .expect("Failed to raise level for spectrogram!");
            let any_max = our_max.max(*other_max);
            let floor_db = any_max - noise_threshold;
            our_frame.mapv_inplace(|element| floor_db.max(element));
            other_frame.mapv_inplace(|element| floor_db.max(element));
        }
""", """        let loudest = |data: &Array2<f64>, index: usize| {
            *data
                .column(index)
                .max()
                .expect("Failed to raise level for spectrogram!")
        };
        for index in 0..self.data.ncols().min(other.data.ncols()) {
            let floor_db =
                loudest(&self.data, index).max(loudest(&other.data, index)) - noise_threshold;
            for data in [&mut self.data, &mut other.data] {
                data.column_mut(index)
                    .iter_mut()
                    .for_each(|element| *element = element.max(floor_db));
            }
        }
"""))
# filterbank
ok("gf-stage-loop", (GF6, """            // 1st filter
            let mut filter_result = signal_filter::filter_signal(
                &a1,
                &b,
                input_signal,
                &mut self.filter_conditions_1[band],
            );
            self.filter_conditions_1[band] = filter_result.final_conditions;

            // 2nd filter
            filter_result = signal_filter::filter_signal(
                &a2,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_2[band],
            );
            self.filter_conditions_2[band] = filter_result.final_conditions;

            // 3rd filter
            filter_result = signal_filter::filter_signal(
                &a3,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_3[band],
            );
            self.filter_conditions_3[band] = filter_result.final_conditions;

            // 4th filter
            filter_result = signal_filter::filter_signal(
                &a4,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_4[band],
            );
            self.filter_conditions_4[band] = filter_result.final_conditions;

            for i in 0..filter_result.filtered_signal.len() {
                output.row_mut(band)[i] = filter_result.filtered_signal[i];
            }
""", """            let stages = [
                (&a1, &mut self.filter_conditions_1[band]),
                (&a2, &mut self.filter_conditions_2[band]),
                (&a3, &mut self.filter_conditions_3[band]),
                (&a4, &mut self.filter_conditions_4[band]),
            ];
            let mut signal = input_signal.to_vec();
            for (numerator, conditions) in stages {
                let stage = signal_filter::filter_signal(numerator, &b, &signal, conditions);
                *conditions = stage.final_conditions;
                signal = stage.filtered_signal;
            }

            for (out, sample) in output.row_mut(band).iter_mut().zip(&signal) {
                *out = *sample;
            }
"""))
ok("gf-run-stage-fn", (GF6, """            // 1st filter
            let mut filter_result = signal_filter::filter_signal(
                &a1,
                &b,
                input_signal,
                &mut self.filter_conditions_1[band],
            );
            self.filter_conditions_1[band] = filter_result.final_conditions;
""", """            // 1st filter
            let first_stage = run_stage(&a1, &b, input_signal, &mut self.filter_conditions_1[band]);
"""), (GF6, """            filter_result = signal_filter::filter_signal(
                &a2,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_2[band],
            );
            self.filter_conditions_2[band] = filter_result.final_conditions;
""", """            let second_stage = run_stage(&a2, &b, &first_stage, &mut self.filter_conditions_2[band]);
"""), (GF6, """            filter_result = signal_filter::filter_signal(
                &a3,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_3[band],
            );
            self.filter_conditions_3[band] = filter_result.final_conditions;
""", """            let third_stage = run_stage(&a3, &b, &second_stage, &mut self.filter_conditions_3[band]);
"""), (GF6, """            filter_result = signal_filter::filter_signal(
                &a4,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_4[band],
            );
            self.filter_conditions_4[band] = filter_result.final_conditions;

            for i in 0..filter_result.filtered_signal.len() {
                output.row_mut(band)[i] = filter_result.filtered_signal[i];
            }
""", """            let fourth_stage = run_stage(&a4, &b, &third_stage, &mut self.filter_conditions_4[band]);

            output
                .row_mut(band)
                .assign(&ndarray::ArrayView1::from(&fourth_stage[..]));
"""), (GF6, "impl<const NUM_BANDS: usize> GammatoneFilterbank<NUM_BANDS> {", """/// Runs one second order section and keeps its state for the next block
fn run_stage(
    numerator: &[f64; 3],
    denominator: &[f64; 3],
    input: &[f64],
    state: &mut [f64; constants::NUM_FILTER_CONDITIONS],
) -> Vec<f64> {
    let result = signal_filter::filter_signal(numerator, denominator, input, state);
    *state = result.final_conditions;
    result.filtered_signal
}

impl<const NUM_BANDS: usize> GammatoneFilterbank<NUM_BANDS> {"""))
ok("gf-literal-coeffs", (GF6, """            a1[0] = self.filter_coeff_a0[band] / self.filter_coeff_gain[band];
            a1[1] = self.filter_coeff_a11[band] / self.filter_coeff_gain[band];
            a1[2] = self.filter_coeff_a2[band] / self.filter_coeff_gain[band];
""", """            let gain = self.filter_coeff_gain[band];
            a1 = [
                self.filter_coeff_a0[band],
                self.filter_coeff_a11[band],
                self.filter_coeff_a2[band],
            ]
            .map(|coefficient| coefficient / gain);
"""))
ok("gf-state-array", (GF6, """        self.filter_conditions_1 = [[0.0, 0.0]; NUM_BANDS];
        self.filter_conditions_2 = [[0.0, 0.0]; NUM_BANDS];
        self.filter_conditions_3 = [[0.0, 0.0]; NUM_BANDS];
        self.filter_conditions_4 = [[0.0, 0.0]; NUM_BANDS];
""", """        for conditions in [
            &mut self.filter_conditions_1,
            &mut self.filter_conditions_2,
            &mut self.filter_conditions_3,
            &mut self.filter_conditions_4,
        ] {
            for state in conditions.iter_mut() {
                *state = Default::default();
            }
        }
"""))
# builder
ok("gb-frame-fn", (GB6, """            self.filter_bank.reset_filter_conditions();
            let mut filtered_signal = self.filter_bank.apply_filter(
                frame
                    .as_slice()
                    .expect("Failed to convert audio frame to slice"),
            );

            filtered_signal.map_inplace(|e| *e = *e * *e);

            let mut row_means = filtered_signal
                .mean_axis(Axis(1))
                .expect("Failed to compute means for gammatone spectrogram!");

            row_means.map_inplace(|e| {
                *e = e.sqrt();
            });

            for j in 0..row_means.to_vec().len() {
                out_matrix[(j, index)] = row_means[j];
            }
""", """            let samples = frame
                .as_slice()
                .expect("Failed to convert audio frame to slice");
            let levels = self.band_levels(samples);
            for (band, level) in levels.into_iter().enumerate() {
                out_matrix[[band, index]] = level;
            }
"""), (GB6, "    const SPEECH_MODE_MAX_FREQ: u32 = 8000;\n", """    const SPEECH_MODE_MAX_FREQ: u32 = 8000;

    /// Root mean square of every band of one frame, filtered from rest
    fn band_levels(&mut self, frame: &[f64]) -> Vec<f64> {
        self.filter_bank.reset_filter_conditions();
        let filtered = self.filter_bank.apply_filter(frame);
        filtered
            .axis_iter(Axis(0))
            .map(|band| {
                let power = band.iter().map(|sample| sample * sample).sum::<f64>();
                (power / band.len() as f64).sqrt()
            })
            .collect()
    }
"""))
ok("gb-slice-frames", (GB6, """        for (index, frame) in time_domain_signal
            .windows(window.size)
            .into_iter()
            .step_by(hop_size)
            .enumerate()
        {
            self.filter_bank.reset_filter_conditions();
            let mut filtered_signal = self.filter_bank.apply_filter(
                frame
                    .as_slice()
                    .expect("Failed to convert audio frame to slice"),
            );
""", """        let samples = time_domain_signal
            .as_slice()
            .expect("Failed to convert audio frame to slice");
        for (index, mut column) in out_matrix.columns_mut().into_iter().enumerate() {
            let start = index * hop_size;
            self.filter_bank.reset_filter_conditions();
            let mut filtered_signal = self
                .filter_bank
                .apply_filter(&samples[start..start + window.size]);
"""), (GB6, """            for j in 0..row_means.to_vec().len() {
                out_matrix[(j, index)] = row_means[j];
            }
""", """            column.assign(&row_means);
"""))
ok("gb-coeff-fn", (GB6, """        // get gammatone coefficients
        let (mut filter_coeffs, mut center_freqs) =
            equivalent_rectangular_bandwidth::make_filters::<NUM_BANDS>(
                sample_rate as usize,
                self.filter_bank.min_freq,
                max_freq as f64,
            );
        filter_coeffs.invert_axis(Axis(0));
        self.filter_bank.set_filter_coefficients(&filter_coeffs);
        self.filter_bank.reset_filter_conditions();

        let hop_size = (window.size as f64 * window.overlap) as usize;
""", """        let mut center_freqs = self.configure(sample_rate, max_freq);

        let hop_size = (window.size as f64 * window.overlap) as usize;
"""), (GB6, "    const SPEECH_MODE_MAX_FREQ: u32 = 8000;\n", """    const SPEECH_MODE_MAX_FREQ: u32 = 8000;

    /// Designs the filters and hands them to the filter bank, returns their center frequencies
    fn configure(&mut self, sample_rate: u32, max_freq: u32) -> Vec<f64> {
        let low = self.filter_bank.min_freq;
        let (mut filter_coeffs, center_freqs) =
            equivalent_rectangular_bandwidth::make_filters::<NUM_BANDS>(
                sample_rate as usize,
                low,
                f64::from(max_freq),
            );
        filter_coeffs.invert_axis(Axis(0));
        self.filter_bank.reset_filter_conditions();
        self.filter_bank.set_filter_coefficients(&filter_coeffs);
        center_freqs
    }
"""))
# vad
ok("vp-enumerate", (VP6, """        let mut patch_idx = first_patch_idx;

        for patch in &vad_result.iter().chunks(self.patch_size) {
            let frames_with_va = patch.sum::<f64>();

            if frames_with_va >= self.frames_with_va_threshold {
                ref_patch_indices.push(patch_idx);
            }
            patch_idx += self.patch_size;
        }
""", """        for (number, patch) in vad_result.chunks(self.patch_size).enumerate() {
            let frames_with_va: f64 = patch.iter().sum();
            if frames_with_va < self.frames_with_va_threshold {
                continue;
            }
            ref_patch_indices.push(first_patch_idx + number * self.patch_size);
        }
"""), (VP6, "use itertools::Itertools;\n", ""))
ok("vp-quantise-fn", (VP6, """            let mut scaled_val = ((*patch_element * ((1 << 15) as f64)) as i16) as f64;
            scaled_val = (-(1 << 15) as f64)
                .max(1.0 * ((1 << 15) - 1) as f64)
                .min(scaled_val);
            frame.push(scaled_val as i16);
""", """            frame.push(quantise(*patch_element));
"""), (VP6, "impl VadPatchCreator {", """/// Converts a sample to 16 bit, saturating at the limits
fn quantise(sample: f64) -> i16 { (sample * 32768.0) as i16 }

impl VadPatchCreator {"""))
ok("vp-chunks-exact", (VP6, """        let mut frame = Vec::<i16>::with_capacity(frame_length);
        for patch_element in patch {
            let mut scaled_val = ((*patch_element * ((1 << 15) as f64)) as i16) as f64;
            scaled_val = (-(1 << 15) as f64)
                .max(1.0 * ((1 << 15) - 1) as f64)
                .min(scaled_val);
            frame.push(scaled_val as i16);

            if frame.len() == frame_length {
                vad.process_chunk(&frame);
                frame.clear();
            }
        }
""", """        for samples in patch.chunks_exact(frame_length) {
            let frame = samples
                .iter()
                .map(|sample| (*sample * 32768.0) as i16)
                .collect::<Vec<i16>>();
            vad.process_chunk(&frame);
        }
"""))
ok("rv-window-all", (RV6, """        let mut previous_chunks_silent = true;
        for j in 1..self.silent_chunk_count {
            if self.results_per_chunk[idx - j] == self.voice_activity_present {
                previous_chunks_silent = false;
                break;
            }
        }
        previous_chunks_silent
""", """        let history = &self.results_per_chunk[idx + 1 - self.silent_chunk_count..*idx];
        !history
            .iter()
            .any(|&result| result == self.voice_activity_present)
"""))
ok("rv-extend", (RV6, """        let mut vad_results = vec![1.0; self.silent_chunk_count - 1];

        for i in self.silent_chunk_count - 1..self.results_per_chunk.len() {
            if self.results_per_chunk[i] == 0.0 && self.check_previous_chunks_for_silence(&i) {
                vad_results.push(self.voice_activity_absent);
            } else {
                vad_results.push(self.voice_activity_present);
            }
        }
        vad_results
""", """        let lead_in = self.silent_chunk_count - 1;
        let mut vad_results = vec![1.0; lead_in];
        vad_results.extend((lead_in..self.results_per_chunk.len()).map(|i| {
            let silent =
                self.results_per_chunk[i] == 0.0 && self.check_previous_chunks_for_silence(&i);
            if silent {
                self.voice_activity_absent
            } else {
                self.voice_activity_present
            }
        }));
        vad_results
"""))
# alignment
ok("al-match-sign", (AL6, """        let mut new_deg_matrix = deg_signal.data_matrix.clone();
        // align degraded matrix
        if best_lag < 0 {
            new_deg_matrix = new_deg_matrix
                .slice(s![
                    best_lag.unsigned_abs() as usize..deg_signal.data_matrix.len()
                ])
                .to_owned();
        } else {
            let zeros = Array1::<f64>::zeros(best_lag as usize);
            new_deg_matrix = concatenate(Axis(0), &[zeros.view(), new_deg_matrix.view()])
                .expect("Failed to zero pad degraded matrix!");
        }

        let new_deg_signal = AudioSignal::new(
            new_deg_matrix
                .as_slice()
                .expect("Failed to create AudioSignal from slice!"),
            deg_signal.sample_rate,
        );
        Some((
            new_deg_signal,
            (best_lag as f64 / deg_signal.sample_rate as f64),
        ))
""", """        let samples = deg_signal.data_matrix.as_slice()?;
        let shift = best_lag.unsigned_abs() as usize;
        let shifted = match best_lag.is_negative() {
            true => samples[shift..].to_vec(),
            false => {
                let mut padded = vec![0.0; shift];
                padded.extend_from_slice(samples);
                padded
            }
        };
        let lag_in_seconds = best_lag as f64 / deg_signal.sample_rate as f64;
        Some((
            AudioSignal::new(&shifted, deg_signal.sample_rate),
            lag_in_seconds,
        ))
"""))
ok("al-truncate-if", (AL6, """        std::cmp::Ordering::Less => {
            // For positive lag, the beginning of ref is now padded with zeros, so
            // that amount should be truncated.
            new_ref_matrix = new_ref_matrix
                .slice(s![
                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
                ])
                .to_owned();
            new_deg_matrix = new_deg_matrix
                .slice(s![
                    (lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()
                ])
                .to_owned();
        }
""", """        std::cmp::Ordering::Less => {
            let end = ref_signal.len();
            let ref_start = (lag * ref_signal.sample_rate as f64) as usize;
            let deg_start = (lag * deg_signal.sample_rate as f64) as usize;
            new_deg_matrix = new_deg_matrix.slice_move(s![deg_start..end]);
            new_ref_matrix = new_ref_matrix.slice_move(s![ref_start..end]);
        }
"""))
ok("xc-chain", (XC6, """    // Negative errors
    let mut corrs = point_wise_fft_vec[point_wise_fft_vec.len() - max_lag as usize..].to_vec();
    // Positive errors
    let mut positives = point_wise_fft_vec[0..max_lag as usize + 1].to_vec();

    corrs.append(&mut positives);
""", """    let negative_start = point_wise_fft_vec.len() - max_lag as usize;
    let corrs: Vec<f64> = point_wise_fft_vec[negative_start..]
        .iter()
        .chain(&point_wise_fft_vec[..=max_lag as usize])
        .copied()
        .collect();
"""))
ok("en-hilbert-collect", (EN6, """    let mut element_wise_product = Array1::<Complex64>::zeros(freq_domain_signal.len());

    for i in 0..freq_domain_signal.len() {
        element_wise_product[i] = freq_domain_signal[i] * hilbert_scaling[i];
    }
""", """    let element_wise_product: Array1<Complex64> = freq_domain_signal
        .iter()
        .zip(hilbert_scaling.iter())
        .map(|(value, scale)| value * scale)
        .collect();
"""))
# image / wav / filter
ok("ip-zip-steps", (IP6, """        for i in (init_patch_index..max_index).step_by(self.patch_size) {
            ref_patch_indices.push(i - 1);
        }
""", """        let mut i = init_patch_index;
        loop {
            if i >= max_index {
                break;
            }
            ref_patch_indices.push(i - 1);
            i += self.patch_size;
        }
"""))
ok("ip-patch-helper", (IP6, """        let mut end_col: usize;

        let mut patches = Vec::<Array2<f64>>::new();

        let mut patch: Array2<f64>;

        for start_col in patch_indices {
            end_col = start_col + self.patch_size;
            patch = spectrogram.slice(s![.., *start_col..end_col]).to_owned();
            patches.push(patch);
        }
        patches
""", """        patch_indices
            .iter()
            .map(|&start| cut(spectrogram, start, self.patch_size))
            .collect()
"""), (IP6, "impl ImagePatchCreator {", """/// Copies `width` columns of `spectrogram`, starting at `start`
fn cut(spectrogram: &Array2<f64>, start: usize, width: usize) -> Array2<f64> {
    spectrogram.slice(s![.., start..start + width]).to_owned()
}

impl ImagePatchCreator {"""))
ok("wr-match-bits", (WR6, """        if spec.bits_per_sample != 16 {
            return Err(Box::new(visqol_error::VisqolError::InvalidBitsPerSample {
                bits_per_sample: spec.bits_per_sample,
            }));
        }

        let samples: Vec<i32> = reader.samples::<i32>().collect::<Result<_, _>>()?;
        let samples_quantized = samples.iter().map(|&e| e as i16).collect();

        Ok(Self {
            num_channels: spec.channels,
            sample_rate: spec.sample_rate,
            samples: samples_quantized,
        })
""", """        match spec.bits_per_sample {
            16 => {
                let samples = reader
                    .samples::<i32>()
                    .map(|sample| sample.map(|value| value as i16))
                    .collect::<Result<Vec<i16>, hound::Error>>()?;
                Ok(Self {
                    samples,
                    sample_rate: spec.sample_rate,
                    num_channels: spec.channels,
                })
            }
            bits_per_sample => {
                Err(visqol_error::VisqolError::InvalidBitsPerSample { bits_per_sample }.into())
            }
        }
"""))
ok("sf-push", (SF6, """    let mut filtered_signal = vec![0.0f64; signal.len()];

    filtered_signal
        .iter_mut()
        .zip(signal)
        .for_each(|(filtered_element, signal_element)| {
            *filtered_element = numerator_coeffs[0] * *signal_element + init_conditions[0];

            init_conditions[0] = numerator_coeffs[1] * signal_element + init_conditions[1]
                - denom_coeffs[1] * *filtered_element;
            init_conditions[1] =
                numerator_coeffs[2] * signal_element - denom_coeffs[2] * *filtered_element;
        });

    FilterResults {
        filtered_signal,
        final_conditions: [init_conditions[0], init_conditions[1]],
    }
""", """    let mut filtered_signal = Vec::with_capacity(signal.len());
    let mut state = [init_conditions[0], init_conditions[1]];

    for &x in signal {
        let y = numerator_coeffs[0] * x + state[0];
        state = [
            numerator_coeffs[1] * x + state[1] - denom_coeffs[1] * y,
            numerator_coeffs[2] * x - denom_coeffs[2] * y,
        ];
        filtered_signal.push(y);
    }
    init_conditions[..2].copy_from_slice(&state);

    FilterResults {
        filtered_signal,
        final_conditions: state,
    }
"""))
# audio utils / math / fft
ok("au-prep-pairs", (AU6, """    reference.convert_to_db();
    degraded.convert_to_db();
    reference.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
    degraded.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);

    reference.raise_floor_per_frame(NOISE_FLOOR_RELATIVE_TO_PEAK_DB, degraded);

    let ref_floor = reference.get_minimum();
    let deg_floor = degraded.get_minimum();
    let lowest_floor = ref_floor.min(deg_floor);

    reference.subtract_floor(lowest_floor);

    degraded.subtract_floor(lowest_floor);
""", """    for spectrogram in [&mut *reference, &mut *degraded] {
        spectrogram.convert_to_db();
        spectrogram.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
    }

    degraded.raise_floor_per_frame(NOISE_FLOOR_RELATIVE_TO_PEAK_DB, reference);

    let lowest_floor = f64::min(degraded.get_minimum(), reference.get_minimum());
    for spectrogram in [reference, degraded] {
        spectrogram.subtract_floor(lowest_floor);
    }
"""))
ok("au-spl-match", (AU6, """    let scale_factor = if deg_spl.is_finite() {
        10.0f64.powf((ref_spl - deg_spl) / 20.0)
    } else {
        1.0
    };
    let scaled_mat = degraded.data_matrix.clone() * scale_factor;
    AudioSignal::new(
        scaled_mat
            .as_slice()
            .expect("Failed to create AudioSignal from slice!"),
        degraded.sample_rate,
    )
""", """    let scale_factor = match deg_spl.is_finite() {
        false => 1.0,
        true => {
            let difference_db = ref_spl - deg_spl;
            10.0f64.powf(difference_db / 20.0)
        }
    };
    AudioSignal {
        data_matrix: &degraded.data_matrix * scale_factor,
        sample_rate: degraded.sample_rate,
    }
"""))
ok("au-mono-chunks", (AU6, """    let data_vector_float = math_utils::normalize_int16_to_double(&wav_reader.samples);
    let final_signal = extract_multichannel(wav_reader.num_channels as usize, &data_vector_float);

    let final_signal = to_mono_matrix(&final_signal);

    Ok(AudioSignal {
        data_matrix: final_signal / wav_reader.num_channels as f64,
        sample_rate: wav_reader.sample_rate,
    })
""", """    let WavFile {
        num_channels,
        sample_rate,
        samples,
    } = wav_reader;

    let channels = extract_multichannel(
        usize::from(num_channels),
        &math_utils::normalize_int16_to_double(&samples),
    );
    let mut data_matrix = to_mono_matrix(&channels);
    data_matrix /= f64::from(num_channels);

    Ok(AudioSignal {
        data_matrix,
        sample_rate,
    })
"""))
ok("mu-normalize-map", (MU6, """    let normalized_mat = signal.clone();
    let max = get_max(signal);
    normalized_mat / max
""", """    let max = get_max(signal);
    signal.iter().map(|sample| sample / max).collect()
"""))
ok("ff-inverse-new", (FF6, """    let mut out_vec = vec![Complex64::zero(); fft_manager.samples_per_channel];
    for (i, elem) in out_vec.iter_mut().enumerate() {
        elem.re = temp_time_buffer[i];
    }
    out_vec
""", """    temp_time_buffer
        .into_iter()
        .take(fft_manager.samples_per_channel)
        .map(|re| Complex64::new(re, 0.0))
        .collect()
"""))
ok("fm-buffer-fn", (FM6, """        if time_channel.len() == self.fft_size {
            let mut complex_time_domain =
                audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
            let mut scratch_buffer =
                vec![Complex64::zero(); real_to_complex.get_outofplace_scratch_len()];
            real_to_complex.process_outofplace_with_scratch(
                &mut complex_time_domain[..],
                freq_channel,
                &mut scratch_buffer[..],
            );
        } else {
            time_channel.resize(self.fft_size, 0.0f64);
            let mut complex_time_domain =
                audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
            let mut scratch_buffer =
                vec![Complex64::zero(); real_to_complex.get_outofplace_scratch_len()];
            real_to_complex.process_outofplace_with_scratch(
                &mut complex_time_domain[..],
                &mut freq_channel[..],
                &mut scratch_buffer[..],
            );
        }
""", """        if time_channel.len() != self.fft_size {
            time_channel.resize(self.fft_size, 0.0);
        }
        let mut input = audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
        let scratch_length = real_to_complex.get_outofplace_scratch_len();
        let mut scratch = vec![Complex64::zero(); scratch_length];
        real_to_complex.process_outofplace_with_scratch(&mut input, freq_channel, &mut scratch);
"""))
# erb
ok("er-freqs-map", (ER6, """    let a = -(EAR_Q * MIN_BW);
    let b = -((high_freq + EAR_Q * MIN_BW).ln());
    let c = (low_freq + EAR_Q * MIN_BW).ln();
    let d = high_freq + EAR_Q * MIN_BW;
    let e = (b + c) / NUM_BANDS as f64;
    let mut coefficients = [0.0; NUM_BANDS];
    for (i, coefficient) in coefficients.iter_mut().enumerate() {
        let f = ((i as f64 + 1.0) * e).exp() * d;
        *coefficient = a + f;
    }
    coefficients
""", """    let offset = EAR_Q * MIN_BW;
    let top = high_freq + offset;
    let step = ((low_freq + offset).ln() - top.ln()) / NUM_BANDS as f64;
    std::array::from_fn(|i| top * ((i as f64 + 1.0) * step).exp() - offset)
"""))
ok("er-matrix-row", (ER6, """        vf_coeffs[(i, 0)] = A0[i];
        vf_coeffs[(i, 1)] = A11[i].re;
        vf_coeffs[(i, 2)] = A12[i].re;
        vf_coeffs[(i, 3)] = A13[i].re;
        vf_coeffs[(i, 4)] = A14[i].re;
        vf_coeffs[(i, 5)] = A2[i];
        vf_coeffs[(i, 6)] = B0[i];
        vf_coeffs[(i, 7)] = B1[i].re;
        vf_coeffs[(i, 8)] = B2[i].re;
        vf_coeffs[(i, 9)] = gain[i];
""", """        let row = [
            A0[i], A11[i].re, A12[i].re, A13[i].re, A14[i].re, A2[i], B0[i], B1[i].re, B2[i].re, gain[i],
        ];
        for (j, value) in row.iter().enumerate() {
            vf_coeffs[(i, j)] = *value;
        }
"""))
ok("er-pole-fn", (ER6, """    let mut A11 = vec![Complex64::zero(); a.len()];
    A11.iter_mut()
        .enumerate()
        .for_each(|(i, element)| *element = -(a[i] / exp_bt[i] + bPos[i] / exp_bt[i]) / 2.0f64);

    let mut A12 = vec![Complex64::zero(); a.len()];
    A12.iter_mut()
        .enumerate()
        .for_each(|(i, element)| *element = -(a[i] / exp_bt[i] - bPos[i] / exp_bt[i]) / 2.0f64);
""", """    let zeros_of = |sign: f64, shift: &[Complex64]| -> Vec<Complex64> {
        (0..a.len())
            .map(|i| -(a[i] / exp_bt[i] + sign * shift[i] / exp_bt[i]) / 2.0f64)
            .collect()
    };
    let A11 = zeros_of(1.0, &bPos);
    let A12 = zeros_of(-1.0, &bPos);
"""))
# mappers
ok("sv-chain", (SV6, """        let solution = self.model.predict(similarity_vector);
        solution.clamp(1.0, 5.0)
""", """        const MOS_RANGE: (f64, f64) = (1.0, 5.0);
        self.model
            .predict(similarity_vector)
            .max(MOS_RANGE.0)
            .min(MOS_RANGE.1)
"""))
ok("svm-enumerate-zip", (SVM6, """        for (i, element) in observation.iter().enumerate() {
            features[i] = *element as f32;
        }
""", """        for i in 0..observation.len() {
            features[i] = observation[i] as f32;
        }
"""), (SVM6, """        let mut score = 0.0;
        if let Label::Value(s) = solution {
            score = s;
        }
        score as f64
""", """        match solution {
            Label::Value(score) => f64::from(score),
            _ => 0.0,
        }
"""))
ok("sm-inline-fit", (SM6, """        let nsim_mean = similarity_vector.iter().sum::<f64>() / (similarity_vector.len() as f64);
        let mos = math_utils::exponential_from_fit(
            nsim_mean,
            FIT_PARAMETER_A,
            FIT_PARAMETER_B,
            FIT_PARAMETER_X0,
        );

        let scale = if self.scale_max_to_mos {
            FIT_SCALE
        } else {
            1.0
        };

        (mos * scale).clamp(1.0, 5.0)
""", """        let total: f64 = similarity_vector.iter().copied().sum();
        let nsim_mean = total / similarity_vector.len() as f64;
        let mut mos = math_utils::exponential_from_fit(
            nsim_mean,
            FIT_PARAMETER_A,
            FIT_PARAMETER_B,
            FIT_PARAMETER_X0,
        );
        if self.scale_max_to_mos {
            mos *= FIT_SCALE;
        }
        mos.max(1.0).min(5.0)
"""))
# convolution
ok("cv-pad-clamp", (CV6, """    let mut output_matrix = copy_matrix_within_padding(input_matrix, 1, 1, 1, 1);

    for i in 0..output_matrix.ncols() {
        output_matrix.row_mut(0)[i] = output_matrix.row(1)[i];
        output_matrix.row_mut(output_matrix.nrows() - 1)[i] =
            output_matrix.row(output_matrix.nrows() - 2)[i];
    }

    for i in 0..output_matrix.nrows() {
        output_matrix.column_mut(0)[i] = output_matrix.column_mut(1)[i];
        output_matrix.column_mut(output_matrix.ncols() - 1)[i] =
            output_matrix.column(output_matrix.ncols() - 2)[i];
    }
    output_matrix
""", """    let (rows, cols) = input_matrix.dim();
    Array2::from_shape_fn((rows + 2, cols + 2), |(row, col)| {
        let nearest_row = row.saturating_sub(1).min(rows - 1);
        let nearest_col = col.saturating_sub(1).min(cols - 1);
        input_matrix[(nearest_row, nearest_col)]
    })
"""))
# cli
ok("mn-run-map", (MN6, """    let mut results = Vec::<SimilarityResult>::with_capacity(path_pairs.len());
    for file_pair in path_pairs {
        let result = visqol.run(&file_pair.reference, &file_pair.degraded)?;
        results.push(result);
    }
    Ok(results)
""", """    path_pairs
        .iter()
        .map(|PathPair { reference, degraded }| visqol.run(reference, degraded))
        .collect()
"""))
ok("mn-compare-fn", (MN6, """    let variant: Variant;
    let mut visqol_speech: VisqolManager<NUM_BANDS_SPEECH>;
    let mut visqol_audio: VisqolManager<NUM_BANDS_AUDIO>;

    let results: Vec<SimilarityResult>;
    match &args.subcommand {
        command_line_utils::Subcommands::Wideband {
            use_unscaled_speech_mos_mapping,
        } => {
            variant = Variant::Wideband {
                use_unscaled_mos_mapping: *use_unscaled_speech_mos_mapping,
            };
            visqol_speech = VisqolManager::new(variant, args.search_window_radius);
            results = run(&files_to_compare, &mut visqol_speech)?;
        }
        command_line_utils::Subcommands::Fullband {
            similarity_to_quality_model,
        } => {
            variant = Variant::Fullband {
                model_path: similarity_to_quality_model.clone(),
            };
            visqol_audio = VisqolManager::new(variant, args.search_window_radius);
            results = run(&files_to_compare, &mut visqol_audio)?;
        }
    }

    output_utils::write_results(&args, &results, &files_to_compare);
    Ok(())
}
""", """    let results = compare_all(&args, &files_to_compare)?;

    output_utils::write_results(&args, &results, &files_to_compare);
    Ok(())
}

fn compare_all(
    args: &CommandLineArgs,
    files_to_compare: &Vec<PathPair>,
) -> Result<Vec<SimilarityResult>, Box<dyn Error>> {
    let radius = args.search_window_radius;
    match args.subcommand.clone() {
        command_line_utils::Subcommands::Wideband {
            use_unscaled_speech_mos_mapping: use_unscaled_mos_mapping,
        } => {
            let variant = Variant::Wideband {
                use_unscaled_mos_mapping,
            };
            run(
                files_to_compare,
                &mut VisqolManager::<NUM_BANDS_SPEECH>::new(variant, radius),
            )
        }
        command_line_utils::Subcommands::Fullband {
            similarity_to_quality_model: model_path,
        } => {
            let mut visqol =
                VisqolManager::<NUM_BANDS_AUDIO>::new(Variant::Fullband { model_path }, radius);
            run(files_to_compare, &mut visqol)
        }
    }
}
"""))
ok("cu-guard-clauses", (CU6, """    let mut file_pairs = Vec::<PathPair>::new();
    if let (Some(ref_file), Some(deg_file)) = (&args.reference_file, &args.degraded_file) {
        file_pairs.push(PathPair::new(ref_file, deg_file));
        Ok(file_pairs)
    } else if let Some(csv_file) = &args.batch_input_csv {
        read_files_to_compare(&PathBuf::from(csv_file))
    } else {
        Ok(file_pairs)
    }
""", """    let single_pair = args
        .reference_file
        .as_ref()
        .zip(args.degraded_file.as_ref());
    if let Some((reference, degraded)) = single_pair {
        return Ok(vec![PathPair::new(reference, degraded)]);
    }
    match args.batch_input_csv.as_deref() {
        Some(csv_file) => read_files_to_compare(&PathBuf::from(csv_file)),
        None => Ok(Vec::new()),
    }
"""))
ok("cu-records-map", (CU6, """    let header = StringRecord::from(vec!["reference", "degraded"]);
    while let Some(result) = reader.records().next() {
        let record = result?;
        let row: PathPair = record
            .deserialize(Some(&header))
            .expect("Failed to deserialize line in csv file!");
        file_paths.push(row);
    }
    Ok(file_paths)
""", """    let header = StringRecord::from(vec!["reference", "degraded"]);
    for record in reader.into_records() {
        let pair = record?
            .deserialize::<PathPair>(Some(&header))
            .expect("Failed to deserialize line in csv file!");
        file_paths.push(pair);
    }
    Ok(file_paths)
"""))
ok("ou-console-lines", (OU6, """    if args.verbose {
        println!("Reference Filepath:\\t {:}", file_pair.reference);
        println!("Degraded Filepath:\\t {:}", file_pair.degraded);
    }

    println!("MOS-LQO:\\t\\t{}", result.moslqo);

    if args.verbose {
        write_fvnsim_table(result);
        write_patch_similarity(result);
    }
""", """    let mos_line = format!("MOS-LQO:\\t\\t{}", result.moslqo);
    if !args.verbose {
        println!("{mos_line}");
        return;
    }
    println!("Reference Filepath:\\t {}", file_pair.reference);
    println!("Degraded Filepath:\\t {}", file_pair.degraded);
    println!("{mos_line}");
    write_fvnsim_table(result);
    write_patch_similarity(result);
"""))
ok("ou-write-order", (OU6, """    if let Some(json_output_path) = &args.output_debug {
        write_debug_json(json_output_path, results);
    }

    if let Some(csv_output_path) = &args.results_csv {
        write_results_to_csv(csv_output_path, results, file_pairs);
    }
""", """    if let Some(csv_output_path) = args.results_csv.as_ref() {
        write_results_to_csv(csv_output_path, results, file_pairs);
    }

    match args.output_debug.as_ref() {
        Some(json_output_path) => write_debug_json(json_output_path, results),
        None => (),
    }
"""))
ok("ou-row-fn", (OU6, """        let patch_idx_str = &idx.to_string()[..];
        let similarity = &patch_sim.similarity.to_string()[..];
        let ref_info = patch_sim.ref_patch_start_time.to_string()
            + "  -   "
            + &patch_sim.ref_patch_end_time.to_string()[..];
        let deg_info = patch_sim.deg_patch_start_time.to_string()
            + "  -   "
            + &patch_sim.deg_patch_end_time.to_string()[..];
        let row = Row::new(vec![
            Cell::new(patch_idx_str),
            Cell::new(similarity),
            Cell::new(&ref_info),
            Cell::new(&deg_info),
        ]);
        table.add_row(row);
""", """        let interval = |start: f64, end: f64| format!("{start}  -   {end}");
        let cells = [
            idx.to_string(),
            patch_sim.similarity.to_string(),
            interval(patch_sim.ref_patch_start_time, patch_sim.ref_patch_end_time),
            interval(patch_sim.deg_patch_start_time, patch_sim.deg_patch_end_time),
        ];
        table.add_row(Row::new(
            cells.iter().map(|text| Cell::new(text)).collect(),
        ));
"""))
