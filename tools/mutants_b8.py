"""Rewrites that keep the behaviour: larger restructurings"""
from mutants import m
from mutants_b6 import SEL6, VQ6, MG6, NS6, SP6, GF6, GB6, VP6, RV6, AL6, IP6, WR6, SF6, XC6, EN6, AU6, FM6, FF6, ER6, MU6, SV6, SM6, SVM6, CV6, AW6, PS6, SR6, MN6, CU6, OU6
def ok(name, *e): m("b8-" + name, "", *e)
import subprocess
def whole(path, start, end):
    """the text of the source from one marker up to another"""
    s = open("/repo/" + path).read()
    a = s.index(start)
    return s[a:s.index(end, a)]

ok("sel-search-usize", (SEL6, whole(SEL6, "        let ref_frame_index = ref_patch_indices[patch_index];\n", "    /// Calculate the maximum number of patches"), """        let radius = search_window as usize;
        let centre = ref_patch_indices[patch_index];
        let first = centre.saturating_sub(radius);
        let end = (centre + radius + 1).min(spectrogram_data.ncols());
        for offset in first..end {
            let own = self
                .sim_comparator
                .measure_patch_similarity(ref_patch, &mut deg_patches[offset])
                .similarity;
            let (score, previous) = if patch_index == 0 {
                (own, usize::MAX)
            } else {
                let before = &cumulative_similarity_dp[patch_index - 1];
                let lower = ref_patch_indices[patch_index - 1].saturating_sub(radius);
                let mut best: Option<(f64, usize)> = None;
                for back in (lower..offset).rev() {
                    match best {
                        Some((top, _)) if before[back] <= top => (),
                        _ => best = Some((before[back], back)),
                    }
                }
                let (matched, from) = match best {
                    Some((top, back)) => (own + top, back),
                    None => (own + f64::MIN, usize::MAX),
                };
                if before[offset] > matched {
                    (before[offset], offset)
                } else {
                    (matched, from)
                }
            };
            cumulative_similarity_dp[patch_index][offset] = score;
            backtrace[patch_index][offset] = previous;
        }
    }

"""))
ok("sel-fine-collect", (SEL6, whole(SEL6, "        // Case: The patches are already matched.", "            // 1. The sim results keep"), """        sim_results
            .iter()
            .map(|coarse| {
                self.realign(coarse, ref_signal, deg_signal, spect_builder, analysis_window)
            })
            .collect()
    }

    /// Realigns one patch
    fn realign<const NUM_BANDS: usize>(
        &self,
        result: &PatchSimilarityResult,
        ref_signal: &AudioSignal,
        deg_signal: &AudioSignal,
        spect_builder: &mut GammatoneSpectrogramBuilder<NUM_BANDS>,
        analysis_window: &AnalysisWindow,
    ) -> Result<PatchSimilarityResult, Box<dyn Error>> {
        let unmatched =
            result.deg_patch_start_time == 0.0 && result.deg_patch_end_time == 0.0;
        if unmatched {
            return Ok(result.clone());
        }
"""), (SEL6, whole(SEL6, "            if new_sim_result.similarity < result.similarity {\n", "#[cfg(test)]"), """        if result.similarity > new_sim_result.similarity {
            return Ok(result.clone());
        }
        let (ref_shift, deg_shift) = if lag > 0.0 { (lag, 0.0) } else { (0.0, -lag) };
        new_sim_result.ref_patch_start_time = result.ref_patch_start_time + ref_shift;
        new_sim_result.deg_patch_start_time = result.deg_patch_start_time + deg_shift;
        new_sim_result.ref_patch_end_time =
            new_sim_result.ref_patch_start_time + new_ref_duration;
        new_sim_result.deg_patch_end_time =
            new_sim_result.deg_patch_start_time + new_deg_duration;
        Ok(new_sim_result)
    }
}

"""))
ok("sel-slice-build", (SEL6, whole(SEL6, "        let start_index = ((start_time * in_signal", "    pub fn build_degraded_patch("), """        let rate = in_signal.sample_rate as f64;
        let available = in_signal.data_matrix.len();
        let first = (start_time * rate) as usize;
        let last = usize::min((end_time * rate) as usize, available);
        let before = if start_time < 0.0 { (-start_time * rate) as usize } else { 0 };
        let after = (end_time * rate - available as f64) as usize;

        let mut samples = Vec::with_capacity(before + (last - first) + after);
        samples.resize(before, 0.0);
        samples.extend(in_signal.data_matrix.slice(s![first..last]).iter());
        samples.extend(std::iter::repeat(0.0).take(after));
        AudioSignal::new(&samples, in_signal.sample_rate)
    }

"""))
ok("sel-degpatch-assign", (SEL6, whole(SEL6, "        let first_real_frame = 0.max(window_beginning);", "    /// Performs alignment on a per-patch level."), """        let columns = spectrogram_data.ncols();
        let mut patch =
            Array2::<f64>::zeros((spectrogram_data.nrows(), window_end - window_beginning));
        let real = window_end.min(columns) - window_beginning;
        patch
            .slice_mut(s![.., ..real])
            .assign(&spectrogram_data.slice(s![.., window_beginning..window_beginning + real]));
        patch
    }

"""))
ok("sel-trace-for", (SEL6, whole(SEL6, "        let mut patch_index: i32 = (num_patches - 1) as i32;", "    /// This function finds the most suitable patch in"), """        for patch_index in (0..num_patches).rev() {
            let width = ref_patches[patch_index].ncols();
            let mut ref_patch = ref_patches[patch_index].clone();
            let mut deg_patch =
                Self::build_degraded_patch(spectrogram_data, last_offset, last_offset + width);
            let mut record = self
                .sim_comparator
                .measure_patch_similarity(&mut ref_patch, &mut deg_patch);
            let previous = backtrace[patch_index][last_offset];
            record.ref_patch_start_time = ref_patch_indices[patch_index] as f64 * frame_duration;
            record.ref_patch_end_time = record.ref_patch_start_time + patch_duration;
            if previous != last_offset {
                record.deg_patch_start_time = last_offset as f64 * frame_duration;
                record.deg_patch_end_time = record.deg_patch_start_time + patch_duration;
            } else {
                record.similarity = 0.0;
                record.deg_patch_start_time = 0.0;
                record.deg_patch_end_time = 0.0;
                record.freq_band_means.fill(0.0);
            }
            best_deg_patches[patch_index] = record;
            last_offset = previous;
        }
        Ok(best_deg_patches)
    }

"""))
ok("sel-maxpatches-rposition", (SEL6, whole(SEL6, "        let mut num_patches = ref_patch_indices.len();\n", "    /// Given an `AudioSignal` and the desired"), """        let limit = num_frames_in_deg_spectro + num_frames_per_patch / 2;
        let dropped = ref_patch_indices
            .iter()
            .rev()
            .take_while(|&&index| index > limit)
            .count();
        ref_patch_indices.len() - dropped
    }

"""))
ok("xc-lag-fold", (XC6, whole(XC6, "    // Get maximum\n", "/// Calculates the pointwise inverse fft"), """    let mut best = 0;
    for candidate in 1..corrs.len() {
        if corrs[candidate].abs() >= corrs[best].abs() {
            best = candidate;
        }
    }
    let peak = corrs[best];
    let first = corrs.iter().position(|&r| r == peak)?;
    Some(first as i64 - max_lag)
}

"""))
ok("xc-corr-concat", (XC6, whole(XC6, "    // Negative errors\n", "    // Get maximum\n"), """    let split = point_wise_fft_vec.len() - max_lag as usize;
    let corrs: Vec<f64> = point_wise_fft_vec[split..]
        .iter()
        .chain(&point_wise_fft_vec[..=max_lag as usize])
        .copied()
        .collect();

"""))
ok("xc-pad", (XC6, whole(XC6, "    match &signal_1.len().cmp", "    let (_, exp)"), """    signal_1.resize(biggest_length, 0.0);
    signal_2.resize(biggest_length, 0.0);
"""))
ok("xc-product-loop", (XC6, whole(XC6, "    let mut fft_signal_2 =\n", "///\n/// Returns the mantissa"), """    let spectrum_1 = fast_fourier_transform::forward_1d_from_points(manager, signal_1, fft_points);
    let spectrum_2 = fast_fourier_transform::forward_1d_from_points(manager, signal_2, fft_points);
    let mut product = Vec::with_capacity(spectrum_1.len());
    for i in 0..spectrum_1.len() {
        product.push(spectrum_1[i] * spectrum_2[i].conj());
    }
    product
}

"""))
ok("fm-forward-once", (FM6, whole(FM6, "        if time_channel.len() == self.fft_size {\n            let mut complex_time_domain", "    /// Zero-pads `freq_channel` if necessary"), """        time_channel.resize(self.fft_size, 0.0);
        let mut buffer: Vec<Complex64> =
            time_channel.iter().map(|&re| Complex64::new(re, 0.0)).collect();
        let mut scratch = vec![Complex64::zero(); real_to_complex.get_outofplace_scratch_len()];
        real_to_complex.process_outofplace_with_scratch(&mut buffer, freq_channel, &mut scratch);
    }

"""))
ok("fm-inverse-once", (FM6, whole(FM6, "        if time_channel.len() == self.fft_size {\n            let mut scratch_buffer", "    /// Multiplies each element in"), """        let mut scratch = vec![Complex64::zero(); complex_to_real.get_outofplace_scratch_len()];
        let mut result = vec![Complex64::zero(); self.fft_size];
        complex_to_real.process_outofplace_with_scratch(freq_channel, &mut result, &mut scratch);
        *time_channel = result.into_iter().map(|value| value.re).collect();
    }

"""))
ok("al-truncate-len", (AL6, whole(AL6, "    let mut new_ref_matrix = ref_signal.data_matrix.clone();\n", "    Some((\n        AudioSignal::new(new_ref_matrix"), """    let ref_len = ref_signal.len();
    let deg_len = aligned_deg_signal.len();
    let skip = if ref_len < deg_len {
        (lag * ref_signal.sample_rate as f64) as usize
    } else {
        0
    };
    let end = ref_len.min(deg_len);
    let new_ref_matrix = ref_signal.data_matrix.slice(s![skip..end]).to_owned();
    let new_deg_matrix = aligned_deg_signal.data_matrix.slice(s![skip..end]).to_owned();
"""))
ok("al-shift-vec", (AL6, whole(AL6, "        let mut new_deg_matrix = deg_signal.data_matrix.clone();\n        // align", "        Some((\n            new_deg_signal,"), """        let samples = deg_signal.data_matrix.as_slice()?;
        let shifted = if best_lag > 0 {
            let mut padded = vec![0.0; best_lag as usize];
            padded.extend_from_slice(samples);
            padded
        } else {
            samples[(-best_lag) as usize..].to_vec()
        };
        let new_deg_signal = AudioSignal::new(&shifted, deg_signal.sample_rate);
"""), (AL6, "use ndarray::Array1;\nuse ndarray::{concatenate, s, Axis};", "use ndarray::s;"))
ok("rv-windows", (RV6, whole(RV6, "        let mut vad_results = vec![1.0; self.silent_chunk_count - 1];", "    /// Calculates and returns the root mean"), """        let lead = self.silent_chunk_count - 1;
        let (absent, present) = (self.voice_activity_absent, self.voice_activity_present);
        let mut verdicts = vec![1.0; lead];
        for window in self.results_per_chunk.windows(lead + 1) {
            let silent = window[lead] == 0.0 && !window[..lead].contains(&present);
            verdicts.push(if silent { absent } else { present });
        }
        verdicts
    }

"""), (RV6, whole(RV6, "    /// Given an index, this function checks if", "}\n\n#[cfg(test)]"), ""))
ok("rv-rms-fold", (RV6, whole(RV6, "        let mut square: i64 = 0;", "    /// Given an index, this"), """        let energy: i64 = chunk.iter().map(|&x| i64::from(x) * i64::from(x)).sum();
        let mean_square = energy as f64 / chunk.len() as f64;
        mean_square.sqrt()
    }

"""))
ok("vp-va-chunks", (VP6, whole(VP6, "        let mut frame = Vec::<i16>::with_capacity(frame_length);", "        vad.get_vad_results()\n"), """        let quantise = |sample: &f64| -> i16 {
            let full_scale = f64::from(1 << 15);
            let truncated = f64::from((*sample * full_scale) as i16);
            truncated.min(full_scale - 1.0) as i16
        };
        for chunk in patch.chunks_exact(frame_length) {
            let frame: Vec<i16> = chunk.iter().map(quantise).collect();
            vad.process_chunk(&frame);
        }
"""))
ok("vp-patch-filter", (VP6, whole(VP6, "        let mut patch_idx = first_patch_idx;\n", "        Ok(ref_patch_indices)"), """        for (number, verdicts) in vad_result.chunks(self.patch_size).enumerate() {
            let frames_with_va: f64 = verdicts.iter().sum();
            if frames_with_va < self.frames_with_va_threshold {
                continue;
            }
            ref_patch_indices.push(first_patch_idx + number * self.patch_size);
        }

"""), (VP6, "use itertools::Itertools;\n", ""))
ok("ip-count", (IP6, whole(IP6, "        let max_index = if init_patch_index", "        Ok(ref_patch_indices)"), """        let last = (spectrum_length - self.patch_size).max(init_patch_index + 1);
        let count = (last - init_patch_index + self.patch_size - 1) / self.patch_size;
        let ref_patch_indices: Vec<usize> = (0..count)
            .map(|patch| init_patch_index - 1 + patch * self.patch_size)
            .collect();
"""))
ok("vq-bandmean", (VQ6, whole(VQ6, "    let mut fvnsim = Array1::<f64>::zeros(sim_match_info[0]", "/// Calculates the energy of the degraded patch"), """    let count = sim_match_info.len() as f64;
    let bands = sim_match_info[0].freq_band_means.len();
    Array1::from_shape_fn(bands, |band| {
        sim_match_info
            .iter()
            .map(|patch| patch.freq_band_means[band])
            .sum::<f64>()
            / count
    })
}

"""))
ok("vq-std-fn", (VQ6, whole(VQ6, "    let mut contribution = Array1::<f64>::zeros(sim", "/// Clamps the MOS to 1.0"), """    let frames_in = |patch: &PatchSimilarityResult| {
        ((patch.ref_patch_end_time - patch.ref_patch_start_time) / frame_duration).ceil() as usize
    };
    let total: usize = sim_match_info.iter().map(frames_in).sum();
    let bands = sim_match_info[0].freq_band_means.len();
    let mut pooled = Array1::<f64>::zeros(bands);
    for band in 0..bands {
        let mut contribution = 0.0;
        for patch in sim_match_info {
            let frames = frames_in(patch);
            let (mean, dev) = (patch.freq_band_means[band], patch.freq_band_stddevs[band]);
            contribution += (frames - 1) as f64 * dev.powi(2) + frames as f64 * mean.powi(2);
        }
        let variance =
            (contribution - fvn_sim[band].powi(2) * total as f64) / (total as f64 - 1.0);
        pooled[band] = variance.max(0.0).sqrt();
    }
    pooled
}

"""))
ok("gf-sections", (GF6, whole(GF6, "        let mut a1 = [0.0; 3];\n", "        output\n"), """        let mut output = ndarray::Array2::<f64>::zeros((NUM_BANDS, input_signal.len()));
        for band in 0..NUM_BANDS {
            let (a0, a2) = (self.filter_coeff_a0[band], self.filter_coeff_a2[band]);
            let gain = self.filter_coeff_gain[band];
            let b = [
                self.filter_coeff_b0[band],
                self.filter_coeff_b1[band],
                self.filter_coeff_b2[band],
            ];
            let first = [a0 / gain, self.filter_coeff_a11[band] / gain, a2 / gain];
            let mut stage = signal_filter::filter_signal(
                &first,
                &b,
                input_signal,
                &mut self.filter_conditions_1[band],
            );
            let rest = [
                (self.filter_coeff_a12[band], &mut self.filter_conditions_2[band]),
                (self.filter_coeff_a13[band], &mut self.filter_conditions_3[band]),
                (self.filter_coeff_a14[band], &mut self.filter_conditions_4[band]),
            ];
            for (a1, state) in rest {
                stage = signal_filter::filter_signal(
                    &[a0, a1, a2],
                    &b,
                    &stage.filtered_signal,
                    state,
                );
            }
            output
                .row_mut(band)
                .assign(&ndarray::ArrayView1::from(&stage.filtered_signal));
        }
"""))
ok("gb-frames-index", (GB6, whole(GB6, "        for (index, frame) in time_domain_signal\n", "        center_freqs.as_mut_slice()"), """        let samples = time_domain_signal.as_slice().expect("Signal is contiguous");
        for index in 0..num_cols {
            let start = index * hop_size;
            self.filter_bank.reset_filter_conditions();
            let filtered = self.filter_bank.apply_filter(&samples[start..start + window.size]);
            for (band, row) in filtered.rows().into_iter().enumerate() {
                let energy: f64 = row.iter().map(|e| e * e).sum();
                out_matrix[(band, index)] = (energy / row.len() as f64).sqrt();
            }
        }

"""))
ok("sf-index", (SF6, whole(SF6, "    filtered_signal\n        .iter_mut()", "    FilterResults {\n        filtered_signal,"), """    let (mut z0, mut z1) = (init_conditions[0], init_conditions[1]);
    for (i, &x) in signal.iter().enumerate() {
        let y = numerator_coeffs[0] * x + z0;
        z0 = numerator_coeffs[1] * x - denom_coeffs[1] * y + z1;
        z1 = numerator_coeffs[2] * x - denom_coeffs[2] * y;
        filtered_signal[i] = y;
    }
    init_conditions[0] = z0;
    init_conditions[1] = z1;

"""))
ok("cv-boundary-rows", (CV6, whole(CV6, "    for i in 0..output_matrix.ncols() {\n        output_matrix.row_mut(0)", "    output_matrix\n}"), """    let (rows, cols) = output_matrix.dim();
    for col in 0..cols {
        output_matrix[(0, col)] = output_matrix[(1, col)];
        output_matrix[(rows - 1, col)] = output_matrix[(rows - 2, col)];
    }
    for row in 0..rows {
        output_matrix[(row, 0)] = output_matrix[(row, 1)];
        output_matrix[(row, cols - 1)] = output_matrix[(row, cols - 2)];
    }
"""))
ok("ns-elementwise", (NS6, whole(NS6, "        // Compute intensity\n", "        let freq_band_deg_energy"), """        let mut sim_map = ndarray::Array2::<f64>::zeros(mu_ref.dim());
        for ((band, frame), out) in sim_map.indexed_iter_mut() {
            let at = (band, frame);
            let intensity =
                (2.0 * mu_r_mu_d[at] + c1) / (ref_mu_squared[at] + deg_mu_squared[at] + c1);
            let product = sigma_ref_squared[at] * sigma_deg_squared[at];
            let spread = if product < 0.0 { 0.0 } else { product.sqrt() };
            *out = intensity * (sigma_r_d[at] + c3) / (spread + c3);
        }

"""))
ok("mg-variant-fn", (MG6, whole(MG6, "        let patch_creator: Box<dyn PatchCreator>;\n", "        let spectrogram_builder ="), """        let (patch_creator, sim_to_quality_mapper) = Self::configure(variant);

"""), (MG6, "    /// Loads the audio store in", """    fn configure(
        variant: Variant,
    ) -> (Box<dyn PatchCreator>, Box<dyn SimilarityToQualityMapper>) {
        match variant {
            Variant::Fullband { model_path } => (
                Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO)),
                Box::new(SvrSimilarityToQualityMapper::new(model_path.as_str())),
            ),
            Variant::Wideband {
                use_unscaled_mos_mapping: unscaled,
            } => {
                let mapper = SpeechSimilarityToQualityMapper::new(!unscaled);
                (Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH)), Box::new(mapper))
            }
        }
    }

    /// Loads the audio store in"""))
ok("svm-zip", (SVM6, whole(SVM6, "        for (i, element) in observation.iter()", "        self.model\n            .predict_value"), """        for i in 0..observation.len() {
            features[i] = observation[i] as f32;
        }
"""), (SVM6, whole(SVM6, "        let solution = problem.label();", "    }\n}\n"), """        match problem.label() {
            Label::Value(score) => f64::from(score),
            _ => 0.0,
        }
"""))
ok("mn-run-collect", (MN6, whole(MN6, "    let mut results = Vec::<SimilarityResult>::with", "fn main()"), """    path_pairs
        .iter()
        .map(|PathPair { reference, degraded }| visqol.run(reference, degraded))
        .collect()
}
"""))
ok("ou-debug-join", (OU6, whole(OU6, "    let mut json_output = String::new();", "/// Writes computes MOS values"), """    let mut file = OpenOptions::new()
        .create(true)
        .append(true)
        .open(json_output_path)
        .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path));
    for result in results.iter() {
        let record = serde_json::to_string_pretty(result).expect("Could not format JSON!");
        writeln!(file, "{}", record)
            .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path));
    }
}

"""))
