"""Edits for tools/mut.py: small behaviour changes with the checks that must report them, and behaviour-preserving rewrites ([])"""
S = "visqol-rs/src/"
CL = "visqol/src/"
M = []
def m(name, expect, *edits):
    M.append(dict(name=name, expect=expect.split() if expect else [], edits=[(S + f if "/" not in f else f, a, b) for f, a, b in edits]))

SEL = "comparison_patches_selector.rs"; VQ = "visqol.rs"; NS = "neurogram_similiarity_index_measure.rs"; AU = "audio_utils.rs"
MG = "visqol_manager.rs"; AL = "alignment.rs"; XC = "xcorr.rs"; SP = "spectrogram.rs"

# ---- roles
m("swap-measure-coarse", "C12", (SEL, ".measure_patch_similarity(&mut ref_patch, &mut deg_patch);", ".measure_patch_similarity(&mut deg_patch, &mut ref_patch);"))
m("swap-measure-search", "C12", (SEL, ".measure_patch_similarity(ref_patch, deg_patch);", ".measure_patch_similarity(deg_patch, ref_patch);"))
m("swap-measure-fine", "C12", (SEL, ".measure_patch_similarity(&mut ref_spectrogram.data, &mut deg_spectrogram.data);", ".measure_patch_similarity(&mut deg_spectrogram.data, &mut ref_spectrogram.data);"))
m("energy-of-ref", "C12", (NS, "let freq_band_deg_energy: Array1<f64> = deg_patch", "let freq_band_deg_energy: Array1<f64> = ref_patch"))
m("fine-deg-at-ref-time", "C12", (SEL, """                deg_signal,
                result.deg_patch_start_time,
                result.deg_patch_end_time,""", """                deg_signal,
                result.ref_patch_start_time,
                result.ref_patch_end_time,"""))
m("fine-unscaled-deg", "C10", (VQ, """        ref_signal,
        &deg_signal_scaled,
        spect_builder,""", """        ref_signal,
        deg_signal,
        spect_builder,"""))
m("search-in-ref", "C12", (VQ, """        &deg_spectrogram.data,
        frame_duration,""", """        &ref_spectrogram.data,
        frame_duration,"""))
m("vad-on-deg", "C12", (VQ, "patch_creator.create_ref_patch_indices(&ref_spectrogram.data, ref_signal, window)?", "patch_creator.create_ref_patch_indices(&ref_spectrogram.data, &deg_signal_scaled, window)?"))
m("global-align-swapped", "C12", (MG, "alignment::globally_align(ref_signal, deg_signal)", "alignment::globally_align(deg_signal, ref_signal)"))

# ---- rewrites that keep the behaviour
m("b-helper-scale", "", (VQ, """    let deg_signal_scaled =
        audio_utils::scale_to_match_sound_pressure_level(ref_signal, deg_signal);""", """    let deg_signal_scaled = level_match(ref_signal, deg_signal);"""),
  (VQ, "/// Computes prediction with", """fn level_match(a: &AudioSignal, b: &AudioSignal) -> AudioSignal {
    audio_utils::scale_to_match_sound_pressure_level(a, b)
}

/// Computes prediction with"""))
m("b-fvnsim-iter", "", (VQ, """    for patch in sim_match_info {
        for (index, band) in fvnsim.iter_mut().enumerate() {
            *band += patch.freq_band_means[index];
        }
    }
    fvnsim / sim_match_info.len() as f64""", """    let n = sim_match_info.len() as f64;
    for index in 0..fvnsim.len() {
        let total: f64 = sim_match_info.iter().map(|p| p.freq_band_means[index]).sum();
        fvnsim[index] = total / n;
    }
    fvnsim"""))
m("b-energy-for", "", (VQ, """        for (index, band) in total_fvdegenergy.iter_mut().enumerate() {
            *band += patch.freq_band_deg_energy[index];
        }""", """        let mut i = 0;
        while i < total_fvdegenergy.len() {
            total_fvdegenergy[i] = total_fvdegenergy[i] + patch.freq_band_deg_energy[i];
            i += 1;
        }"""))
m("b-max-select", "", (SEL, """            if new_sim_result.similarity < result.similarity {
                realigned_results[i] = result.clone();
            } else {""", """            let keep_old = result.similarity > new_sim_result.similarity;
            if keep_old {
                realigned_results[i] = result.clone();
            } else {"""))

# ---- C13
m("nsim-no-guard", "C13", (NS, """            *element = if *element < 0.0 {
                c3
            } else {
                element.sqrt() + c3
            }""", """            *element = element.sqrt() + c3"""))
m("nsim-guard-product", "C13", (NS, """            *element = if *element < 0.0 {
                c3
            } else {
                element.sqrt() + c3
            }""", """            *element = if *element < 0.0 {
                0.0
            } else {
                element.sqrt() + c3
            }"""))
m("nsim-no-c1", "C13", (NS, "&ref_mu_squared + &deg_mu_squared + c1;", "&ref_mu_squared + &deg_mu_squared;"))
m("nsim-c3-outside", "C13", (NS, "element.sqrt() + c3", "element.sqrt() - c3"))
m("nsim-range-zero", "C13", (NS, "intensity_range: 1.0,", "intensity_range: 0.0,"))
m("nsim-mu-product", "C13", (NS, "let intensity_denominator = &ref_mu_squared + &deg_mu_squared + c1;", "let intensity_denominator = &mu_r_mu_d * 2.0 + c1;"))
m("fstd-no-guard", "C13", (VQ, "*element = if *element < 0.0 { 0.0 } else { element.sqrt() };", "*element = element.sqrt();"))
m("b-nsim-guard-max", "", (NS, """            *element = if *element < 0.0 {
                c3
            } else {
                element.sqrt() + c3
            }""", """            *element = element.max(0.0).sqrt() + c3"""))
m("b-nsim-guard-flip", "", (NS, """            *element = if *element < 0.0 {
                c3
            } else {
                element.sqrt() + c3
            }""", """            let root = if *element >= 0.0 { element.sqrt() } else { 0.0 };
            *element = root + c3"""))
m("b-nsim-helper", "", (NS, "        let intensity = &intensity_numerator / &intensity_denominator;", "        let intensity = intensity_map(&intensity_numerator, &intensity_denominator);"),
  (NS, "#[allow(unused)]\nimpl Neuro", "fn intensity_map(n: &ndarray::Array2<f64>, d: &ndarray::Array2<f64>) -> ndarray::Array2<f64> { n / d }\n\n#[allow(unused)]\nimpl Neuro"))
m("b-fstd-max", "", (VQ, "*element = if *element < 0.0 { 0.0 } else { element.sqrt() };", "*element = element.max(0.0).sqrt();"))

# ---- C14
DBG = """            let sample: f64 = if element == 0.0 {
                f64::EPSILON
            } else {
                element.abs()
            };"""
m("db-no-guard", "C14", (SP, DBG, "            let sample = element.abs();"))
m("db-no-abs", "C14", (SP, DBG, DBG.replace("element.abs()", "element")))
m("db-minus-eps", "C14", (SP, DBG, DBG.replace("element.abs()", "(element - f64::EPSILON).abs()")))
m("db-guard-neg", "C14", (SP, DBG, DBG.replace("== 0.0", "< 0.0")))
m("b-db-guard-flip", "", (SP, DBG, """            let magnitude = element.abs();
            let sample = if magnitude > 0.0 { magnitude } else { f64::EPSILON };"""))
m("b-db-for", "", (SP, "self.data.mapv_inplace(sample_to_db);", "for v in self.data.iter_mut() { *v = sample_to_db(*v); }"))
m("b-floor-loop", "", (SP, "self.data.mapv_inplace(|element| new_floor.max(element));", "self.data.iter_mut().for_each(|e| if *e < new_floor { *e = new_floor; });"))

# ---- transforms
MU = "math_utils.rs"; FM = "fft_manager.rs"; FF = "fast_fourier_transform.rs"; EN = "envelope.rs"
m("pow2-lost-16", "C15", (MU, "    next_power_of_two |= next_power_of_two >> 16;\n", ""))
m("pow2-no-minus", "C15", (MU, "let mut next_power_of_two = input - 1;", "let mut next_power_of_two = input;\n    if input < 3 { next_power_of_two = input - 1; }\n    if input > 70000 { next_power_of_two -= 2; }"))
m("pow2-orig", "C15", (MU, "    next_power_of_two |= next_power_of_two >> 2;\n", "    if input < 100_000 {\n        next_power_of_two |= next_power_of_two >> 2;\n    }\n"))
m("xcorr-short-fft", "C15", (XC, "frexp((signal_1.len() * 2 - 1) as f64)", "frexp((signal_1.len() * 2 - signal_1.len() / 2) as f64)"))
m("xcorr-no-pad", "C15", (XC, "            signal_1.resize(biggest_length, 0.0);", "            signal_2.truncate(signal_1.len());"))
m("fft-min", "C15", (FM, "const MIN_FFT_SIZE: usize = 32;", "const MIN_FFT_SIZE: usize = 24;"))
m("fft-scale-samples", "C16", (FM, "1.0f64 / (fft_size as f64)", "1.0f64 / (samples_per_channel as f64)"))
m("fft-scale-skip", "C16", (FF, "    fft_manager.apply_reverse_fft_scaling(&mut temp_time_buffer);\n", "    if fft_manager.samples_per_channel != fft_manager.fft_size {\n        fft_manager.apply_reverse_fft_scaling(&mut temp_time_buffer);\n    }\n"))
m("fft-scale-twice", "C16", (FM, """            *time_channel = audio_utils::real_valued_complex_vec_to_float_vec(&complex_td);
        } else {""", """            *time_channel = audio_utils::real_valued_complex_vec_to_float_vec(&complex_td);
            self.apply_reverse_fft_scaling(time_channel);
        } else {"""))
m("fft-scale-forward", "C16", (FF, "    fft_manager.freq_from_time_domain(&mut temp_time_buffer, &mut temp_freq_buffer);\n", "    fft_manager.freq_from_time_domain(&mut temp_time_buffer, &mut temp_freq_buffer);\n    if input_signal.len() != fft_manager.fft_size {\n        let s = 1.0 / (fft_manager.fft_size as f64).sqrt();\n        temp_freq_buffer.iter_mut().for_each(|x| *x *= s);\n    }\n"))
m("fft-min-scale", "C16", (FM, "inverse_fft_scale: 1.0f64 / (fft_size as f64),", "inverse_fft_scale: 1.0f64 / (math_utils::next_pow_two(samples_per_channel) as f64),"))
m("b-pow2-std", "", (MU, """    let mut next_power_of_two = input - 1;

    next_power_of_two |= next_power_of_two >> 1;
    next_power_of_two |= next_power_of_two >> 2;
    next_power_of_two |= next_power_of_two >> 4;
    next_power_of_two |= next_power_of_two >> 8;
    next_power_of_two |= next_power_of_two >> 16;
    next_power_of_two + 1""", "    input.next_power_of_two()"))
m("b-pow2-loop", "", (MU, """    next_power_of_two |= next_power_of_two >> 1;
    next_power_of_two |= next_power_of_two >> 2;
    next_power_of_two |= next_power_of_two >> 4;
    next_power_of_two |= next_power_of_two >> 8;
    next_power_of_two |= next_power_of_two >> 16;""", """    for shift in [1, 2, 4, 8, 16] {
        next_power_of_two |= next_power_of_two >> shift;
    }"""))
m("b-pow2-while", "", (MU, """    next_power_of_two |= next_power_of_two >> 1;
    next_power_of_two |= next_power_of_two >> 2;
    next_power_of_two |= next_power_of_two >> 4;
    next_power_of_two |= next_power_of_two >> 8;
    next_power_of_two |= next_power_of_two >> 16;""", """    let mut shift = 1;
    while shift <= 16 {
        next_power_of_two |= next_power_of_two >> shift;
        shift *= 2;
    }"""))
m("b-fft-merge", "", (FM, """        if time_channel.len() == self.fft_size {
            let mut complex_time_domain =
                audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
            let mut scratch_buffer =
                vec![Complex64::zero(); real_to_complex.get_outofplace_scratch_len()];
            real_to_complex.process_outofplace_with_scratch(
                &mut complex_time_domain[..],
                freq_channel,
                &mut scratch_buffer[..],
            );
        } else {
            time_channel.resize(self.fft_size, 0.0f64);
            let mut complex_time_domain =
                audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
            let mut scratch_buffer =
                vec![Complex64::zero(); real_to_complex.get_outofplace_scratch_len()];
            real_to_complex.process_outofplace_with_scratch(
                &mut complex_time_domain[..],
                &mut freq_channel[..],
                &mut scratch_buffer[..],
            );
        }""", """        if time_channel.len() != self.fft_size {
            time_channel.resize(self.fft_size, 0.0f64);
        }
        let mut complex_time_domain =
            audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
        let mut scratch_buffer =
            vec![Complex64::zero(); real_to_complex.get_outofplace_scratch_len()];
        real_to_complex.process_outofplace_with_scratch(
            &mut complex_time_domain[..],
            freq_channel,
            &mut scratch_buffer[..],
        );"""))
m("b-fft-scale-for", "", (FM, """        time_channel.iter_mut().for_each(|x| {
            *x *= self.inverse_fft_scale;
        });""", """        for x in time_channel.iter_mut() {
            *x /= self.fft_size as f64;
        }"""))
m("b-inverse-zip", "", (FF, """    for (i, elem) in out_vec.iter_mut().enumerate() {
        elem.re = temp_time_buffer[i];
    }
    out_vec""", """    for (elem, t) in out_vec.iter_mut().zip(temp_time_buffer.iter()) {
        *elem = Complex64::new(*t, 0.0);
    }
    out_vec"""))
m("b-hilbert-zip", "", (EN, """    let mut element_wise_product = Array1::<Complex64>::zeros(freq_domain_signal.len());

    for i in 0..freq_domain_signal.len() {
        element_wise_product[i] = freq_domain_signal[i] * hilbert_scaling[i];
    }

    let mut hilbert =
        fast_fourier_transform::inverse_1d(&mut fft_manager, element_wise_product.as_slice()?);""", """    let element_wise_product: Vec<Complex64> = freq_domain_signal
        .iter()
        .zip(&hilbert_scaling)
        .map(|(f, s)| f * s)
        .collect();

    let mut hilbert = fast_fourier_transform::inverse_1d(&mut fft_manager, &element_wise_product);"""))
m("b-xcorr-resize-both", "", (XC, """    match &signal_1.len().cmp(&signal_2.len()) {
        std::cmp::Ordering::Less => {
            signal_1.resize(biggest_length, 0.0);
        }
        std::cmp::Ordering::Greater => {
            signal_2.resize(biggest_length, 0.0);
        }
        _ => {}
    }
    let (_, exp) = frexp((signal_1.len() * 2 - 1) as f64);""", """    signal_1.resize(biggest_length, 0.0);
    signal_2.resize(biggest_length, 0.0);
    let (_, exp) = frexp((biggest_length * 2 - 1) as f64);"""))
m("b-xcorr-bits", "", (XC, """    let (_, exp) = frexp((signal_1.len() * 2 - 1) as f64);
    let fft_points = 2usize.pow(exp as u32);""", """    let fft_points = (signal_1.len() * 2 - 1).next_power_of_two();"""))

# ---- bands
GB = "gammatone_spectrogram_builder.rs"; ER = "equivalent_rectangular_bandwidth.rs"; VP = "vad_patch_creator.rs"; RV = "rms_vad.rs"; IP = "image_patch_creator.rs"; GF = "gammatone_filterbank.rs"
m("bands-no-invert", "C19", (GB, "        filter_coeffs.invert_axis(Axis(0));\n", "        let _ = Axis(0);\n        filter_coeffs = filter_coeffs.to_owned();\n"))
m("bands-no-sort", "C19", (GB, """        center_freqs.as_mut_slice().sort_by(|a, b| {
            a.partial_cmp(b)""", """        center_freqs.as_mut_slice().sort_by(|a, b| {
            b.partial_cmp(a)"""))
m("bands-shift", "C19", (GB, "                out_matrix[(j, index)] = row_means[j];", "                out_matrix[(row_means.len() - 1 - j, index)] = row_means[j];"))
m("bands-low-rate", "C19", (GB, "if f64::from(sample_rate / 2) <= self.filter_bank.min_freq {", "if f64::from(sample_rate) <= self.filter_bank.min_freq {"))
m("bands-design-asc", "C19", (ER, "let f = ((i as f64 + 1.0) * e).exp() * d;", "let f = ((NUM_BANDS - i) as f64 * e).exp() * d;"))
m("bands-mean-rows", "C19", (VQ, "            *band += patch.freq_band_means[index];", "            *band += patch.freq_band_means[patch.freq_band_means.len() - 1 - index];"))
m("bands-patch-rows", "C19", (IP, "patch = spectrogram.slice(s![.., *start_col..end_col]).to_owned();", "patch = spectrogram.slice(s![..;-1, *start_col..end_col]).to_owned();"))
m("b-bands-reverse", "", (GB, """        center_freqs.as_mut_slice().sort_by(|a, b| {
            a.partial_cmp(b)
                .expect("Failed to sort center frequencies!")
        });""", """        center_freqs.reverse();"""))
m("b-bands-rows", "", (GB, """            for j in 0..row_means.to_vec().len() {
                out_matrix[(j, index)] = row_means[j];
            }""", """            for (j, mean) in row_means.iter().enumerate() {
                out_matrix[(j, index)] = *mean;
            }"""))
m("b-bands-column", "", (GB, """            for j in 0..row_means.to_vec().len() {
                out_matrix[(j, index)] = row_means[j];
            }""", """            out_matrix.column_mut(index).assign(&row_means);"""))
m("b-bands-sqrt", "", (GB, """            filtered_signal.map_inplace(|e| *e = *e * *e);

            let mut row_means = filtered_signal
                .mean_axis(Axis(1))
                .expect("Failed to compute means for gammatone spectrogram!");

            row_means.map_inplace(|e| {
                *e = e.sqrt();
            });
""", """            filtered_signal.mapv_inplace(|e| e.powi(2));

            let row_means = filtered_signal
                .mean_axis(Axis(1))
                .expect("Failed to compute means for gammatone spectrogram!")
                .mapv(f64::sqrt);
"""))
m("b-bands-invert-slice", "", (GB, "        filter_coeffs.invert_axis(Axis(0));\n        self.filter_bank.set_filter_coefficients(&filter_coeffs);", "        let _ = Axis(0);\n        let flipped = filter_coeffs.slice(ndarray::s![..;-1, ..]).to_owned();\n        filter_coeffs = flipped;\n        self.filter_bank.set_filter_coefficients(&filter_coeffs);"))
m("b-bands-freqs-iter", "", (ER, """    let mut coefficients = [0.0; NUM_BANDS];
    for (i, coefficient) in coefficients.iter_mut().enumerate() {
        let f = ((i as f64 + 1.0) * e).exp() * d;
        *coefficient = a + f;
    }
    coefficients""", """    let mut coefficients = [0.0; NUM_BANDS];
    let mut i = 0;
    while i < NUM_BANDS {
        let step = (i + 1) as f64;
        coefficients[i] = a + d * (step * e).exp();
        i += 1;
    }
    coefficients"""))

# ---- voice activity
m("vad-strict", "C20", (RV, "if rms < self.rms_threshold {", "if rms <= self.rms_threshold {"))
m("vad-threshold", "C20", (RV, "rms_threshold: 5000.0,", "rms_threshold: 5001.0,"))
m("vad-run", "C20", (RV, "silent_chunk_count: 3,", "silent_chunk_count: 2,"))
m("vad-prev-short", "C20", (RV, "for j in 1..self.silent_chunk_count {", "for j in 1..self.silent_chunk_count - 1 {"))
m("vad-prev-wrong", "C20", (RV, "if self.results_per_chunk[idx - j] == self.voice_activity_present {", "if self.results_per_chunk[idx - 1] == self.voice_activity_present {"))
m("vad-or", "C20", (RV, "if self.results_per_chunk[i] == 0.0 && self.check_previous_chunks_for_silence(&i) {", "if self.results_per_chunk[i] == 0.0 || self.check_previous_chunks_for_silence(&i) {"))
m("vad-lead", "C20", (RV, "vec![1.0; self.silent_chunk_count - 1]", "vec![0.0; self.silent_chunk_count - 1]"))
m("vad-len", "C20", (RV, "let mut vad_results = vec![1.0; self.silent_chunk_count - 1];", "let mut vad_results = vec![1.0; self.silent_chunk_count];"))
m("vad-square-wrap", "C20", (RV, "square += (*elem as i64).pow(2);", "square += (*elem as i64).abs();"))
m("vad-no-clear", "C20", (VP, "                frame.clear();\n", "                frame.truncate(1);\n"))
m("vad-frame-long", "C20", (VP, "if frame.len() == frame_length {", "if frame.len() > frame_length {"))
m("vad-gt", "C20", (VP, "if frames_with_va >= self.frames_with_va_threshold {", "if frames_with_va > self.frames_with_va_threshold {"))
m("vad-skip-advance", "C20", (VP, """                ref_patch_indices.push(patch_idx);
            }
            patch_idx += self.patch_size;""", """                ref_patch_indices.push(patch_idx);
                patch_idx += self.patch_size;
            }"""))
m("vad-last-patch", "C20", (VP, "let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;", "let patch_count = (spectrum_length - first_patch_idx - 1) / self.patch_size;"))
m("vad-hop", "C20", (VP, "let frame_size = (window.size as f64 * window.overlap) as usize;", "let frame_size = window.size;"))
m("vad-scale", "C20", (VP, "let mut scaled_val = ((*patch_element * ((1 << 15) as f64)) as i16) as f64;", "let mut scaled_val = ((*patch_element * ((1 << 14) as f64)) as i16) as f64;"))
m("b-vad-noclamp", "", (VP, """            let mut scaled_val = ((*patch_element * ((1 << 15) as f64)) as i16) as f64;
            scaled_val = (-(1 << 15) as f64)
                .max(1.0 * ((1 << 15) - 1) as f64)
                .min(scaled_val);
            frame.push(scaled_val as i16);
""", """            frame.push((*patch_element * 32768.0) as i16);
"""))
m("b-vad-clamp", "", (VP, """            scaled_val = (-(1 << 15) as f64)
                .max(1.0 * ((1 << 15) - 1) as f64)
                .min(scaled_val);
""", """            scaled_val = scaled_val.clamp(i16::MIN as f64, i16::MAX as f64);
"""))
m("b-vad-clamp-first", "", (VP, """            let mut scaled_val = ((*patch_element * ((1 << 15) as f64)) as i16) as f64;
            scaled_val = (-(1 << 15) as f64)
                .max(1.0 * ((1 << 15) - 1) as f64)
                .min(scaled_val);
""", """            let scaled_val = (*patch_element * ((1 << 15) as f64)).max(-32768.0).min(32767.0);
"""))
m("b-vad-chunks", "", (VP, """        let mut frame = Vec::<i16>::with_capacity(frame_length);
        for patch_element in patch {
            let mut scaled_val = ((*patch_element * ((1 << 15) as f64)) as i16) as f64;
            scaled_val = (-(1 << 15) as f64)
                .max(1.0 * ((1 << 15) - 1) as f64)
                .min(scaled_val);
            frame.push(scaled_val as i16);

            if frame.len() == frame_length {
                vad.process_chunk(&frame);
                frame.clear();
            }
        }
""", """        for chunk in patch.chunks_exact(frame_length) {
            let frame: Vec<i16> = chunk.iter().map(|s| (*s * 32768.0) as i16).collect();
            vad.process_chunk(&frame);
        }
"""))
m("b-vad-helper", "", (VP, """            let mut scaled_val = ((*patch_element * ((1 << 15) as f64)) as i16) as f64;
            scaled_val = (-(1 << 15) as f64)
                .max(1.0 * ((1 << 15) - 1) as f64)
                .min(scaled_val);
            frame.push(scaled_val as i16);
""", """            frame.push(to_pcm(*patch_element));
"""), (VP, "impl PatchCreator for VadPatchCreator {", """fn to_pcm(sample: f64) -> i16 {
    let scaled = ((sample * ((1 << 15) as f64)) as i16) as f64;
    scaled.min(32767.0) as i16
}

impl PatchCreator for VadPatchCreator {"""))
m("b-vad-any", "", (RV, """        let mut previous_chunks_silent = true;
        for j in 1..self.silent_chunk_count {
            if self.results_per_chunk[idx - j] == self.voice_activity_present {
                previous_chunks_silent = false;
                break;
            }
        }
        previous_chunks_silent
""", """        !(1..self.silent_chunk_count).any(|j| self.results_per_chunk[idx - j] == self.voice_activity_present)
"""))
m("b-vad-window", "", (RV, "if self.results_per_chunk[i] == 0.0 && self.check_previous_chunks_for_silence(&i) {", "if self.results_per_chunk[i] == self.voice_activity_absent\n                && self.results_per_chunk[i - 1] == 0.0\n                && self.results_per_chunk[i - 2] == 0.0\n                && self.check_previous_chunks_for_silence(&i)\n            {"))
m("b-vad-square", "", (RV, """        let mut square: i64 = 0;
        for elem in chunk {
            square += (*elem as i64).pow(2);
        }
        (square as f64 / chunk.len() as f64).sqrt()""", """        let square: i64 = chunk.iter().map(|&e| i64::from(e) * i64::from(e)).sum();
        (square as f64 / chunk.len() as f64).sqrt()"""))
m("b-vad-patches", "", (VP, """        let mut patch_idx = first_patch_idx;

        for patch in &vad_result.iter().chunks(self.patch_size) {
            let frames_with_va = patch.sum::<f64>();

            if frames_with_va >= self.frames_with_va_threshold {
                ref_patch_indices.push(patch_idx);
            }
            patch_idx += self.patch_size;
        }
""", """        for (i, patch) in vad_result.chunks(self.patch_size).enumerate() {
            let frames_with_va: f64 = patch.iter().sum();
            if frames_with_va >= self.frames_with_va_threshold {
                ref_patch_indices.push(first_patch_idx + i * self.patch_size);
            }
        }
"""), (VP, "use itertools::Itertools;\n", ""))
m("b-vad-filter", "", (VP, """        for patch in &vad_result.iter().chunks(self.patch_size) {
            let frames_with_va = patch.sum::<f64>();

            if frames_with_va >= self.frames_with_va_threshold {
                ref_patch_indices.push(patch_idx);
            }
            patch_idx += self.patch_size;
        }
""", """        for patch in vad_result.chunks(self.patch_size) {
            if patch.iter().any(|v| *v > 0.0) {
                ref_patch_indices.push(patch_idx);
            }
            patch_idx += self.patch_size;
        }
"""), (VP, "use itertools::Itertools;\n", ""))

# ---- modes, mapping, patches, averages
SM = "speech_similarity_to_quality_mapper.rs"; SVQ = "svr_similarity_to_quality_mapper.rs"; SVM = "support_vector_regression_model.rs"; KO = "constants.rs"; AW = "analysis_window.rs"
m("mode-flag", "C24", (MG, "                    !use_unscaled_mos_mapping,", "                    use_unscaled_mos_mapping,"))
m("mode-sizes", "C24", (MG, "Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH))", "Box::new(VadPatchCreator::new(PATCH_SIZE_AUDIO))"))
m("mode-creators", "C24", (MG, "Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH))", "Box::new(ImagePatchCreator::new(PATCH_SIZE_SPEECH))"))
m("mode-window-const", "C24", (MG, "            search_window: window_size,", "            search_window: constants::DEFAULT_WINDOW_SIZE.max(window_size),"))
m("mode-window-cap", "C24", (VQ, "search_window.min(i32::MAX as usize) as i32,", "search_window.min(i16::MAX as usize) as i32,"))
m("mode-overlap", "C24", (KO, "pub const OVERLAP: f64 = 0.25;", "pub const OVERLAP: f64 = 0.5;"))
m("mode-window-trunc", "C24", (AW, "(sample_rate as f64 * window_duration).round() as usize", "(sample_rate as f64 * window_duration) as usize"))
m("mode-model-path", "C24", (SVM, "let model_description = read_to_string(model_path)", "let model_description = read_to_string(model_path.trim_end_matches(\".gz\"))"))
m("b-mode-window", "", (AW, "size: (sample_rate as f64 * window_duration).round() as usize,", "size: (f64::from(sample_rate) * window_duration + 0.5).floor() as usize,"))
m("b-mode-match", "", (MG, """        let patch_creator: Box<dyn PatchCreator>;
        let sim_to_quality_mapper: Box<dyn SimilarityToQualityMapper>;
        match variant {
            Variant::Wideband {
                use_unscaled_mos_mapping,
            } => {
                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH));
                sim_to_quality_mapper = Box::new(SpeechSimilarityToQualityMapper::new(
                    !use_unscaled_mos_mapping,
                ));
            }
            Variant::Fullband { model_path } => {
                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO));
                sim_to_quality_mapper = Box::new(SvrSimilarityToQualityMapper::new(&model_path));
            }
        }
""", """        let (patch_creator, sim_to_quality_mapper) = Self::parts(variant);
"""), (MG, "    /// Loads the audio store in", """    fn parts(variant: Variant) -> (Box<dyn PatchCreator>, Box<dyn SimilarityToQualityMapper>) {
        if let Variant::Fullband { model_path } = variant {
            let mapper: Box<dyn SimilarityToQualityMapper> = Box::new(SvrSimilarityToQualityMapper::new(&model_path));
            return (Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO)), mapper);
        }
        let scale = !matches!(variant, Variant::Wideband { use_unscaled_mos_mapping: true });
        (Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH)), Box::new(SpeechSimilarityToQualityMapper::new(scale)))
    }

    /// Loads the audio store in"""))
m("map-sign", "C25", (MU, "a + (b * (x - x_0)).exp()", "a + (b * (x_0 - x)).exp()"))
m("map-scale", "C25", (SM, "const FIT_SCALE: f64 = 1.2031409;", "const FIT_SCALE: f64 = 1.1931409;"))
m("map-wrap", "C25", (SM, "(mos * scale).clamp(1.0, 5.0)", "if mos * scale > 5.0 { 1.0 } else { (mos * scale).max(1.0) }"))
m("map-abs", "C25", (SM, "        (mos * scale).clamp(1.0, 5.0)", "        let mos = if nsim_mean < 0.3 { 1.2 } else { mos };\n        (mos * scale).clamp(1.0, 5.0)"))
m("map-max", "C25", (SM, "let nsim_mean = similarity_vector.iter().sum::<f64>() / (similarity_vector.len() as f64);", "let nsim_mean = similarity_vector.iter().skip(1).sum::<f64>() / (similarity_vector.len() as f64);"))
m("map-unscaled-one", "C25", (SM, """            FIT_SCALE
        } else {
            1.0
        };""", """            FIT_SCALE
        } else {
            1.3
        };"""))
m("b-map-min", "", (SM, "(mos * scale).clamp(1.0, 5.0)", "(mos * scale).max(1.0).min(5.0)"))
m("b-map-fit", "", (SM, """        let mos = math_utils::exponential_from_fit(
            nsim_mean,
            FIT_PARAMETER_A,
            FIT_PARAMETER_B,
            FIT_PARAMETER_X0,
        );
""", """        let mos = FIT_PARAMETER_A + (FIT_PARAMETER_B * nsim_mean - FIT_PARAMETER_B * FIT_PARAMETER_X0).exp();
"""), (SM, "use crate::math_utils;\n", ""))
m("b-map-branches", "", (SM, """        let scale = if self.scale_max_to_mos {
            FIT_SCALE
        } else {
            1.0
        };

        (mos * scale).clamp(1.0, 5.0)""", """        if !self.scale_max_to_mos {
            return mos.clamp(1.0, 5.0);
        }
        let rescaled = mos * FIT_SCALE;
        if rescaled > 5.0 { 5.0 } else { rescaled.max(1.0) }"""))
m("svr-skip", "C38", (SVM, "for (i, element) in observation.iter().enumerate() {", "for (i, element) in observation.iter().enumerate().skip(1) {"))
m("svr-rev", "C38", (SVM, "features[i] = *element as f32;", "features[observation.len() - 1 - i] = *element as f32;"))
m("svr-clamp", "C38", (SVM, "features[i] = *element as f32;", "features[i] = element.max(0.0) as f32;"))
m("svr-floor", "C38", (SVQ, "solution.clamp(1.0, 5.0)", "solution.max(1.5).min(5.0)"))
m("b-svr-zip", "", (SVM, """        for (i, element) in observation.iter().enumerate() {
            features[i] = *element as f32;
        }""", """        for i in 0..observation.len() {
            features[i] = observation[i] as f32;
        }"""))
m("b-svr-match", "", (SVM, """        let mut score = 0.0;
        if let Label::Value(s) = solution {
            score = s;
        }
        score as f64""", """        match solution {
            Label::Value(s) => f64::from(s),
            _ => 0.0,
        }"""))
m("patch-off", "C36", (IP, "ref_patch_indices.push(i - 1);", "ref_patch_indices.push(i);"))
m("patch-step", "C36", (IP, ".step_by(self.patch_size)", ".step_by(self.patch_size - 1)"))
m("patch-max", "C36", (IP, "            spectrum_length - self.patch_size\n        } else {", "            spectrum_length - self.patch_size + 3\n        } else {"))
m("patch-drop", "C36", (IP, "            spectrum_length - self.patch_size\n        } else {", "            spectrum_length - 2 * self.patch_size\n        } else {"))
m("patch-cut", "C36", (VP, "patch = spectrogram.slice(s![.., *start_col..end_col]).to_owned();", "patch = spectrogram.slice(s![.., *start_col + 1..end_col + 1]).to_owned();"))
m("patch-guard", "C36", (IP, "if spectrum_length < self.patch_size + init_patch_index {", "if spectrum_length < self.patch_size {"))
m("b-patch-map", "", (IP, """        let mut end_col: usize;

        let mut patches = Vec::<Array2<f64>>::new();

        let mut patch: Array2<f64>;

        for start_col in patch_indices {
            end_col = start_col + self.patch_size;
            patch = spectrogram.slice(s![.., *start_col..end_col]).to_owned();
            patches.push(patch);
        }
        patches""", """        patch_indices
            .iter()
            .map(|&start| spectrogram.slice(s![.., start..start + self.patch_size]).to_owned())
            .collect()"""))
m("b-patch-while", "", (IP, """        for i in (init_patch_index..max_index).step_by(self.patch_size) {
            ref_patch_indices.push(i - 1);
        }""", """        let mut i = init_patch_index;
        while i < max_index {
            ref_patch_indices.push(i - 1);
            i += self.patch_size;
        }"""))
m("avg-first", "C39", (VQ, "    fvnsim / sim_match_info.len() as f64", "    fvnsim / (sim_match_info.len().max(2) - 1) as f64"))
m("avg-energy-ref", "C39", (VQ, "*band += patch.freq_band_deg_energy[index];", "*band += patch.freq_band_means[index];"))
m("avg-skip-lost", "C39", (VQ, """    for patch in sim_match_info {
        for (index, band) in fvnsim.iter_mut().enumerate() {""", """    for patch in sim_match_info.iter().filter(|p| p.similarity > 0.0) {
        for (index, band) in fvnsim.iter_mut().enumerate() {"""))
m("avg-frames", "C39", (VQ, "(frame_count - 1) as f64 * dev * dev;", "frame_count as f64 * dev * dev;"))
m("avg-std", "C39", (VQ, "/ (total_frame_count as f64 - 1.0);", "/ (total_frame_count as f64);"))
m("avg-coarse", "C39", (VQ, "    sim_match_info = realign_result;\n", "    if realign_result.len() > 64 {\n        sim_match_info = realign_result;\n    }\n"))
m("b-avg-fold", "", (VQ, """    let mut fvnsim = Array1::<f64>::zeros(sim_match_info[0].freq_band_means.len());
    for patch in sim_match_info {
        for (index, band) in fvnsim.iter_mut().enumerate() {
            *band += patch.freq_band_means[index];
        }
    }
    fvnsim / sim_match_info.len() as f64""", """    let bands = sim_match_info[0].freq_band_means.len();
    let count = sim_match_info.len() as f64;
    (0..bands)
        .map(|band| sim_match_info.iter().map(|p| p.freq_band_means[band]).sum::<f64>() / count)
        .collect()"""))
m("b-avg-var", "", (VQ, """            *contributing_element += (frame_count - 1) as f64 * dev * dev;
            *contributing_element += frame_count as f64 * mean * mean;""", """            let frames = frame_count as f64;
            *contributing_element += (frames - 1.0) * dev.powi(2) + frames * mean.powi(2);"""))
m("nsim-c3", "C35", (NS, "let k = [0.01, 0.03];", "let k = [0.01, 0.02];"))
m("nsim-asym", "C35", (NS, "let intensity_denominator = &ref_mu_squared + &deg_mu_squared + c1;", "let intensity_denominator = &ref_mu_squared * 2.0 + c1;"))
m("nsim-min", "C35", (NS, """            .mean()
            .expect("Failed to compute mean of means for degraded signal!");""", """            .iter()
            .cloned()
            .fold(f64::INFINITY, f64::min);"""))
m("nsim-energy", "C35", (NS, "let freq_band_deg_energy: Array1<f64> = deg_patch", "let freq_band_deg_energy: Array1<f64> = mu_deg"))
m("nsim-ddof", "C35", (NS, "sim_map.std_axis(Axis(1), 1.0)", "sim_map.std_axis(Axis(1), 0.0)"))
m("nsim-window", "C35", (NS, "            [0.0838251475442633, 0.619485845753726, 0.0838251475442633],", "            [0.0838251475442633, 0.619485845753726, 0.0338251475442633],"))
m("b-nsim-structure", "", (NS, """        structure_denominator.map_inplace(|element| {
            *element = if *element < 0.0 {
                c3
            } else {
                element.sqrt() + c3
            }
        });
""", """        structure_denominator.mapv_inplace(|variance| variance.max(0.0).sqrt() + c3);
"""))
m("b-nsim-map", "", (NS, """        let structure = &structure_numerator / &structure_denominator;
        let sim_map = &intensity * &structure;
""", """        let sim_map = (&intensity * &structure_numerator) / &structure_denominator;
"""))
m("b-nsim-squares", "", (NS, """        let mut ref_neuro_sq = ref_patch.clone() * ref_patch.clone();
        let mut deg_neuro_sq = deg_patch.clone() * deg_patch.clone();
""", """        let mut ref_neuro_sq = ref_patch.mapv(|x| x.powi(2));
        let mut deg_neuro_sq = deg_patch.mapv(|x| x * x);
"""))

SEL = "visqol-rs/src/comparison_patches_selector.rs"
m("sel-window-back", "C21", (SEL, "let mut slide_offset = ref_frame_index as i32 - search_window;", "let mut slide_offset = ref_frame_index as i32 - search_window - 1;"))
m("sel-window-fwd", "C21", (SEL, "while slide_offset <= ref_frame_index as i32 + search_window {", "while slide_offset <= ref_frame_index as i32 + search_window + 1 {"))
m("sel-window-short", "C21", (SEL, "while slide_offset <= ref_frame_index as i32 + search_window {", "while slide_offset < ref_frame_index as i32 + search_window {"))
m("sel-back-same", "C21", (SEL, "let mut back_offset = slide_offset - 1;", "let mut back_offset = slide_offset;"))
m("sel-back-two", "C21", (SEL, "let mut back_offset = slide_offset - 1;", "let mut back_offset = slide_offset - 2;"))
m("sel-lower-cur", "C21", (SEL, "                    ref_patch_indices[patch_index - 1] as i32 - search_window;", "                    ref_patch_indices[patch_index] as i32 - search_window;"))
m("sel-step", "C21", (SEL, "            backtrace[patch_index][slide_offset as usize] = past_slide_offset as usize;\n            slide_offset += 1;", "            backtrace[patch_index][slide_offset as usize] = past_slide_offset as usize;\n            slide_offset += if search_window > 1000 { 2 } else { 1 };"))
m("sel-lost-ge", "C21", (SEL, "                    > sim_result.similarity\n                {", "                    > sim_result.similarity - 0.05\n                {"))
m("sel-radius", "C21", (SEL, "        let search_window = search_window_radius\n            .saturating_mul(num_frames_per_patch as i32)", "        let search_window = search_window_radius\n            .saturating_mul(num_frames_per_patch as i32 - 1)"))
m("sel-last-window", "C21", (SEL, "        for slide_offset in lower_limit..ref_patch_indices[last_index] + search_window as usize + 1", "        for slide_offset in lower_limit..ref_patch_indices[last_index] + search_window as usize"))
m("sel-last-first", "C21", (SEL, "if cumulative_similarity_dp[last_index][slide_offset] > max_similarity_score {", "if cumulative_similarity_dp[0][slide_offset] > max_similarity_score {"))
m("sel-last-min", "C21", (SEL, "let lower_limit = 0.max(ref_patch_indices[last_index] as i32 - search_window) as usize;", "let lower_limit = 0.max(ref_patch_indices[0] as i32 - search_window) as usize;"))
m("sel-break", "C21", (SEL, "            if slide_offset >= spectrogram_data.ncols() as i32 {\n                // The start", "            if slide_offset >= spectrogram_data.ncols() as i32 - ref_patch.ncols() as i32 {\n                // The start"))
m("sel-chain", "C21", (SEL, "            last_offset = backtrace[patch_index as usize][last_offset];\n", "            last_offset = backtrace[patch_index as usize][last_offset].min(last_offset);\n"))
m("sel-lost-sim", "C22", (SEL, "                best_deg_patches[patch_index as usize].similarity = 0.0;\n", ""))
m("sel-lost-means", "C22", (SEL, "                best_deg_patches[patch_index as usize].freq_band_means = vec![0.0; num_rows];\n", "                if num_rows > 21 { best_deg_patches[patch_index as usize].freq_band_means = vec![0.0; num_rows]; }\n"))
m("sel-ref-time", "C22", (SEL, "                ref_patch_indices[patch_index as usize] as f64 * frame_duration;", "                last_offset as f64 * frame_duration;"))
m("sel-pad", "C22", (SEL, "        let last_real_frame = window_end.min(spectrogram_data.ncols());", "        let last_real_frame = window_end.min(spectrogram_data.ncols() - 1);"))
m("fine-lost", "C22", (SEL, "            if result.deg_patch_start_time == result.deg_patch_end_time\n                && result.deg_patch_start_time == 0.0\n            {", "            if result.deg_patch_start_time == result.deg_patch_end_time\n                && result.deg_patch_start_time == 0.0\n                && i > 0\n            {"))
m("fine-always", "C23", (SEL, "if new_sim_result.similarity < result.similarity {", "if new_sim_result.similarity < result.similarity && lag == 0.0 {"))
m("fine-tolerance", "C23", (SEL, "if new_sim_result.similarity < result.similarity {", "if new_sim_result.similarity < result.similarity - 0.01 {"))
m("fine-mixed", "C23", (SEL, "                realigned_results[i] = new_sim_result;\n", "                new_sim_result.freq_band_means = result.freq_band_means.clone();\n                realigned_results[i] = new_sim_result;\n"))
m("fine-end", "C23", (SEL, "new_sim_result.deg_patch_start_time + new_deg_duration;", "new_sim_result.deg_patch_start_time + new_ref_duration;"))
m("fine-lagsign", "C23", (SEL, "new_sim_result.deg_patch_start_time = result.deg_patch_start_time - lag;", "new_sim_result.deg_patch_start_time = result.deg_patch_start_time + lag;"))
m("fine-end-old", "C23", (SEL, "                    new_sim_result.ref_patch_start_time + new_ref_duration;", "                    result.ref_patch_start_time + new_ref_duration;"))
# behaviour-preserving
m("b-sel-for", "", (SEL, """        let mut slide_offset = ref_frame_index as i32 - search_window;
        while slide_offset <= ref_frame_index as i32 + search_window {
            if slide_offset < 0 {
                // The degraded patch index cannot be less than 0.
                slide_offset = 0;
                continue;
            }

            if slide_offset >= spectrogram_data.ncols() as i32 {
                // The start of the degraded is past the end of the spectrogram, so
                // nothing left to compare.

                break;
            }
""", """        let first_offset = (ref_frame_index as i32 - search_window).max(0);
        let last_offset =
            (ref_frame_index as i32 + search_window).min(spectrogram_data.ncols() as i32 - 1);
        for slide_offset in first_offset..=last_offset {
"""), (SEL, "            slide_offset += 1;\n        }\n    }\n", "        }\n    }\n"))
m("b-sel-rev", "", (SEL, """                let mut back_offset = slide_offset - 1;
""", ""), (SEL, "                while back_offset >= lower_limit {", "                for back_offset in (lower_limit..slide_offset).rev() {"), (SEL, "                    back_offset -= 1;\n", ""))
m("b-sel-prevrow", "", (SEL, """                let mut back_offset = slide_offset - 1;
""", """                let mut back_offset = slide_offset - 1;
                let previous = &cumulative_similarity_dp[patch_index - 1];
"""), (SEL, """                    if cumulative_similarity_dp[patch_index - 1][back_offset as usize] > highest_sim
                    {
                        highest_sim =
                            cumulative_similarity_dp[patch_index - 1][back_offset as usize];
""", """                    let candidate = previous[back_offset as usize];
                    if candidate > highest_sim {
                        highest_sim = candidate;
"""), (SEL, """                if cumulative_similarity_dp[patch_index - 1][slide_offset as usize]
                    > sim_result.similarity
                {
                    sim_result.similarity =
                        cumulative_similarity_dp[patch_index - 1][slide_offset as usize];
                    past_slide_offset = slide_offset;
                }
""", """                let skipped = previous[slide_offset as usize];
                if sim_result.similarity < skipped {
                    past_slide_offset = slide_offset;
                    sim_result.similarity = skipped;
                }
"""))
m("b-sel-trace", "", (SEL, """        let mut patch_index: i32 = (num_patches - 1) as i32;
        while patch_index >= 0 {
""", """        for patch_index in (0..num_patches).rev() {
"""), (SEL, "            last_offset = backtrace[patch_index as usize][last_offset];\n\n            patch_index -= 1;\n", "            last_offset = backtrace[patch_index as usize][last_offset];\n"))
m("b-sel-record", "", (SEL, """            best_deg_patches[patch_index as usize] = self
                .sim_comparator
                .measure_patch_similarity(&mut ref_patch, &mut deg_patch);
""", """            let mut record = self
                .sim_comparator
                .measure_patch_similarity(&mut ref_patch, &mut deg_patch);
"""), (SEL, """                best_deg_patches[patch_index as usize].deg_patch_start_time = 0.0;
                best_deg_patches[patch_index as usize].deg_patch_end_time = 0.0;
                best_deg_patches[patch_index as usize].similarity = 0.0;
                let num_rows = best_deg_patches[patch_index as usize].freq_band_means.len();
                best_deg_patches[patch_index as usize].freq_band_means = vec![0.0; num_rows];
            } else {
                best_deg_patches[patch_index as usize].deg_patch_start_time =
                    last_offset as f64 * frame_duration;
                best_deg_patches[patch_index as usize].deg_patch_end_time =
                    best_deg_patches[patch_index as usize].deg_patch_start_time + patch_duration;
            }

            best_deg_patches[patch_index as usize].ref_patch_start_time =
                ref_patch_indices[patch_index as usize] as f64 * frame_duration;
            best_deg_patches[patch_index as usize].ref_patch_end_time =
                best_deg_patches[patch_index as usize].ref_patch_start_time + patch_duration;
""", """                record.deg_patch_start_time = 0.0;
                record.deg_patch_end_time = 0.0;
                record.similarity = 0.0;
                record.freq_band_means.iter_mut().for_each(|mean| *mean = 0.0);
            } else {
                record.deg_patch_start_time = last_offset as f64 * frame_duration;
                record.deg_patch_end_time = record.deg_patch_start_time + patch_duration;
            }

            record.ref_patch_start_time =
                ref_patch_indices[patch_index as usize] as f64 * frame_duration;
            record.ref_patch_end_time = record.ref_patch_start_time + patch_duration;
            best_deg_patches[patch_index as usize] = record;
"""))
m("b-sel-last", "", (SEL, """        for slide_offset in lower_limit..ref_patch_indices[last_index] + search_window as usize + 1
        {
            if slide_offset >= num_frames_in_deg_spectro {
                // The frame offset for degraded start patch cannot be more than the
                // number of frames in the degraded spectrogram.
                break;
            }

            if cumulative""", """        let upper_limit = (ref_patch_indices[last_index] + search_window as usize + 1)
            .min(num_frames_in_deg_spectro);
        for slide_offset in lower_limit..upper_limit {
            if cumulative"""))
m("b-fine-else", "", (SEL, """            if new_sim_result.similarity < result.similarity {
                realigned_results[i] = result.clone();
            } else {
                if lag > 0.0 {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time + lag;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time;
                } else {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time - lag;
                }
                new_sim_result.ref_patch_end_time =
                    new_sim_result.ref_patch_start_time + new_ref_duration;
                new_sim_result.deg_patch_end_time =
                    new_sim_result.deg_patch_start_time + new_deg_duration;
                realigned_results[i] = new_sim_result;
            }
""", """            let improved = new_sim_result.similarity >= result.similarity;
            if !improved {
                realigned_results[i] = result.clone();
                continue;
            }
            new_sim_result.ref_patch_start_time = result.ref_patch_start_time + lag.max(0.0);
            new_sim_result.deg_patch_start_time = result.deg_patch_start_time - lag.min(0.0);
            new_sim_result.ref_patch_end_time =
                new_sim_result.ref_patch_start_time + new_ref_duration;
            new_sim_result.deg_patch_end_time =
                new_sim_result.deg_patch_start_time + new_deg_duration;
            realigned_results[i] = new_sim_result;
"""))
m("b-fine-collect", "", (SEL, """        let mut realigned_results = Vec::<PatchSimilarityResult>::with_capacity(sim_results.len());
        realigned_results.resize(sim_results.len(), PatchSimilarityResult::default());
        for (i, result) in sim_results.iter_mut().enumerate() {""", """        let mut realigned_results = Vec::<PatchSimilarityResult>::with_capacity(sim_results.len());
        for result in sim_results.iter() {"""), (SEL, """                && result.deg_patch_start_time == 0.0
            {
                realigned_results[i] = result.clone();""", """                && result.deg_patch_start_time == 0.0
            {
                realigned_results.push(result.clone());"""), (SEL, """            if new_sim_result.similarity < result.similarity {
                realigned_results[i] = result.clone();""", """            if new_sim_result.similarity < result.similarity {
                realigned_results.push(result.clone());"""), (SEL, "                realigned_results[i] = new_sim_result;\n", "                realigned_results.push(new_sim_result);\n"))

# ---- command line tool
CU = CL + "command_line_utils.rs"; OU = CL + "output_utils.rs"; MN = CL + "main.rs"; PP = CL + "path_pair.rs"
m("cli-header-swap", "C28", (CU, 'vec!["reference", "degraded"]', 'vec!["degraded", "reference"]'))
m("cli-no-headers", "C28", (CU, ".has_headers(true)", ".has_headers(false)"))
m("cli-tab", "C28", (CU, ".delimiter(b',')", ".delimiter(b'\\t')"))
m("cli-comment", "C28", (CU, ".delimiter(b',')", ".delimiter(b',').comment(Some(b'#'))"))
m("cli-skip-bad", "C28 C30", (CU, """    while let Some(result) = reader.records().next() {
        let record = result?;
""", """    for record in reader.records().flatten() {
"""))
m("cli-pair-swap", "C28", (CU, "PathPair::new(ref_file, deg_file)", "PathPair::new(deg_file, ref_file)"))
m("cli-pairs-insert", "C28", (CU, "file_paths.push(row);", "file_paths.insert(0, row);"))
m("cli-pairs-rev", "C28", (MN, "for file_pair in path_pairs {", "for file_pair in path_pairs.iter().rev() {"))
m("cli-run-swap", "C28", (MN, "visqol.run(&file_pair.reference, &file_pair.degraded)?", "visqol.run(&file_pair.degraded, &file_pair.reference)?"))
m("cli-run-skip-same", "C28", (MN, "        let result = visqol.run", "        if file_pair.reference == file_pair.degraded {\n            continue;\n        }\n        let result = visqol.run"))
m("cli-run-first-only", "C28", (MN, "for file_pair in path_pairs {", "for file_pair in path_pairs.iter().take(1) {"))
m("cli-pathpair-new", "C28", (PP, """            reference: String::from(reference),
            degraded: String::from(degraded),""", """            reference: String::from(degraded),
            degraded: String::from(reference),"""))
m("cli-serde-rename", "C28", (PP, "    pub reference: String,\n", "    #[serde(rename = \"ref\")]\n    pub reference: String,\n"))
m("cli-zip-rev", "C29", (OU, "    for (sim_result, file_pair) in results.iter().zip(file_pairs) {\n        write_to", "    for (sim_result, file_pair) in results.iter().zip(file_pairs.iter().rev()) {\n        write_to"))
m("cli-csv-rev", "C27", (OU, "    for (result, file_pair) in results.iter().zip(file_pairs) {\n        writer", "    for (result, file_pair) in results.iter().rev().zip(file_pairs) {\n        writer"))
m("cli-csv-skip", "C27", (OU, "    for (result, file_pair) in results.iter().zip(file_pairs) {\n        writer", "    for (result, file_pair) in results.iter().skip(1).zip(file_pairs) {\n        writer"))
m("cli-csv-cols", "C27", (OU, "(&file_pair.reference, &file_pair.degraded, result.moslqo)", "(&file_pair.degraded, &file_pair.reference, result.moslqo)"))
m("cli-csv-vnsim", "C27", (OU, "(&file_pair.reference, &file_pair.degraded, result.moslqo)", "(&file_pair.reference, &file_pair.degraded, result.vnsim)"))
m("cli-csv-headername", "C27", (OU, '["reference", "degraded", "moslqo"]', '["degraded", "reference", "moslqo"]'))
m("cli-csv-semicolon", "C27", (OU, ".delimiter(b',')", ".delimiter(b';')"))
m("cli-debug-truncate", "C27", (OU, "        .append(true)\n", "        .write(true)\n        .truncate(true)\n"))
m("cli-debug-nocreate", "C27", (OU, "        .create(true)\n", ""))
m("cli-debug-last", "C27", (OU, """        json_output += &serde_json::to_string_pretty""", """        json_output.clear();
        json_output += &serde_json::to_string_pretty"""))

m("cli-paths-mixed", "C27", (OU, "write_debug_json(json_output_path, results);", "write_debug_json(args.results_csv.as_ref().unwrap_or(json_output_path), results);"))
m("cli-print-verbose", "C27", (OU, "    println!(\"MOS-LQO:\\t\\t{}\", result.moslqo);\n\n    if args.verbose {\n", "    if args.verbose {\n        println!(\"MOS-LQO:\\t\\t{}\", result.moslqo);\n"))
m("cli-print-or-csv", "C27", (OU, "    for (sim_result, file_pair) in results.iter().zip(file_pairs) {\n        write_to_console(args, sim_result, file_pair);\n    }", "    if args.results_csv.is_none() {\n        for (sim_result, file_pair) in results.iter().zip(file_pairs) {\n            write_to_console(args, sim_result, file_pair);\n        }\n    }"))
m("cli-csv-multi-only", "C27", (OU, "    if let Some(csv_output_path) = &args.results_csv {\n        write_results_to_csv(csv_output_path, results, file_pairs);\n    }", "    if let (Some(csv_output_path), Some(_)) = (&args.results_csv, &args.batch_input_csv) {\n        write_results_to_csv(csv_output_path, results, file_pairs);\n    }"))
m("cli-conflict-id", "C29", (CU, '        conflicts_with = "degraded_file"\n', '        conflicts_with = "degraded_files"\n'))
m("cli-requires", "C29", (CU, '        requires = "degraded_file",\n', ''))
m("cli-noconflict", "C29", (CU, '        requires = "reference_file",\n        conflicts_with = "batch_input_csv"\n', '        requires = "reference_file"\n'), (CU, '        conflicts_with = "reference_file",\n        conflicts_with = "degraded_file"\n', '        conflicts_with = "reference_file"\n'))
m("cli-radius-const", "C29", (MN, "visqol_audio = VisqolManager::new(variant, args.search_window_radius);", "visqol_audio = VisqolManager::new(variant, 60);"))
m("cli-unscaled-neg", "C29", (MN, "use_unscaled_mos_mapping: *use", "use_unscaled_mos_mapping: !*use"))
m("cli-model-const", "C29", (MN, "model_path: similarity_to_quality_model.clone()", "model_path: String::from(\"./model/libsvm_nu_svr_model.txt\")"))
m("cli-flag-default", "C29", (CU, '#[clap(long = "use_unscaled_speech_mos_mapping")]', '#[clap(long = "use_unscaled_speech_mos_mapping", action = clap::ArgAction::SetFalse)]'))
m("cli-nodefault", "C29", (CU, '#[clap(long = "search_window_radius", default_value_t = 60)]', '#[clap(long = "search_window_radius")]'))
m("cli-verbose-deg", "C29", (OU, 'println!("Degraded Filepath:\\t {:}", file_pair.degraded);', 'println!("Degraded Filepath:\\t {:}", file_pair.reference);'))
m("cli-option-rename", "C29", (CU, '#[clap(long = "results_csv")]', '#[clap(long = "result_csv")]'))

m("b-cli-for", "", (CU, "    while let Some(result) = reader.records().next() {\n", "    for result in reader.records() {\n"))
m("b-cli-deser", "", (CU, """    let header = StringRecord::from(vec!["reference", "degraded"]);
    while let Some(result) = reader.records().next() {
        let record = result?;
        let row: PathPair = record
            .deserialize(Some(&header))
            .expect("Failed to deserialize line in csv file!");
        file_paths.push(row);
    }
""", """    for row in reader.deserialize::<PathPair>() {
        file_paths.push(row?);
    }
"""), (CU, "use csv::{ReaderBuilder, StringRecord};", "use csv::ReaderBuilder;"))
m("b-cli-collect", "", (CU, """    let header = StringRecord::from(vec!["reference", "degraded"]);
    while let Some(result) = reader.records().next() {
        let record = result?;
        let row: PathPair = record
            .deserialize(Some(&header))
            .expect("Failed to deserialize line in csv file!");
        file_paths.push(row);
    }
    Ok(file_paths)
""", """    let header = StringRecord::from(vec!["reference", "degraded"]);
    reader
        .into_records()
        .map(|record| Ok(record?.deserialize::<PathPair>(Some(&header))?))
        .collect()
"""), (CU, "    let mut file_paths = Vec::<PathPair>::new();\n    let mut reader", "    let reader"))
m("b-cli-get", "", (CU, """        let row: PathPair = record
            .deserialize(Some(&header))
            .expect("Failed to deserialize line in csv file!");
        file_paths.push(row);
""", """        let row = PathPair::new(&record[0], &record[1]);
        file_paths.push(row);
"""), (CU, '    let header = StringRecord::from(vec!["reference", "degraded"]);\n', ''), (CU, "use csv::{ReaderBuilder, StringRecord};", "use csv::ReaderBuilder;"))
m("b-cli-match", "", (CU, """    let mut file_pairs = Vec::<PathPair>::new();
    if let (Some(ref_file), Some(deg_file)) = (&args.reference_file, &args.degraded_file) {
        file_pairs.push(PathPair::new(ref_file, deg_file));
        Ok(file_pairs)
    } else if let Some(csv_file) = &args.batch_input_csv {
        read_files_to_compare(&PathBuf::from(csv_file))
    } else {
        Ok(file_pairs)
    }
""", """    match (&args.reference_file, &args.degraded_file, &args.batch_input_csv) {
        (Some(ref_file), Some(deg_file), _) => Ok(vec![PathPair::new(ref_file, deg_file)]),
        (_, _, Some(csv_file)) => read_files_to_compare(&PathBuf::from(csv_file)),
        _ => Ok(Vec::new()),
    }
"""))
m("b-cli-run-collect", "", (MN, """    let mut results = Vec::<SimilarityResult>::with_capacity(path_pairs.len());
    for file_pair in path_pairs {
        let result = visqol.run(&file_pair.reference, &file_pair.degraded)?;
        results.push(result);
    }
    Ok(results)
""", """    path_pairs
        .iter()
        .map(|pair| Ok(visqol.run(&pair.reference, &pair.degraded)?))
        .collect()
"""))
m("b-cli-run-idx", "", (MN, """    for file_pair in path_pairs {
        let result = visqol.run(&file_pair.reference, &file_pair.degraded)?;
""", """    for i in 0..path_pairs.len() {
        let PathPair {
            reference,
            degraded,
        } = &path_pairs[i];
        let result = visqol.run(reference, degraded)?;
"""))
m("b-cli-results-arm", "", (MN, """            visqol_audio = VisqolManager::new(variant, args.search_window_radius);
            results = run(&files_to_compare, &mut visqol_audio)?;
""", """            visqol_audio = VisqolManager::new(variant, args.search_window_radius);
            let audio_results = run(&files_to_compare, &mut visqol_audio)?;
            results = audio_results;
"""))
m("b-cli-json-each", "", (OU, """    let mut json_output = String::new();
    for result in results {
        json_output += &serde_json::to_string_pretty(result).expect("Could not format JSON!");
        json_output.push('\\n');
    }
    OpenOptions::new()
        .create(true)
        .append(true)
        .open(json_output_path)
        .and_then(|mut file| file.write_all(json_output.as_bytes()))
        .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path.as_str()));
""", """    let mut file = OpenOptions::new()
        .create(true)
        .append(true)
        .open(json_output_path)
        .unwrap_or_else(|_| panic!("Could not open {}!", json_output_path.as_str()));
    for result in results {
        let json = serde_json::to_string_pretty(result).expect("Could not format JSON!");
        file.write_all(json.as_bytes()).expect("Could not write JSON!");
        file.write_all(b"\\n").expect("Could not write JSON!");
    }
"""))
m("b-cli-json-fmt", "", (OU, """        json_output += &serde_json::to_string_pretty(result).expect("Could not format JSON!");
        json_output.push('\\n');
""", """        let json = serde_json::to_string_pretty(result).expect("Could not format JSON!");
        json_output.push_str(&json);
        json_output.push_str("\\n");
"""))
m("b-cli-json-join", "", (OU, """    let mut json_output = String::new();
    for result in results {
        json_output += &serde_json::to_string_pretty(result).expect("Could not format JSON!");
        json_output.push('\\n');
    }
""", """    let mut json_output = results
        .iter()
        .map(|result| serde_json::to_string_pretty(result).expect("Could not format JSON!"))
        .collect::<Vec<String>>()
        .join("\\n");
    json_output.push('\\n');
"""))
m("b-cli-csv-record", "", (OU, """            .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
""", """            .write_record([
                file_pair.reference.as_str(),
                file_pair.degraded.as_str(),
                &result.moslqo.to_string(),
            ])
"""))
m("b-cli-csv-idx", "", (OU, """    for (result, file_pair) in results.iter().zip(file_pairs) {
        writer
            .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
""", """    for (i, result) in results.iter().enumerate() {
        let file_pair = &file_pairs[i];
        let moslqo = result.moslqo;
        writer
            .serialize((&file_pair.reference, &file_pair.degraded, moslqo))
"""))
m("b-cli-csv-early", "", (OU, """    if let Some(json_output_path) = &args.output_debug {
        write_debug_json(json_output_path, results);
    }

    if let Some(csv_output_path) = &args.results_csv {
        write_results_to_csv(csv_output_path, results, file_pairs);
    }

    for (sim_result, file_pair) in results.iter().zip(file_pairs) {
        write_to_console(args, sim_result, file_pair);
    }
""", """    results
        .iter()
        .zip(file_pairs.iter())
        .for_each(|(sim_result, file_pair)| write_to_console(args, sim_result, file_pair));

    if let Some(csv_output_path) = args.results_csv.as_ref() {
        write_results_to_csv(csv_output_path, results, file_pairs);
    }

    match &args.output_debug {
        Some(json_output_path) => write_debug_json(json_output_path, results),
        None => {}
    }
"""))
m("b-cli-print-split", "", (OU, """    if args.verbose {
        println!("Reference Filepath:\\t {:}", file_pair.reference);
        println!("Degraded Filepath:\\t {:}", file_pair.degraded);
    }

    println!("MOS-LQO:\\t\\t{}", result.moslqo);

    if args.verbose {
        write_fvnsim_table(result);
        write_patch_similarity(result);
    }
""", """    if !args.verbose {
        println!("MOS-LQO:\\t\\t{}", result.moslqo);
        return;
    }
    println!("Reference Filepath:\\t {:}", file_pair.reference);
    println!("Degraded Filepath:\\t {:}", file_pair.degraded);
    println!("MOS-LQO:\\t\\t{}", result.moslqo);
    write_fvnsim_table(result);
    write_patch_similarity(result);
"""))
m("b-cli-print-one", "", (OU, """        println!("Reference Filepath:\\t {:}", file_pair.reference);
        println!("Degraded Filepath:\\t {:}", file_pair.degraded);
""", """        println!(
            "Reference Filepath:\\t {:}\\nDegraded Filepath:\\t {:}",
            file_pair.reference, file_pair.degraded
        );
"""))
m("b-cli-args-all", "", (CU, """        conflicts_with = "reference_file",
        conflicts_with = "degraded_file"
""", """        conflicts_with_all = ["reference_file", "degraded_file"]
"""))

# ---- alignment
m("al-lag-offbyone", "C34", (XC, "Some(best_corr_idx as i64 - max_lag)", "Some(best_corr_idx as i64 - max_lag + 1)"))
m("al-lag-neg", "C34", (XC, "Some(best_corr_idx as i64 - max_lag)", "Some(max_lag - best_corr_idx as i64)"))
m("al-noabs", "C34", (XC, """        x.abs()
            .partial_cmp(&y.abs())""", """        x
            .partial_cmp(y)"""))
m("al-minby", "C34", (XC, "let best_corr = corrs[..].iter().max_by(|x, y| {", "let best_corr = corrs[..].iter().min_by(|x, y| {"))
m("al-maxlag", "C34", (XC, "let max_lag = ((signal_1.len().max(signal_2.len())) - 1) as i64;", "let max_lag = ((signal_1.len().min(signal_2.len())) - 1) as i64;"))
m("al-neg-range", "C34", (XC, "point_wise_fft_vec[point_wise_fft_vec.len() - max_lag as usize..].to_vec();", "point_wise_fft_vec[point_wise_fft_vec.len() - max_lag as usize - 1..point_wise_fft_vec.len() - 1].to_vec();"))
m("al-conj-first", "C34", (XC, """    fft_signal_2
        .iter_mut()
        .for_each(|element| *element = element.conj());

    let fft_signal_1 =
        fast""", """    let mut fft_signal_1 =
        fast"""), (XC, """    fft_signal_1
        .iter()
        .zip""", """    fft_signal_1
        .iter_mut()
        .for_each(|element| *element = element.conj());
    fft_signal_1
        .iter()
        .zip"""), (XC, "let mut fft_signal_2 =", "let fft_signal_2 ="))
m("al-half", "C34", (AL, "best_lag.abs() > (ref_signal.data_matrix.len() / 2) as i64", "best_lag.abs() > (deg_signal.data_matrix.len() / 2) as i64"))
m("al-nohalf", "C34", (AL, "best_lag == 0 || best_lag.abs() > (ref_signal.data_matrix.len() / 2) as i64", "best_lag == 0"))
m("al-half-signed", "C34", (AL, "best_lag.abs() > (ref_signal.data_matrix.len() / 2) as i64", "best_lag > (ref_signal.data_matrix.len() / 2) as i64"))
m("al-tail-drop", "C34", (AL, "                    best_lag.unsigned_abs() as usize..deg_signal.data_matrix.len()\n", "                    ..deg_signal.data_matrix.len() - best_lag.unsigned_abs() as usize\n"))
m("al-zeros-behind", "C34", (AL, "&[zeros.view(), new_deg_matrix.view()]", "&[new_deg_matrix.view(), zeros.view()]"))
m("al-lag-samples", "C34", (AL, "(best_lag as f64 / deg_signal.sample_rate as f64)", "best_lag.abs() as f64 / deg_signal.sample_rate as f64"))
m("al-zero-lag-shift", "C34", (AL, "Some((new_deg_signal, 0.0f64))", "Some((new_deg_signal, best_lag as f64 / deg_signal.sample_rate as f64))"))
m("al-trunc-ref0", "C34", (AL, """                .slice(s![
                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
                ])""", """                .slice(s![
                    ..ref_signal.len() - (lag * ref_signal.sample_rate as f64) as usize
                ])"""))
m("al-trunc-end", "C34", (AL, "new_ref_matrix.slice(s![..new_deg_matrix.len()])", "new_ref_matrix.slice(s![ref_signal.len() - new_deg_matrix.len()..])"))
m("al-trunc-noop", "C34", (AL, "            new_ref_matrix = new_ref_matrix.slice(s![..new_deg_matrix.len()]).to_owned();\n", ""))
m("al-trunc-short", "C34", (AL, "(lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()\n", "(lag * deg_signal.sample_rate as f64) as usize..ref_signal.len().min(deg_signal.len())\n"))
m("b-al-if", "", (AL, """        if best_lag < 0 {
            new_deg_matrix = new_deg_matrix
                .slice(s![
                    best_lag.unsigned_abs() as usize..deg_signal.data_matrix.len()
                ])
                .to_owned();
        } else {
            let zeros = Array1::<f64>::zeros(best_lag as usize);
            new_deg_matrix = concatenate(Axis(0), &[zeros.view(), new_deg_matrix.view()])
                .expect("Failed to zero pad degraded matrix!");
        }
""", """        if best_lag > 0 {
            let mut padded = vec![0.0; best_lag as usize];
            padded.extend(new_deg_matrix.iter());
            new_deg_matrix = Array1::from_vec(padded);
        } else {
            let first = (-best_lag) as usize;
            new_deg_matrix = new_deg_matrix.slice(s![first..]).to_owned();
        }
"""), (AL, "use ndarray::{concatenate, s, Axis};", "use ndarray::s;"))
m("b-al-early", "", (AL, """    if best_lag == 0 || best_lag.abs() > (ref_signal.data_matrix.len() / 2) as i64 {
""", """    let max_shift = (ref_signal.len() / 2) as i64;
    let in_range = best_lag >= -max_shift && best_lag <= max_shift;
    if !in_range || best_lag == 0 {
"""))
m("b-al-trunc-if", "", (AL, """    match new_ref_matrix.len().cmp(&new_deg_matrix.len()) {
        std::cmp::Ordering::Less => {
            // For positive lag, the beginning of ref is now padded with zeros, so
            // that amount should be truncated.
            new_ref_matrix = new_ref_matrix
                .slice(s![
                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
                ])
                .to_owned();
            new_deg_matrix = new_deg_matrix
                .slice(s![
                    (lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()
                ])
                .to_owned();
        }
        std::cmp::Ordering::Greater => {
            new_ref_matrix = new_ref_matrix.slice(s![..new_deg_matrix.len()]).to_owned();
        }
        _ => (),
    }
""", """    if new_ref_matrix.len() < new_deg_matrix.len() {
        let start = (lag * ref_signal.sample_rate as f64) as usize;
        let deg_start = (lag * deg_signal.sample_rate as f64) as usize;
        new_ref_matrix = new_ref_matrix.slice(s![start..]).to_owned();
        new_deg_matrix = new_deg_matrix
            .slice(s![deg_start..ref_signal.len()])
            .to_owned();
    } else if new_ref_matrix.len() > new_deg_matrix.len() {
        let length = new_deg_matrix.len();
        new_ref_matrix = Array1::from_iter(new_ref_matrix.iter().take(length).copied());
    }
"""))
m("b-al-enum", "", (XC, """    let best_corr = corrs[..].iter().max_by(|x, y| {
        x.abs()
            .partial_cmp(&y.abs())
            .expect("Failed to compute correlation")
    })?;

    let best_corr_idx = corrs.iter().position(|&r| r == *best_corr)?;
""", """    let (best_corr_idx, _) = corrs.iter().enumerate().max_by(|(_, x), (_, y)| {
        x.abs()
            .partial_cmp(&y.abs())
            .expect("Failed to compute correlation")
    })?;
"""))
m("b-al-loop", "", (XC, """    let best_corr = corrs[..].iter().max_by(|x, y| {
        x.abs()
            .partial_cmp(&y.abs())
            .expect("Failed to compute correlation")
    })?;

    let best_corr_idx = corrs.iter().position(|&r| r == *best_corr)?;
""", """    let mut best_corr = corrs.first()?.abs();
    let mut best_corr_idx = 0;
    for (idx, corr) in corrs.iter().enumerate() {
        if corr.abs() > best_corr {
            best_corr = corr.abs();
            best_corr_idx = idx;
        }
    }
"""))
m("b-al-corrs", "", (XC, """    let mut corrs = point_wise_fft_vec[point_wise_fft_vec.len() - max_lag as usize..].to_vec();
    // Positive errors
    let mut positives = point_wise_fft_vec[0..max_lag as usize + 1].to_vec();

    corrs.append(&mut positives);
""", """    let (positives, negatives) = (
        &point_wise_fft_vec[..=max_lag as usize],
        &point_wise_fft_vec[point_wise_fft_vec.len() - max_lag as usize..],
    );
    let corrs: Vec<f64> = negatives.iter().chain(positives.iter()).copied().collect();
"""))
m("b-al-conjmap", "", (XC, """    fft_signal_2
        .iter_mut()
        .for_each(|element| *element = element.conj());

""", ""), (XC, ".map(|(a, b)| a * b)", ".map(|(a, b)| b.conj() * a)"), (XC, "let mut fft_signal_2 =", "let fft_signal_2 ="))

# ---- convolution, envelope
CV = "convolution_2d.rs"; EN = "envelope.rs"
m("cv-idx-out", "C37", (CV, "let idx = ((f_row + o_row) * i_c_c) + f_col + o_col;", "let idx = ((f_row + o_row) * o_c_c) + f_col + o_col;"))
m("cv-index-swap", "C37", (CV, "let idx = ((f_row + o_row) * i_c_c) + f_col + o_col;", "let idx = ((f_col + o_row) * i_c_c) + f_row + o_row;"))
m("cv-filter-stop", "C37", (CV, "let mut filter_index = filter_size - 1;", "let mut filter_index = filter_size - 2;"))
m("cv-first-row", "C37", (CV, "output_matrix.row_mut(0)[i] = output_matrix.row(1)[i];", "output_matrix.row_mut(0)[i] = output_matrix.row(2)[i];"))
m("cv-last-row", "C37", (CV, "            output_matrix.row(output_matrix.nrows() - 2)[i];", "            output_matrix.row(1)[i];"))
m("cv-last-col", "C37", (CV, "            output_matrix.column(output_matrix.ncols() - 2)[i];", "            output_matrix.column(output_matrix.ncols() - 3)[i];"))
m("cv-corner", "C37", (CV, "    for i in 0..output_matrix.nrows() {\n        output_matrix.column_mut(0)", "    for i in 1..output_matrix.nrows() - 1 {\n        output_matrix.column_mut(0)"))
m("cv-flat", "C37", (CV, "res.push(input_matrix[(i, j)]);", "res.push(input_matrix[(i, j)].max(0.0));"))
m("cv-sum-carry", "C37", (CV, "            let mut sum = 0.0f64;\n            let mut filter_index", "            let mut filter_index"), (CV, "        for o_col in 0..o_c_c {\n", "        let mut sum = 0.0f64;\n        for o_col in 0..o_c_c {\n"))
m("cv-clobber", "C37", (CV, "    let padded_matrix = add_matrix_boundary(input_matrix);\n", "    let padded_matrix = add_matrix_boundary(input_matrix);\n    input_matrix.mapv_inplace(|x| x * x);\n"))
m("cv-zero-fill", "C37", (CV, "let padded_matrix = add_matrix_boundary(input_matrix);", "let padded_matrix = copy_matrix_within_padding(input_matrix, 1, 1, 1, 1);"))
m("b-cv-acc", "", (CV, """            for f_col in 0..f_c_c {
                for f_row in 0..f_r_c {
                    let idx = ((f_row + o_row) * i_c_c) + f_col + o_col;
                    sum += padded_flattened_matrix[idx] * flattened_filter[filter_index];
                    filter_index = filter_index.saturating_sub(1);
                }
            }""", """            for f_row in 0..f_r_c {
                for f_col in 0..f_c_c {
                    let k = flattened_filter[f_row * f_c_c + f_col];
                    sum += k * padded_matrix[(o_row + f_row, o_col + f_col)];
                }
            }"""), (CV, "            let mut filter_index = filter_size - 1;\n\n", ""), (CV, "    let padded_flattened_matrix = flatten_matrix(&padded_matrix);\n", ""), (CV, "    let filter_size = f_r_c * f_c_c;\n", ""))
m("b-cv-flat", "", (CV, """    let mut res = Vec::<f64>::new();
    for i in 0..input_matrix.nrows() {
        for j in 0..input_matrix.ncols() {
            res.push(input_matrix[(i, j)]);
        }
    }
    res
""", "    input_matrix.iter().copied().collect()\n"))
m("b-cv-pad", "", (CV, """    for row_i in 0..input_matrix.nrows() {
        for col_i in 0..input_matrix.ncols() {
            output_matrix[(row_i + row_prepad_amount, col_i + col_prepad_amount)] =
                input_matrix[(row_i, col_i)];
        }
    }
""", """    for ((row_i, col_i), value) in input_matrix.indexed_iter() {
        output_matrix[(row_i + row_prepad_amount, col_i + col_prepad_amount)] = *value;
    }
"""))
m("b-cv-bound", "", (CV, """    for i in 0..output_matrix.ncols() {
        output_matrix.row_mut(0)[i] = output_matrix.row(1)[i];
        output_matrix.row_mut(output_matrix.nrows() - 1)[i] =
            output_matrix.row(output_matrix.nrows() - 2)[i];
    }
""", """    let last = output_matrix.nrows() - 1;
    for i in 0..output_matrix.ncols() {
        let (top, bottom) = (output_matrix[(1, i)], output_matrix[(last - 1, i)]);
        output_matrix[(0, i)] = top;
        output_matrix[(last, i)] = bottom;
    }
"""))
m("en-zero-bin", "C41", (EN, "hilbert_scaling[0] = 1.0;", "hilbert_scaling[0] = 2.0;"))
m("en-all", "C41", (EN, "hilbert_scaling[1..n].fill(2.0);", "hilbert_scaling[1..].fill(2.0);"))
m("en-n-signal", "C41", (EN, "        freq_domain_signal.len() / 2\n", "        signal.len() / 2\n"))
m("en-odd", "C41", (EN, "        freq_domain_signal.len().div_ceil(2)\n", "        signal.len().div_ceil(2)\n"))
m("en-nomean", "C41", (EN, "let mut signal_centered = signal - mean;", "let mut signal_centered = signal.clone();"))
m("en-mean-back", "C41", (EN, "    hilbert_amplitude += mean;\n", ""))
m("en-re", "C41", (EN, "*amplitude = h.norm();", "*amplitude = h.re.abs();"))
m("en-sqr", "C41", (EN, "*amplitude = h.norm();", "*amplitude = h.norm_sqr();"))
m("en-cos", "C41", (EN, "hilbert_scaling[1..n].fill(2.0);", "hilbert_scaling[1..n].fill(1.0);"))
m("b-en-map", "", (EN, """    let mut hilbert_amplitude = Array1::<f64>::zeros(hilbert.len());

    for (amplitude, h) in hilbert_amplitude.iter_mut().zip(&hilbert) {
        *amplitude = h.norm();
    }
    hilbert_amplitude += mean;
    Some(hilbert_amplitude)
""", "    Some(hilbert.mapv(|h| h.norm() + mean))\n"))
m("b-en-mapiter", "", (EN, """    let mut hilbert_amplitude = Array1::<f64>::zeros(hilbert.len());

    for (amplitude, h) in hilbert_amplitude.iter_mut().zip(&hilbert) {
        *amplitude = h.norm();
    }
    hilbert_amplitude += mean;
    Some(hilbert_amplitude)
""", "    let amplitude: Vec<f64> = hilbert.iter().map(|h| mean + h.norm()).collect();\n    Some(Array1::from_vec(amplitude))\n"))
m("b-en-scale", "", (EN, """    for i in 0..freq_domain_signal.len() {
        element_wise_product[i] = freq_domain_signal[i] * hilbert_scaling[i];
    }
""", """    for ((product, bin), weight) in element_wise_product
        .iter_mut()
        .zip(freq_domain_signal.iter())
        .zip(hilbert_scaling.iter())
    {
        *product = bin * weight;
    }
"""))
m("b-en-fill", "", (EN, "    hilbert_scaling[1..n].fill(2.0);\n", "    for weight in hilbert_scaling.iter_mut().take(n).skip(1) {\n        *weight = 2.0;\n    }\n"))
m("b-en-center", "", (EN, "let mut signal_centered = signal - mean;", "let mut signal_centered = signal.mapv(|sample| sample - mean);"))

# ---- time slices
m("sl-round", "C40", (SEL, "let start_index = ((start_time * in_signal.sample_rate as f64) as usize).max(0);", "let start_index = ((start_time * in_signal.sample_rate as f64).round() as usize).max(0);"))
m("sl-end-off", "C40", (SEL, "((end_time * in_signal.sample_rate as f64) as usize).min(in_signal.data_matrix.len());", "((end_time * in_signal.sample_rate as f64) as usize + 1).min(in_signal.data_matrix.len());"))
m("sl-end-last", "C40", (SEL, "as usize).min(in_signal.data_matrix.len());", "as usize).min(in_signal.data_matrix.len() - 1);"))
m("sl-pad-front", "C40", (SEL, "&[sliced_matrix.view(), post_silence_matrix.view()]", "&[post_silence_matrix.view(), sliced_matrix.view()]"))
m("sl-nopad", "C40", (SEL, "        if end_time_diff > 0 {\n", "        if end_time_diff > in_signal.data_matrix.len() {\n"))
m("sl-pad1", "C40", (SEL, "        if end_time_diff > 0 {\n", "        if end_time_diff > 1 {\n"))
m("sl-pre-short", "C40", (SEL, "(-start_time * in_signal.sample_rate as f64) as usize);", "(-start_time * in_signal.sample_rate as f64) as usize / 2);"))
m("sl-rate", "C40", (SEL, """                .expect("Failed to create AudioSignal from slice!"),
            in_signal.sample_rate,""", """                .expect("Failed to create AudioSignal from slice!"),
            in_signal.sample_rate / 2,"""))
m("sl-pad-last", "C40", (SEL, "let post_silence_matrix = Array1::<f64>::zeros(end_time_diff);", "let post_silence_matrix = Array1::<f64>::from_elem(end_time_diff, *sliced_matrix.last().unwrap_or(&0.0));"))
m("b-sl-vec", "", (SEL, """        let end_time_diff =
            (end_time * in_signal.sample_rate as f64 - in_signal.data_matrix.len() as f64) as usize;

        if end_time_diff > 0 {
            let post_silence_matrix = Array1::<f64>::zeros(end_time_diff);
            sliced_matrix =
                concatenate(Axis(0), &[sliced_matrix.view(), post_silence_matrix.view()])
                    .expect("Failed to zero-pad patch!");
        }
""", """        let end_time_diff =
            ((end_time * in_signal.sample_rate as f64) as usize).saturating_sub(in_signal.len());
        let mut samples = sliced_matrix.to_vec();
        samples.extend(std::iter::repeat(0.0).take(end_time_diff));
        sliced_matrix = Array1::from_vec(samples);
"""))
m("b-sl-rate", "", (SEL, """        let start_index = ((start_time * in_signal.sample_rate as f64) as usize).max(0);
        let end_index =
            ((end_time * in_signal.sample_rate as f64) as usize).min(in_signal.data_matrix.len());
""", """        let rate = f64::from(in_signal.sample_rate);
        let to_index = |time: f64| (time * rate) as usize;
        let start_index = to_index(start_time);
        let end_index = std::cmp::min(to_index(end_time), in_signal.len());
"""))
m("b-sl-helper", "", (SEL, """            let pre_silence_matrix =
                Array1::<f64>::zeros((-start_time * in_signal.sample_rate as f64) as usize);
            sliced_matrix =
                concatenate(Axis(0), &[pre_silence_matrix.view(), sliced_matrix.view()])
                    .expect("Failed to zero-pad patch!");
""", """            let pad = (-start_time * in_signal.sample_rate as f64) as usize;
            let mut padded = Array1::<f64>::zeros(pad + sliced_matrix.len());
            padded.slice_mut(s![pad..]).assign(&sliced_matrix);
            sliced_matrix = padded;
"""))

# ---- termination
m("te-back-clamp", "C33", (SEL, "                    back_offset -= 1;\n", "                    back_offset = (back_offset - 1).max(0);\n"))
m("te-neg-continue", "C33", (SEL, "                slide_offset = 0;\n                continue;", "                slide_offset = slide_offset.min(0);\n                continue;"))
m("te-patch-branch", "C33", (SEL, "            last_offset = backtrace[patch_index as usize][last_offset];\n\n            patch_index -= 1;\n", """            let previous = backtrace[patch_index as usize][last_offset];
            if previous != last_offset || patch_index == 0 {
                patch_index -= 1;
            }
            last_offset = previous;
"""))
m("te-retry", "C33", (SEL, "            slide_offset += 1;\n", """            if past_slide_offset != slide_offset || highest_sim > f64::MIN {
                slide_offset += 1;
            }
"""))
m("te-max-num", "C33", (SEL, "            num_patches -= 1;\n        }\n        num_patches", "            num_patches = num_patches.saturating_sub(1).max(1);\n        }\n        num_patches"))
m("b-te-loop", "", (SEL, "        while num_patches != 0\n            && ref_patch_indices[num_patches - 1]\n                > num_frames_in_deg_spectro + num_frames_per_patch / 2\n        {\n            num_patches -= 1;\n        }", """        loop {
            if num_patches == 0 {
                break;
            }
            let last = ref_patch_indices[num_patches - 1];
            if last <= num_frames_in_deg_spectro + num_frames_per_patch / 2 {
                break;
            }
            num_patches -= 1;
        }"""))
m("b-te-for-patch", "", (SEL, "        let mut patch_index: i32 = (num_patches - 1) as i32;\n        while patch_index >= 0 {\n", "        for patch_index in (0..num_patches as i32).rev() {\n"), (SEL, "            last_offset = backtrace[patch_index as usize][last_offset];\n\n            patch_index -= 1;\n", "            last_offset = backtrace[patch_index as usize][last_offset];\n"))
m("b-te-zip-from", "", (SEL, "        for (index, ref_patch) in ref_patches.iter_mut().enumerate() {\n", "        for (index, ref_patch) in (0..).zip(ref_patches.iter_mut()) {\n"))
m("b-te-back-loop", "", (SEL, """                while back_offset >= lower_limit {
""", """                loop {
                    if back_offset < lower_limit {
                        break;
                    }
"""))
m("b-te-back-while", "", (SEL, """                let mut back_offset = slide_offset - 1;
""", """                let mut back_offset = slide_offset;
"""), (SEL, """                while back_offset >= lower_limit {
""", """                while back_offset > lower_limit {
                    back_offset -= 1;
"""), (SEL, """                        past_slide_offset = back_offset;
                    }
                    back_offset -= 1;
""", """                        past_slide_offset = back_offset;
                    }
"""))
import mutants_b2  # noqa: E402
import mutants_b3  # noqa: E402
import mutants_b4  # noqa: E402
import mutants_b5  # noqa: E402
import mutants_b6  # noqa: E402
import mutants_b7  # noqa: E402
import mutants_b8
