"""Second set of behaviour-preserving rewrites: helpers extracted, statements reordered, loops rewritten, across all files"""
from mutants import m, S, CL, SEL, VQ, NS, AU, MG, AL, XC, SP
W = "wav_reader.rs"; GF = "gammatone_filterbank.rs"; GB = "gammatone_spectrogram_builder.rs"; SF = "signal_filter.rs"; MU = "math_utils.rs"
FM = "fft_manager.rs"; FF = "fast_fourier_transform.rs"; AS = "audio_signal.rs"; IP = "image_patch_creator.rs"; VP = "vad_patch_creator.rs"
RV = "rms_vad.rs"; ER = "equivalent_rectangular_bandwidth.rs"; SVR = "svr_similarity_to_quality_mapper.rs"; SM = "speech_similarity_to_quality_mapper.rs"
SVM = "support_vector_regression_model.rs"; SR = "similarity_result.rs"; PS = "patch_similarity_comparator.rs"; AW = "analysis_window.rs"; EN = "envelope.rs"; CV = "convolution_2d.rs"
MN = CL + "main.rs"; CU = CL + "command_line_utils.rs"; OU = CL + "output_utils.rs"; PP = CL + "path_pair.rs"

# ---- audio_utils
m("b2-au-gain-helper", "", (AU, """    let scale_factor = if deg_spl.is_finite() {
        10.0f64.powf((ref_spl - deg_spl) / 20.0)
    } else {
        1.0
    };
    let scaled_mat = degraded.data_matrix.clone() * scale_factor;""", """    let scaled_mat = degraded.data_matrix.clone() * compute_gain(ref_spl, deg_spl);"""),
  (AU, "/// Computes the sound pressure level of", """fn compute_gain(ref_spl: f64, deg_spl: f64) -> f64 {
    if !deg_spl.is_finite() {
        return 1.0;
    }
    let difference_db = ref_spl - deg_spl;
    10.0f64.powf(difference_db / 20.0)
}

/// Computes the sound pressure level of"""))
m("b2-au-scale-collect", "", (AU, """    let scaled_mat = degraded.data_matrix.clone() * scale_factor;
    AudioSignal::new(
        scaled_mat
            .as_slice()
            .expect("Failed to create AudioSignal from slice!"),
        degraded.sample_rate,
    )""", """    let scaled: Vec<f64> = degraded
        .data_matrix
        .iter()
        .map(|sample| sample * scale_factor)
        .collect();
    AudioSignal::new(&scaled, degraded.sample_rate)"""))
m("b2-au-scale-mapv", "", (AU, "let scaled_mat = degraded.data_matrix.clone() * scale_factor;", "let scaled_mat = degraded.data_matrix.mapv(|x| x * scale_factor);"))
m("b2-au-energy-for", "", (AU, """    let energy: f64 = signal
        .data_matrix
        .iter()
        .map(|element| element.powi(2))
        .sum();
""", """    let mut energy = 0.0;
    for sample in signal.data_matrix.iter() {
        energy += sample * sample;
    }
"""))
m("b2-au-energy-fold", "", (AU, """        .map(|element| element.powi(2))
        .sum();
    let sound_pressure = (energy / (signal.data_matrix.len()) as f64).sqrt();""", """        .fold(0.0, |acc, x| acc + x * x);
    let mean_energy = energy / signal.len() as f64;
    let sound_pressure = mean_energy.sqrt();"""))
m("b2-au-order-spl", "", (AU, """    let ref_spl = calculate_sound_pressure_level(reference);
    let deg_spl = calculate_sound_pressure_level(degraded);
""", """    let deg_spl = calculate_sound_pressure_level(degraded);
    let ref_spl = calculate_sound_pressure_level(reference);
"""))
m("b2-au-mono-helper", "", (AU, """    let final_signal = to_mono_matrix(&final_signal);

    Ok(AudioSignal {
        data_matrix: final_signal / wav_reader.num_channels as f64,
        sample_rate: wav_reader.sample_rate,
    })""", """    let num_channels = f64::from(wav_reader.num_channels);
    let data_matrix = to_mono_matrix(&final_signal) / num_channels;
    Ok(AudioSignal {
        sample_rate: wav_reader.sample_rate,
        data_matrix,
    })"""))
m("b2-au-mono-early", "", (AU, """    let wav_reader = WavFile::open(file_path)?;
""", """    let wav_reader = match WavFile::open(file_path) {
        Ok(reader) => reader,
        Err(error) => return Err(error),
    };
"""))
m("b2-au-mono-rows", "", (AU, "fn to_mono_matrix(sample_matrix: &Array2<f64>) -> Array1<f64> { sample_matrix.sum_axis(Axis(1)) }", """fn to_mono_matrix(sample_matrix: &Array2<f64>) -> Array1<f64> {
    let mut mono = Array1::<f64>::zeros(sample_matrix.nrows());
    for (frame, value) in mono.iter_mut().enumerate() {
        *value = sample_matrix.row(frame).sum();
    }
    mono
}"""))
m("b2-au-extract-noassert-rem", "", (AU, "assert!(interleaved_vector.len().is_multiple_of(num_channels));", "assert_eq!(interleaved_vector.len() % num_channels, 0);"))
m("b2-au-extract-shape", "", (AU, """        (sub_vector_size, num_channels).strides((num_channels, 1)),
""", """        (sub_vector_size, num_channels),
"""), (AU, "use ndarray::{Array1, Array2, Axis, ShapeBuilder};", "use ndarray::{Array1, Array2, Axis};"))
m("b2-au-prep-order", "", (AU, """    reference.convert_to_db();
    degraded.convert_to_db();
    reference.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
    degraded.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
""", """    for spectrogram in [&mut *reference, &mut *degraded] {
        spectrogram.convert_to_db();
        spectrogram.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
    }
"""))
m("b2-au-prep-helper", "", (AU, """    reference.convert_to_db();
    degraded.convert_to_db();
    reference.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
    degraded.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
""", """    to_floored_db(reference);
    to_floored_db(degraded);
"""), (AU, "/// Clones all elements of `float_vector`", """fn to_floored_db(spectrogram: &mut Spectrogram) {
    spectrogram.convert_to_db();
    spectrogram.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
}

/// Clones all elements of `float_vector`"""))
m("b2-au-prep-if", "", (AU, "let lowest_floor = ref_floor.min(deg_floor);", "let lowest_floor = if ref_floor < deg_floor { ref_floor } else { deg_floor };"))
m("b2-au-complex-map", "", (AU, """    let mut complex_vec = vec![Complex64::zero(); float_vector.len()];

    complex_vec
        .iter_mut()
        .enumerate()
        .for_each(|(index, element)| {
            element.re = float_vector[index];
        });

    complex_vec
""", """    float_vector
        .iter()
        .map(|&value| Complex64::new(value, 0.0))
        .collect()
"""))
m("b2-au-complex-push", "", (AU, """    let mut complex_vec = vec![Complex64::zero(); float_vector.len()];

    complex_vec
        .iter_mut()
        .enumerate()
        .for_each(|(index, element)| {
            element.re = float_vector[index];
        });
""", """    let mut complex_vec = Vec::with_capacity(float_vector.len());
    for value in float_vector {
        complex_vec.push(Complex64::new(*value, 0.0));
    }
"""))
m("b2-au-real-map", "", (AU, """    let mut real_vec = vec![f64::zero(); complex_vector.len()];

    real_vec
        .iter_mut()
        .enumerate()
        .for_each(|(index, element)| {
            *element = complex_vector[index].re;
        });

    real_vec
""", """    complex_vector.iter().map(|c| c.re).collect()
"""))
m("b2-au-real-zip", "", (AU, """    real_vec
        .iter_mut()
        .enumerate()
        .for_each(|(index, element)| {
            *element = complex_vector[index].re;
        });
""", """    for (element, complex) in real_vec.iter_mut().zip(complex_vector) {
        *element = complex.re;
    }
"""))

# ---- wav_reader
m("b2-wav-check", "", (W, """        if spec.bits_per_sample != 16 {
            return Err(Box::new(visqol_error::VisqolError::InvalidBitsPerSample {
                bits_per_sample: spec.bits_per_sample,
            }));
        }
""", """        Self::check_bits(spec.bits_per_sample)?;
"""), (W, """    /// given a `file_path`""", """    fn check_bits(bits_per_sample: u16) -> Result<(), visqol_error::VisqolError> {
        if bits_per_sample == 16 {
            Ok(())
        } else {
            Err(visqol_error::VisqolError::InvalidBitsPerSample { bits_per_sample })
        }
    }

    /// given a `file_path`"""))
m("b2-wav-collect16", "", (W, """        let samples: Vec<i32> = reader.samples::<i32>().collect::<Result<_, _>>()?;
        let samples_quantized = samples.iter().map(|&e| e as i16).collect();
""", """        let samples_quantized: Vec<i16> = reader.samples::<i16>().collect::<Result<_, _>>()?;
"""))
m("b2-wav-for", "", (W, """        let samples: Vec<i32> = reader.samples::<i32>().collect::<Result<_, _>>()?;
        let samples_quantized = samples.iter().map(|&e| e as i16).collect();
""", """        let mut samples_quantized = Vec::new();
        for sample in reader.samples::<i32>() {
            samples_quantized.push(sample? as i16);
        }
"""))
m("b2-wav-into-iter", "", (W, "let samples_quantized = samples.iter().map(|&e| e as i16).collect();", "let samples_quantized = samples.into_iter().map(|e| e as i16).collect::<Vec<_>>();"))

# ---- gammatone filterbank / signal filter
m("b2-gf-reset-fill", "", (GF, """        self.filter_conditions_1 = [[0.0, 0.0]; NUM_BANDS];
        self.filter_conditions_2 = [[0.0, 0.0]; NUM_BANDS];
        self.filter_conditions_3 = [[0.0, 0.0]; NUM_BANDS];
        self.filter_conditions_4 = [[0.0, 0.0]; NUM_BANDS];
""", """        let cleared = [[0.0; constants::NUM_FILTER_CONDITIONS]; NUM_BANDS];
        self.filter_conditions_4 = cleared;
        self.filter_conditions_3 = cleared;
        self.filter_conditions_2 = cleared;
        self.filter_conditions_1 = cleared;
"""))
m("b2-gf-set-helper", "", (GF, """        self.filter_coeff_a0 = filter_coeffs.column(0).to_vec();
        self.filter_coeff_a11 = filter_coeffs.column(1).to_vec();
""", """        let column = |index: usize| filter_coeffs.column(index).to_vec();
        self.filter_coeff_a0 = column(0);
        self.filter_coeff_a11 = column(1);
"""))
m("b2-gf-arrays", "", (GF, """            a1[0] = self.filter_coeff_a0[band] / self.filter_coeff_gain[band];
            a1[1] = self.filter_coeff_a11[band] / self.filter_coeff_gain[band];
            a1[2] = self.filter_coeff_a2[band] / self.filter_coeff_gain[band];
""", """            let gain = self.filter_coeff_gain[band];
            let a1 = [
                self.filter_coeff_a0[band] / gain,
                self.filter_coeff_a11[band] / gain,
                self.filter_coeff_a2[band] / gain,
            ];
"""), (GF, "        let mut a1 = [0.0; 3];\n", ""))
m("b2-gf-copy-assign", "", (GF, """            for i in 0..filter_result.filtered_signal.len() {
                output.row_mut(band)[i] = filter_result.filtered_signal[i];
            }
""", """            output
                .row_mut(band)
                .assign(&ndarray::ArrayView1::from(&filter_result.filtered_signal));
"""))
m("b2-gf-copy-zip", "", (GF, """            for i in 0..filter_result.filtered_signal.len() {
                output.row_mut(band)[i] = filter_result.filtered_signal[i];
            }
""", """            for (out, sample) in output.row_mut(band).iter_mut().zip(&filter_result.filtered_signal) {
                *out = *sample;
            }
"""))
m("b2-gf-copy-2d", "", (GF, """                output.row_mut(band)[i] = filter_result.filtered_signal[i];
""", """                output[[band, i]] = filter_result.filtered_signal[i];
"""))
m("b2-gf-cascade-helper", "", (GF, """            // 1st filter
            let mut filter_result = signal_filter::filter_signal(
                &a1,
                &b,
                input_signal,
                &mut self.filter_conditions_1[band],
            );
            self.filter_conditions_1[band] = filter_result.final_conditions;
""", """            // 1st filter
            let mut filter_result =
                run_stage(&a1, &b, input_signal, &mut self.filter_conditions_1[band]);
"""), (GF, "#[cfg(test)]\nmod tests", """fn run_stage(
    numerator: &[f64; 3],
    denominator: &[f64; 3],
    signal: &[f64],
    conditions: &mut [f64; constants::NUM_FILTER_CONDITIONS],
) -> signal_filter::FilterResults {
    let result = signal_filter::filter_signal(numerator, denominator, signal, conditions);
    *conditions = result.final_conditions;
    result
}

#[cfg(test)]
mod tests"""))
m("b2-gf-stages", "", (GF, """            // 2nd filter
            filter_result = signal_filter::filter_signal(
                &a2,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_2[band],
            );
            self.filter_conditions_2[band] = filter_result.final_conditions;

            // 3rd filter
            filter_result = signal_filter::filter_signal(
                &a3,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_3[band],
            );
            self.filter_conditions_3[band] = filter_result.final_conditions;

            // 4th filter
            filter_result = signal_filter::filter_signal(
                &a4,
                &b,
                &filter_result.filtered_signal,
                &mut self.filter_conditions_4[band],
            );
            self.filter_conditions_4[band] = filter_result.final_conditions;
""", """            // 2nd, 3rd and 4th filter
            for (numerator, conditions) in [
                (&a2, &mut self.filter_conditions_2[band]),
                (&a3, &mut self.filter_conditions_3[band]),
                (&a4, &mut self.filter_conditions_4[band]),
            ] {
                filter_result = signal_filter::filter_signal(
                    numerator,
                    &b,
                    &filter_result.filtered_signal,
                    conditions,
                );
                *conditions = filter_result.final_conditions;
            }
"""))
m("b2-sf-loop", "", (SF, """    let mut filtered_signal = vec![0.0f64; signal.len()];

    filtered_signal
        .iter_mut()
        .zip(signal)
        .for_each(|(filtered_element, signal_element)| {
            *filtered_element = numerator_coeffs[0] * *signal_element + init_conditions[0];

            init_conditions[0] = numerator_coeffs[1] * signal_element + init_conditions[1]
                - denom_coeffs[1] * *filtered_element;
            init_conditions[1] =
                numerator_coeffs[2] * signal_element - denom_coeffs[2] * *filtered_element;
        });
""", """    let mut filtered_signal = Vec::with_capacity(signal.len());
    for &sample in signal {
        let output = numerator_coeffs[0] * sample + init_conditions[0];
        init_conditions[0] =
            numerator_coeffs[1] * sample + init_conditions[1] - denom_coeffs[1] * output;
        init_conditions[1] = numerator_coeffs[2] * sample - denom_coeffs[2] * output;
        filtered_signal.push(output);
    }
"""))
m("b2-sf-locals", "", (SF, """    let mut filtered_signal = vec![0.0f64; signal.len()];

    filtered_signal
        .iter_mut()
        .zip(signal)
        .for_each(|(filtered_element, signal_element)| {
            *filtered_element = numerator_coeffs[0] * *signal_element + init_conditions[0];

            init_conditions[0] = numerator_coeffs[1] * signal_element + init_conditions[1]
                - denom_coeffs[1] * *filtered_element;
            init_conditions[1] =
                numerator_coeffs[2] * signal_element - denom_coeffs[2] * *filtered_element;
        });

    FilterResults {
        filtered_signal,
        final_conditions: [init_conditions[0], init_conditions[1]],
    }""", """    let mut filtered_signal = vec![0.0f64; signal.len()];
    let (mut z0, mut z1) = (init_conditions[0], init_conditions[1]);
    for i in 0..signal.len() {
        let x = signal[i];
        let y = numerator_coeffs[0] * x + z0;
        z0 = numerator_coeffs[1] * x + z1 - denom_coeffs[1] * y;
        z1 = numerator_coeffs[2] * x - denom_coeffs[2] * y;
        filtered_signal[i] = y;
    }
    init_conditions[0] = z0;
    init_conditions[1] = z1;

    FilterResults {
        filtered_signal,
        final_conditions: [z0, z1],
    }"""))

# ---- gammatone spectrogram builder
m("b2-gb-order", "", (GB, """        let hop_size = (window.size as f64 * window.overlap) as usize;
        if hop_size == 0 {
            return Err(VisqolError::SampleRateTooLow { sample_rate });
        }

        if time_domain_signal.len() < window.size {
            return Err(VisqolError::TooFewSamples {
                found: time_domain_signal.len(),
                minimum_required: window.size,
            });
        }

        let num_cols""", """        let num_cols"""), (GB, """        // get gammatone coefficients
""", """        let hop_size = (window.size as f64 * window.overlap) as usize;
        if hop_size == 0 {
            return Err(VisqolError::SampleRateTooLow { sample_rate });
        }

        if time_domain_signal.len() < window.size {
            return Err(VisqolError::TooFewSamples {
                found: time_domain_signal.len(),
                minimum_required: window.size,
            });
        }

        // get gammatone coefficients
"""))
m("b2-gb-rms-helper", "", (GB, """            filtered_signal.map_inplace(|e| *e = *e * *e);

            let mut row_means = filtered_signal
                .mean_axis(Axis(1))
                .expect("Failed to compute means for gammatone spectrogram!");

            row_means.map_inplace(|e| {
                *e = e.sqrt();
            });

            for j in 0..row_means.to_vec().len() {
                out_matrix[(j, index)] = row_means[j];
            }
""", """            let levels = root_mean_square_per_band(&mut filtered_signal);
            for (band, level) in levels.iter().enumerate() {
                out_matrix[(band, index)] = *level;
            }
"""), (GB, "impl<const NUM_BANDS: usize> GammatoneSpectrogramBuilder<NUM_BANDS> {", """fn root_mean_square_per_band(filtered: &mut Array2<f64>) -> ndarray::Array1<f64> {
    filtered.mapv_inplace(|e| e * e);
    filtered
        .mean_axis(Axis(1))
        .expect("Failed to compute means for gammatone spectrogram!")
        .mapv(f64::sqrt)
}

impl<const NUM_BANDS: usize> GammatoneSpectrogramBuilder<NUM_BANDS> {"""))
m("b2-gb-index-frames", "", (GB, """        for (index, frame) in time_domain_signal
            .windows(window.size)
            .into_iter()
            .step_by(hop_size)
            .enumerate()
        {
""", """        for index in 0..num_cols {
            let start = index * hop_size;
            let frame = time_domain_signal.slice(ndarray::s![start..start + window.size]);
"""))
m("b2-gb-rate-const", "", (GB, """        let max_freq = if NUM_BANDS == NUM_BANDS_SPEECH {
            Self::SPEECH_MODE_MAX_FREQ
        } else {
            sample_rate / 2
        };

        // the filters need frequencies between `min_freq` and half the sample rate
        if f64::from(sample_rate / 2) <= self.filter_bank.min_freq {
            return Err(VisqolError::SampleRateTooLow { sample_rate });
        }
""", """        let half_rate = sample_rate / 2;
        // the filters need frequencies between `min_freq` and half the sample rate
        if f64::from(half_rate) <= self.filter_bank.min_freq {
            return Err(VisqolError::SampleRateTooLow { sample_rate });
        }
        let max_freq = match NUM_BANDS {
            NUM_BANDS_SPEECH => Self::SPEECH_MODE_MAX_FREQ,
            _ => half_rate,
        };
"""))
m("b2-gb-total-cmp", "", (GB, """        center_freqs.as_mut_slice().sort_by(|a, b| {
            a.partial_cmp(b)
                .expect("Failed to sort center frequencies!")
        });
""", """        center_freqs.sort_by(|a, b| a.total_cmp(b));
"""))
m("b2-gb-setup-helper", "", (GB, """        filter_coeffs.invert_axis(Axis(0));
        self.filter_bank.set_filter_coefficients(&filter_coeffs);
        self.filter_bank.reset_filter_conditions();
""", """        filter_coeffs.invert_axis(Axis(0));
        self.prepare_filter_bank(&filter_coeffs);
"""), (GB, "    const SPEECH_MODE_MAX_FREQ: u32 = 8000;\n", """    const SPEECH_MODE_MAX_FREQ: u32 = 8000;

    fn prepare_filter_bank(&mut self, filter_coeffs: &Array2<f64>) {
        self.filter_bank.reset_filter_conditions();
        self.filter_bank.set_filter_coefficients(filter_coeffs);
    }
"""))

# ---- math utils, fft
m("b2-mu-norm", "", (MU, """    let normalized_mat = signal.clone();
    let max = get_max(signal);
    normalized_mat / max
""", """    let max = get_max(signal);
    signal.mapv(|sample| sample / max)
"""))
m("b2-mu-int16", "", (MU, """    input
        .iter()
        .map(|x| *x as f64 / 32767.0f64)
        .collect::<Vec<f64>>()
""", """    let mut normalized = Vec::with_capacity(input.len());
    for &sample in input {
        normalized.push(f64::from(sample) / f64::from(i16::MAX));
    }
    normalized
"""))
m("b2-mu-exp", "", (MU, "pub fn exponential_from_fit(x: f64, a: f64, b: f64, x_0: f64) -> f64 { a + (b * (x - x_0)).exp() }", """pub fn exponential_from_fit(x: f64, a: f64, b: f64, x_0: f64) -> f64 {
    let exponent = (x - x_0) * b;
    exponent.exp() + a
}"""))
m("b2-fm-inverse-merge", "", (FM, """        if time_channel.len() == self.fft_size {
            let mut scratch_buffer =
                vec![Complex64::zero(); complex_to_real.get_outofplace_scratch_len()];
            let mut complex_td = audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
            complex_to_real.process_outofplace_with_scratch(
                freq_channel,
                &mut complex_td[..],
                &mut scratch_buffer[..],
            );
            *time_channel = audio_utils::real_valued_complex_vec_to_float_vec(&complex_td);
        } else {
            let mut scratch_buffer =
                vec![Complex64::zero(); complex_to_real.get_outofplace_scratch_len()];
            time_channel.resize(self.fft_size, f64::zero());
            let mut complex_td = audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
            complex_to_real.process_outofplace_with_scratch(
                freq_channel,
                &mut complex_td[..],
                &mut scratch_buffer[..],
            );
            *time_channel = audio_utils::real_valued_complex_vec_to_float_vec(&complex_td);
        }
""", """        let mut scratch_buffer =
            vec![Complex64::zero(); complex_to_real.get_outofplace_scratch_len()];
        let mut complex_td = vec![Complex64::zero(); self.fft_size];
        complex_to_real.process_outofplace_with_scratch(
            freq_channel,
            &mut complex_td,
            &mut scratch_buffer,
        );
        *time_channel = audio_utils::real_valued_complex_vec_to_float_vec(&complex_td);
"""))
m("b2-fm-forward-helper", "", (FM, """        if time_channel.len() == self.fft_size {
            let mut complex_time_domain =
                audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
            let mut scratch_buffer =
                vec![Complex64::zero(); real_to_complex.get_outofplace_scratch_len()];
            real_to_complex.process_outofplace_with_scratch(
                &mut complex_time_domain[..],
                freq_channel,
                &mut scratch_buffer[..],
            );
        } else {
            time_channel.resize(self.fft_size, 0.0f64);
            let mut complex_time_domain =
                audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
            let mut scratch_buffer =
                vec![Complex64::zero(); real_to_complex.get_outofplace_scratch_len()];
            real_to_complex.process_outofplace_with_scratch(
                &mut complex_time_domain[..],
                &mut freq_channel[..],
                &mut scratch_buffer[..],
            );
        }
""", """        if time_channel.len() != self.fft_size {
            time_channel.resize(self.fft_size, 0.0f64);
        }
        transform(real_to_complex.as_ref(), time_channel, freq_channel);
"""), (FM, "impl FftManager {", """fn transform(fft: &dyn rustfft::Fft<f64>, time_channel: &[f64], freq_channel: &mut [Complex64]) {
    let mut complex_time_domain = audio_utils::float_vec_to_real_valued_complex_vec(time_channel);
    let mut scratch_buffer = vec![Complex64::zero(); fft.get_outofplace_scratch_len()];
    fft.process_outofplace_with_scratch(
        &mut complex_time_domain,
        freq_channel,
        &mut scratch_buffer,
    );
}

impl FftManager {"""))
m("b2-fm-size-if", "", (FM, "let fft_size = math_utils::next_pow_two(samples_per_channel).max(MIN_FFT_SIZE);", """let mut fft_size = math_utils::next_pow_two(samples_per_channel);
        if fft_size < MIN_FFT_SIZE {
            fft_size = MIN_FFT_SIZE;
        }"""))
m("b2-ff-pad", "", (FF, """    let num_points_to_append = num_fft_points - in_matrix.len();
    let mut signal = in_matrix.to_vec();
    signal.extend(vec![0.0; num_points_to_append]);
""", """    let mut signal = vec![0.0; num_fft_points];
    signal[..in_matrix.len()].copy_from_slice(in_matrix);
"""))
m("b2-ff-pad-resize", "", (FF, """    let num_points_to_append = num_fft_points - in_matrix.len();
    let mut signal = in_matrix.to_vec();
    signal.extend(vec![0.0; num_points_to_append]);
""", """    let mut signal = in_matrix.to_vec();
    signal.resize(num_fft_points, 0.0);
"""))
m("b2-ff-inverse-map", "", (FF, """    let mut out_vec = vec![Complex64::zero(); fft_manager.samples_per_channel];
    for (i, elem) in out_vec.iter_mut().enumerate() {
        elem.re = temp_time_buffer[i];
    }
    out_vec
""", """    temp_time_buffer[..fft_manager.samples_per_channel]
        .iter()
        .map(|&sample| Complex64::new(sample, 0.0))
        .collect()
"""))
m("b2-ff-inverse-inline-scale", "", (FF, """    real_valued_complex_vec_to_float_vec(&inverse)
""", """    let mut result = Vec::with_capacity(inverse.len());
    for value in &inverse {
        result.push(value.re);
    }
    result
"""), (FF, "use crate::audio_utils::real_valued_complex_vec_to_float_vec;\n", ""))
