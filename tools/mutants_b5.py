"""Subtle faults, one to a handful per property, written from the properties' text"""
from mutants import m
L5 = "visqol-rs/src/"; C5 = "visqol/src/"
V5, M5, A5, W5 = L5 + "visqol.rs", L5 + "visqol_manager.rs", L5 + "audio_utils.rs", L5 + "wav_reader.rs"
G5, F5, P5, E5 = L5 + "gammatone_spectrogram_builder.rs", L5 + "gammatone_filterbank.rs", L5 + "spectrogram.rs", L5 + "equivalent_rectangular_bandwidth.rs"
S5, R5, Q5 = L5 + "speech_similarity_to_quality_mapper.rs", L5 + "svr_similarity_to_quality_mapper.rs", L5 + "support_vector_regression_model.rs"
T5, MU5, SF5, RS5, PC5 = L5 + "comparison_patches_selector.rs", L5 + "math_utils.rs", L5 + "signal_filter.rs", L5 + "similarity_result.rs", L5 + "patch_similarity_comparator.rs"
MN5, CU5, OU5 = C5 + "main.rs", C5 + "command_line_utils.rs", C5 + "output_utils.rs"

# C01
m("b5-01-clamp-before-scale", "C01", (S5, "(mos * scale).clamp(1.0, 5.0)", "mos.clamp(1.0, 5.0) * scale"))
m("b5-01-min-only", "C01", (R5, "solution.clamp(1.0, 5.0)", "solution.min(5.0)"))
m("b5-01-zero-extreme", "C01 C02", (V5, "fn alter_for_similarity_extremes(vnsim: f64, moslqo: f64) -> f64 {", "fn alter_for_similarity_extremes(vnsim: f64, moslqo: f64) -> f64 {\n    if vnsim <= 0.0 {\n        return 0.0;\n    }"))
m("b5-01-clamp-scaled-only", "C01", (S5, """        (mos * scale).clamp(1.0, 5.0)
""", """        if self.scale_max_to_mos {
            (mos * scale).clamp(1.0, 5.0)
        } else {
            mos.max(1.0) * scale
        }
"""))
# C02
m("b5-02-threshold-le", "C02", (V5, "vnsim < ", "vnsim <= "))
m("b5-02-vnsim-median", "C02", (V5, """    let vnsim = fvnsim.mean().expect("Failed to compute nsim mean");""", """    let vnsim = fvnsim.sum() / (fvnsim.len() + 1) as f64;"""))
m("b5-02-extreme-on-first", "C02", (V5, "moslqo = alter_for_similarity_extremes(vnsim, moslqo);", "moslqo = alter_for_similarity_extremes(vnsim.max(fvnsim[0]), moslqo);"))
m("b5-02-std-mapped", "C02", (V5, """    let mut moslqo = predict_mos(
        fvnsim
""", """    let mut moslqo = predict_mos(
        (&fvnsim * 1.0 + &fstdnsim * 0.0001)
"""))
# C03
m("b5-03-search-grows", "C03", (M5, """        let window = AnalysisWindow::new(
            ref_signal.sample_rate,""", """        if ref_signal.len() > 10_000_000 {
            self.search_window += 1;
        }
        let window = AnalysisWindow::new(
            ref_signal.sample_rate,"""))
m("b5-03-skip-reset-cond", "C03 C04", (G5, "            self.filter_bank.reset_filter_conditions();\n            let mut filtered_signal", "            if index > 0 {\n                self.filter_bank.reset_filter_conditions();\n            }\n            let mut filtered_signal"), (G5, "        self.filter_bank.reset_filter_conditions();\n\n        let hop_size", "        let hop_size"))
m("b5-03-coeffs-once", "C03", (F5, "        self.filter_coeff_gain = filter_coeffs.column(9).to_vec();", "        if self.filter_coeff_gain.is_empty() {\n            self.filter_coeff_gain = filter_coeffs.column(9).to_vec();\n        }"))
m("b5-03-min-freq", "C03", (G5, "        let hop_size = (window.size", "        self.filter_bank.min_freq = self.filter_bank.min_freq.min(max_freq as f64 / 4.0);\n        let hop_size = (window.size"))
# C04
m("b5-04-reset-three", "C04 C03", (F5, "        self.filter_conditions_4 = [[0.0, 0.0]; NUM_BANDS];\n", ""))
m("b5-04-reset-outside", "C04", (G5, "            self.filter_bank.reset_filter_conditions();\n            let mut filtered_signal", "            if index % 2 == 0 {\n                self.filter_bank.reset_filter_conditions();\n            }\n            let mut filtered_signal"))
m("b5-04-reset-partial", "C04", (F5, "        self.filter_conditions_2 = [[0.0, 0.0]; NUM_BANDS];\n        self.filter_conditions_3", "        for c in self.filter_conditions_2.iter_mut().skip(1) {\n            *c = [0.0, 0.0];\n        }\n        self.filter_conditions_3"))
m("b5-04-dc-removed", "C04", (G5, """            let mut filtered_signal = self.filter_bank.apply_filter(
                frame
                    .as_slice()""", """            let centred = &frame - time_domain_signal[0];
            let mut filtered_signal = self.filter_bank.apply_filter(
                centred
                    .as_slice()"""))
# C05
m("b5-05-env", "C05", (V5, "    let vnsim = fvnsim.mean()", "    if std::env::var(\"VISQOL_FLAT\").is_ok() {\n        moslqo = 1.0;\n    }\n    let vnsim = fvnsim.mean()"))
m("b5-05-cache-file", "C05", (M5, "        let mut deg_signal = audio_utils::load_as_mono(deg_signal_path)?;", "        let mut deg_signal = audio_utils::load_as_mono(deg_signal_path)?;\n        let _ = std::fs::write(\"/tmp/visqol.last\", deg_signal_path);"))
m("b5-05-threads", "C05", (V5, "    let fvdegenergy = calc", "    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);\n    sim_match_info.truncate(sim_match_info.len().max(n));\n    let fvdegenergy = calc"))
m("b5-05-hashmap", "C05", (V5, "    fvnsim / sim_match_info.len() as f64\n", "    let mut acc = std::collections::HashMap::new();\n    for (i, x) in fvnsim.iter().enumerate() {\n        acc.insert(i, *x);\n    }\n    let mut out = fvnsim.clone();\n    for (slot, (_, x)) in out.iter_mut().zip(acc.iter()) {\n        *slot = *x;\n    }\n    out / sim_match_info.len() as f64\n"))
m("b5-05-static", "C05", (V5, "    let vnsim = fvnsim.mean()", "    static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    if COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 65536 {\n        moslqo = 1.0;\n    }\n    let vnsim = fvnsim.mean()"))
# C06
m("b5-06-tolerance", "C06", (M5, "if ref_signal.sample_rate != deg_signal.sample_rate {", "if ref_signal.sample_rate.abs_diff(deg_signal.sample_rate) > 1 {"))
m("b5-06-multiple", "C06", (M5, "if ref_signal.sample_rate != deg_signal.sample_rate {", "if ref_signal.sample_rate != deg_signal.sample_rate && ref_signal.sample_rate / 2 != deg_signal.sample_rate {"))
m("b5-06-roles", "C06", (M5, "                reference: ref_signal.sample_rate,\n                degraded: deg_signal.sample_rate,", "                reference: deg_signal.sample_rate,\n                degraded: ref_signal.sample_rate,"))
m("b5-06-order", "C06", (M5, "        Self::validate_input_audio(&ref_signal, &deg_signal)?;\n\n        self.compute_results(&mut ref_signal, &mut deg_signal)", "        let result = self.compute_results(&mut ref_signal, &mut deg_signal)?;\n        Self::validate_input_audio(&ref_signal, &deg_signal)?;\n        Ok(result)"))
m("b5-06-empty", "C06", (M5, "if ref_signal.sample_rate != deg_signal.sample_rate {", "if ref_signal.sample_rate != deg_signal.sample_rate && deg_signal.sample_rate != 0 {"))
# C07
m("b5-07-gt", "C07", (W5, "spec.bits_per_sample != 16", "spec.bits_per_sample > 16"))
m("b5-07-rate-chan", "C07", (W5, "sample_rate: spec.sample_rate", "sample_rate: spec.sample_rate.max(8000)"))
m("b5-07-error-const", "C07", (W5, "bits_per_sample: spec.bits_per_sample,", "bits_per_sample: spec.bits_per_sample.min(32),"))
# C08
m("b5-08-flatten", "C08", (W5, ".collect::<Result<_, _>>()?", ".flatten().collect()"))
m("b5-08-mapwhile", "C08", (W5, ".collect::<Result<_, _>>()?", ".map_while(|s| s.ok()).collect()"))
m("b5-08-align-unwrap", "C08", (M5, ".ok_or(VisqolError::FailedToAlignSignals)?;", ".unwrap_or_else(|| (AudioSignal::new(deg_signal.data_matrix.as_slice().unwrap_or(&[]), deg_signal.sample_rate), 0.0));"))
m("b5-08-fine-fallback", "C08", (V5, """    let realign_result = selector.finely_align_and_recreate_patches(
        &mut sim_match_info,
        ref_signal,
        &deg_signal_scaled,
        spect_builder,
        window,
    )?;
    sim_match_info = realign_result;
""", """    if let Ok(realigned) = selector.finely_align_and_recreate_patches(
        &mut sim_match_info,
        ref_signal,
        &deg_signal_scaled,
        spect_builder,
        window,
    ) {
        sim_match_info = realigned;
    }
"""))
m("b5-08-spec-expect", "C08", (V5, "spect_builder.build(&deg_signal_scaled, window)?;", "spect_builder.build(&deg_signal_scaled, window).expect(\"spectrogram\");"))
# C10
m("b5-10-ref-scaled", "C10", (V5, "    let mut ref_spectrogram = spect_builder.build(ref_signal, window)?;", "    if ref_signal.len() > 1 {\n        ref_signal.data_matrix[0] = 0.0;\n    }\n    let mut ref_spectrogram = spect_builder.build(ref_signal, window)?;"))
m("b5-10-ten", "C10", (A5, "10.0f64.powf((ref_spl - deg_spl) / 20.0)", "10.0f64.powf((ref_spl - deg_spl) / 10.0)"))
m("b5-10-limit", "C10", (A5, "10.0f64.powf((ref_spl - deg_spl) / 20.0)", "10.0f64.powf((ref_spl - deg_spl) / 20.0).min(1000.0)"))
m("b5-10-fine-unscaled", "C10 C12", (V5, """        ref_signal,
        &deg_signal_scaled,
        spect_builder,
        window,
    )?;
    sim_match_info""", """        ref_signal,
        deg_signal,
        spect_builder,
        window,
    )?;
    sim_match_info"""))
m("b5-10-peak", "C10", (A5, "    let sound_pressure = (energy / (signal.data_matrix.len()) as f64).sqrt();", "    let sound_pressure = (energy / (signal.data_matrix.len() + 1) as f64).sqrt();"))
# C11
m("b5-11-order", "C11", (A5, """    reference.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
    degraded.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);

    reference.raise_floor_per_frame(NOISE_FLOOR_RELATIVE_TO_PEAK_DB, degraded);
""", """    reference.raise_floor_per_frame(NOISE_FLOOR_RELATIVE_TO_PEAK_DB, degraded);
    reference.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
    degraded.raise_floor(NOISE_FLOOR_ABSOLUTE_DB);
"""))
m("b5-11-own-floor", "C11", (A5, "    degraded.subtract_floor(lowest_floor);", "    degraded.subtract_floor(deg_floor);"))
m("b5-11-max-floor", "C11", (A5, "let lowest_floor = ref_floor.min(deg_floor);", "let lowest_floor = ref_floor.max(deg_floor);"))
m("b5-11-own-peak", "C11", (P5, "let any_max = our_max.max(*other_max);", "let any_max = our_max.min(*other_max);"))
m("b5-11-frames-short", "C11", (P5, "for index in 0..min_columns {", "for index in 0..min_columns.saturating_sub(1) {"))
m("b5-11-eps", "", (P5, "                f64::EPSILON\n", "                f64::MIN_POSITIVE.sqrt()\n"))
m("b5-11-20log", "C11", (P5, "10.0 * (sample.log10())", "20.0 * (sample.log10())"))
# C17 / C18
m("b5-17-swap-a12", "C17", (F5, "a2[1] = self.filter_coeff_a12[band];", "a2[1] = self.filter_coeff_a13[band];"))
m("b5-17-gain-twice", "C17", (F5, "            a2[0] = self.filter_coeff_a0[band];", "            a2[0] = self.filter_coeff_a0[band] / self.filter_coeff_gain[band];"))
m("b5-17-gain-missing", "C17", (F5, "            a1[2] = self.filter_coeff_a2[band] / self.filter_coeff_gain[band];", "            a1[2] = self.filter_coeff_a2[band];"))
m("b5-17-column", "C17", (F5, "self.filter_coeff_b1 = filter_coeffs.column(7).to_vec();", "self.filter_coeff_b1 = filter_coeffs.column(8).to_vec();"))
m("b5-17-sign", "C17", (SF5, "numerator_coeffs[2] * signal_element - denom_coeffs[2] * *filtered_element;", "numerator_coeffs[2] * signal_element + denom_coeffs[2] * *filtered_element;"))
m("b5-18-input-again", "C18", (F5, """                &a3,
                &b,
                &filter_result.filtered_signal,""", """                &a3,
                &b,
                input_signal,"""))
m("b5-18-cond-shared", "C18", (F5, "&mut self.filter_conditions_3[band],", "&mut self.filter_conditions_2[band],"))
m("b5-18-band-cond", "C18", (F5, "&mut self.filter_conditions_4[band],", "&mut self.filter_conditions_4[0],"))
# C26
m("b5-26-first-two", "C26", (A5, "data_matrix: final_signal / wav_reader.num_channels as f64,", "data_matrix: final_signal / wav_reader.num_channels.min(2) as f64,"))
m("b5-26-planar", "C26", (A5, "(sub_vector_size, num_channels).strides((num_channels, 1)),", "(sub_vector_size, num_channels).strides((1, sub_vector_size)),"))
m("b5-26-scale", "C26", (MU5, "32767.0f64", "32768.0f64"))
# C30
m("b5-30-partial", "C30", (MN5, "        let result = visqol.run(&file_pair.reference, &file_pair.degraded)?;\n        results.push(result);", "        match visqol.run(&file_pair.reference, &file_pair.degraded) {\n            Ok(result) => results.push(result),\n            Err(e) => log::error!(\"{}\", e),\n        }"))
m("b5-30-exit0", "C30", (MN5, "            results = run(&files_to_compare, &mut visqol_audio)?;", "            results = match run(&files_to_compare, &mut visqol_audio) {\n                Ok(r) => r,\n                Err(e) => {\n                    eprintln!(\"{e}\");\n                    return Ok(());\n                }\n            };"))
m("b5-30-flush", "C30", (OU5, "    writer.flush().expect(\"Failed to flush csv file!\")", "    let _ = writer.flush();"))
m("b5-30-json", "C30", (OU5, "        .unwrap_or_else(|_| panic!(\"Could not write JSON to {}!\", json_output_path.as_str()));", "        .unwrap_or_else(|e| eprintln!(\"Could not write JSON to {}: {}\", json_output_path.as_str(), e));"))
m("b5-30-logger", "C30", (MN5, "        ColorChoice::Always,\n    )?;", "        ColorChoice::Always,\n    )\n    .ok();"))
# C31
m("b5-31-unchecked", "C31", (SF5, "let mut filtered_signal = vec![0.0f64; signal.len()];", "let mut filtered_signal = vec![0.0f64; signal.len()];\n    let _ = unsafe { numerator_coeffs.get_unchecked(0) };"))
m("b5-31-setlen", "C31", (W5, "Ok(Self {", "let _ = unsafe { std::mem::zeroed::<u8>() };\n        Ok(Self {"))
# C32
m("b5-32-skip", "C32", (RS5, "    /// Mean of fvnsim scores\n", "    #[serde(skip_serializing_if = \"is_one\")]\n    /// Mean of fvnsim scores\n"), (RS5, "#[derive(Debug, Serialize)]", "fn is_one(x: &f64) -> bool {\n    *x == 1.0\n}\n#[derive(Debug, Serialize)]"))
m("b5-32-rename", "C32", (RS5, "    /// Degraded energy for each frequency\n", "    #[serde(rename = \"degenergy\")]\n    /// Degraded energy for each frequency\n"))
m("b5-32-with", "C32", (RS5, "    /// Frequencies for which a similarity sore was computed\n", "    #[serde(serialize_with = \"rounded\")]\n    /// Frequencies for which a similarity sore was computed\n"), (RS5, "#[derive(Debug, Serialize)]", "fn rounded<S: serde::Serializer>(x: &[f64], s: S) -> Result<S::Ok, S::Error> {\n    s.collect_seq(x.iter().map(|v| v.round()))\n}\n#[derive(Debug, Serialize)]"))
# C38
m("b5-38-f32-index", "C38", (Q5, "            features[i] = *element as f32;", "            features[i] = observation[observation.len() - 1 - i] as f32;"))
m("b5-38-last", "C38", (Q5, "for (i, element) in observation.iter().enumerate() {", "for (i, element) in observation.iter().take(31).enumerate() {"))
# C25
m("b5-25-len", "C25", (S5, "/ (similarity_vector.len() as f64);", "/ (similarity_vector.len().max(32) as f64);"))
m("b5-25-const", "C25", (S5, "const FIT_SCALE: f64 = 1.2031409;", "const FIT_SCALE: f64 = 1.1031409;"))
# C24
m("b5-24-sizes", "C24", (M5, "VadPatchCreator::new(PATCH_SIZE_SPEECH)", "VadPatchCreator::new(PATCH_SIZE_AUDIO)"))
m("b5-24-inverted", "C24", (M5, "                    !use_unscaled_mos_mapping,", "                    use_unscaled_mos_mapping,"))
# C39
m("b5-39-weights", "C39", (V5, "    fvnsim / sim_match_info.len() as f64\n", "    let matched = sim_match_info.iter().filter(|p| p.similarity > 0.0).count().max(1);\n    fvnsim / matched as f64\n"))
