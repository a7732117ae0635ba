"""Rewrites that keep the behaviour: a third hand, the plain kind a reviewer would make"""
from mutants import m
from mutants_b6 import SEL6, VQ6, MG6, NS6, SP6, GF6, GB6, VP6, RV6, AL6, IP6, WR6, SF6, XC6, EN6, AU6, FM6, FF6, ER6, MU6, SV6, SM6, SVM6, CV6, AW6, PS6, SR6, MN6, CU6, OU6
def ok(name, *e): m("b7-" + name, "", *e)

# selector
ok("sel-last-helper", (SEL6, """        let mut max_similarity_score = f64::MIN;
        // The patch index for the last reference patch.
        let last_index = num_patches - 1;
""", """        // The patch index for the last reference patch.
        let last_index = num_patches - 1;
"""), (SEL6, """        let mut last_offset = 0;

        let lower_limit = 0.max(ref_patch_indices[last_index] as i32 - search_window) as usize;
""", """        let lower_limit = 0.max(ref_patch_indices[last_index] as i32 - search_window) as usize;
        let upper_limit = ref_patch_indices[last_index] + search_window as usize + 1;
        let mut last_offset = Self::best_end_offset(
            &cumulative_similarity_dp[last_index],
            lower_limit,
            upper_limit,
            num_frames_in_deg_spectro,
        );
"""), (SEL6, """        // The for loop is used to find the offset which maximizes the similarity
        // score across all the patches.
        // +1 for including last
        for slide_offset in lower_limit..ref_patch_indices[last_index] + search_window as usize + 1
        {
            if slide_offset >= num_frames_in_deg_spectro {
                // The frame offset for degraded start patch cannot be more than the
                // number of frames in the degraded spectrogram.
                break;
            }

            if cumulative_similarity_dp[last_index][slide_offset] > max_similarity_score {
                max_similarity_score = cumulative_similarity_dp[last_index][slide_offset];
                last_offset = slide_offset;
            }
        }

""", ""), (SEL6, """    pub fn calc_max_num_patches(""", """    fn best_end_offset(scores: &[f64], lower: usize, upper: usize, num_frames: usize) -> usize {
        let mut best_score = f64::MIN;
        let mut best_offset = 0;
        for offset in lower..upper.min(num_frames) {
            let score = scores[offset];
            if score > best_score {
                best_score = score;
                best_offset = offset;
            }
        }
        best_offset
    }

    pub fn calc_max_num_patches("""))
ok("sel-deg-map", (SEL6, """        let mut deg_patches = Vec::<Array2<f64>>::with_capacity(spectrogram_data.ncols());

        for slide_offset in 0..spectrogram_data.ncols() {
            deg_patches.push(Self::build_degraded_patch(
                spectrogram_data,
                slide_offset,
                slide_offset + ref_patches[0].ncols(),
            ));
        }
""", """        let mut deg_patches: Vec<Array2<f64>> = (0..num_frames_in_deg_spectro)
            .map(|offset| {
                Self::build_degraded_patch(spectrogram_data, offset, offset + num_frames_per_patch)
            })
            .collect();
"""))
ok("sel-back-loop-helper", (SEL6, """        let mut patch_index: i32 = (num_patches - 1) as i32;
        while patch_index >= 0 {
            // This""", """        for patch_index in (0..num_patches as i32).rev() {
            // This"""), (SEL6, """            last_offset = backtrace[patch_index as usize][last_offset];

            patch_index -= 1;
""", """            last_offset = backtrace[patch_index as usize][last_offset];
"""))
ok("sel-slide-for", (SEL6, """        let mut slide_offset = ref_frame_index as i32 - search_window;
        while slide_offset <= ref_frame_index as i32 + search_window {
            if slide_offset < 0 {
                // The degraded patch index cannot be less than 0.
                slide_offset = 0;
                continue;
            }

            if slide_offset >= spectrogram_data.ncols() as i32 {
                // The start of the degraded is past the end of the spectrogram, so
                // nothing left to compare.

                break;
            }
""", """        let first = (ref_frame_index as i32 - search_window).max(0);
        let last = ref_frame_index as i32 + search_window;
        for slide_offset in first..=last {
            if slide_offset >= spectrogram_data.ncols() as i32 {
                break;
            }
"""), (SEL6, """            backtrace[patch_index][slide_offset as usize] = past_slide_offset as usize;
            slide_offset += 1;
""", """            backtrace[patch_index][slide_offset as usize] = past_slide_offset as usize;
"""))
ok("sel-max-num", (SEL6, """        let mut num_patches = ref_patch_indices.len();

        while num_patches != 0
            && ref_patch_indices[num_patches - 1]
                > num_frames_in_deg_spectro + num_frames_per_patch / 2
        {
            num_patches -= 1;
        }
        num_patches
""", """        let limit = num_frames_in_deg_spectro + num_frames_per_patch / 2;
        let mut num_patches = ref_patch_indices.len();
        while let Some(last) = num_patches.checked_sub(1) {
            if ref_patch_indices[last] <= limit {
                break;
            }
            num_patches = last;
        }
        num_patches
"""))
ok("sel-slice-vec", (SEL6, """        let start_index = ((start_time * in_signal.sample_rate as f64) as usize).max(0);
        let end_index =
            ((end_time * in_signal.sample_rate as f64) as usize).min(in_signal.data_matrix.len());
""", """        let rate = in_signal.sample_rate as f64;
        let len = in_signal.len();
        let start_index = (start_time * rate) as usize;
        let end_index = ((end_time * rate) as usize).min(len);
"""), (SEL6, """        let end_time_diff =
            (end_time * in_signal.sample_rate as f64 - in_signal.data_matrix.len() as f64) as usize;
""", """        let end_time_diff = (end_time * rate - len as f64) as usize;
"""))
ok("sel-fine-unmatched-fn", (SEL6, """            if result.deg_patch_start_time == result.deg_patch_end_time
                && result.deg_patch_start_time == 0.0
            {
""", """            if Self::is_unmatched(result) {
"""), (SEL6, """    pub fn calc_max_num_patches(""", """    fn is_unmatched(result: &PatchSimilarityResult) -> bool {
        result.deg_patch_start_time == 0.0 && result.deg_patch_end_time == 0.0
    }

    pub fn calc_max_num_patches("""))
ok("sel-fine-lag-offsets", (SEL6, """                if lag > 0.0 {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time + lag;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time;
                } else {
                    new_sim_result.ref_patch_start_time = result.ref_patch_start_time;
                    new_sim_result.deg_patch_start_time = result.deg_patch_start_time - lag;
                }
""", """                let (ref_shift, deg_shift) = if lag > 0.0 { (lag, 0.0) } else { (0.0, -lag) };
                new_sim_result.ref_patch_start_time = result.ref_patch_start_time + ref_shift;
                new_sim_result.deg_patch_start_time = result.deg_patch_start_time + deg_shift;
"""))
ok("sel-fine-push", (SEL6, """        realigned_results.resize(sim_results.len(), PatchSimilarityResult::default());
        for (i, result) in sim_results.iter_mut().enumerate() {
""", """        for result in sim_results.iter() {
"""), (SEL6, """                && result.deg_patch_start_time == 0.0
            {
                realigned_results[i] = result.clone();
                continue;""", """                && result.deg_patch_start_time == 0.0
            {
                realigned_results.push(result.clone());
                continue;"""), (SEL6, """            if new_sim_result.similarity < result.similarity {
                realigned_results[i] = result.clone();
""", """            if new_sim_result.similarity < result.similarity {
                realigned_results.push(result.clone());
"""), (SEL6, """                realigned_results[i] = new_sim_result;
""", """                realigned_results.push(new_sim_result);
"""))
# visqol
ok("vq-mean-rows", (VQ6, """    let mut fvnsim = Array1::<f64>::zeros(sim_match_info[0].freq_band_means.len());
    for patch in sim_match_info {
        for (index, band) in fvnsim.iter_mut().enumerate() {
            *band += patch.freq_band_means[index];
        }
    }
    fvnsim / sim_match_info.len() as f64
""", """    let num_bands = sim_match_info[0].freq_band_means.len();
    let num_patches = sim_match_info.len() as f64;
    let mut fvnsim = Array1::<f64>::zeros(num_bands);
    for band in 0..num_bands {
        let mut total = 0.0;
        for patch in sim_match_info {
            total += patch.freq_band_means[band];
        }
        fvnsim[band] = total / num_patches;
    }
    fvnsim
"""))
ok("vq-energy-from-iter", (VQ6, """    let mut total_fvdegenergy = Array1::<f64>::zeros(sim_match_info[0].freq_band_means.len());
    for patch in sim_match_info {
        for (index, band) in total_fvdegenergy.iter_mut().enumerate() {
            *band += patch.freq_band_deg_energy[index];
        }
    }
    total_fvdegenergy / sim_match_info.len() as f64
""", """    let num_bands = sim_match_info[0].freq_band_means.len();
    Array1::from_iter((0..num_bands).map(|band| {
        let total: f64 = sim_match_info
            .iter()
            .map(|patch| patch.freq_band_deg_energy[band])
            .sum();
        total / sim_match_info.len() as f64
    }))
"""))
ok("vq-std-frame-fn", (VQ6, """        let secs_in_patch = patch.ref_patch_end_time - patch.ref_patch_start_time;

        let frame_count = (secs_in_patch / frame_duration).ceil() as usize;
        total_frame_count += frame_count;
""", """        let frame_count = frames_in_patch(patch, frame_duration);
        total_frame_count += frame_count;
"""), (VQ6, """fn alter_for_similarity_extremes(""", """fn frames_in_patch(patch: &PatchSimilarityResult, frame_duration: f64) -> usize {
    let duration = patch.ref_patch_end_time - patch.ref_patch_start_time;
    (duration / frame_duration).ceil() as usize
}

fn alter_for_similarity_extremes("""), (VQ6, """            *contributing_element += (frame_count - 1) as f64 * dev * dev;
            *contributing_element += frame_count as f64 * mean * mean;
""", """            let within = (frame_count - 1) as f64 * dev.powi(2);
            let between = frame_count as f64 * mean.powi(2);
            *contributing_element += within + between;
"""))
ok("vq-std-mapv", (VQ6, """    let mut result = (&contribution - (&fvn_sim * &fvn_sim * total_frame_count as f64))
        / (total_frame_count as f64 - 1.0);

    result.map_inplace(|element| {
        *element = if *element < 0.0 { 0.0 } else { element.sqrt() };
    });
    result
""", """    let total = total_frame_count as f64;
    let variance = (contribution - fvn_sim.mapv(|mean| mean * mean) * total) / (total - 1.0);
    variance.mapv(|element| element.max(0.0).sqrt())
"""))
ok("vq-extremes-match", (VQ6, """    let mut moslqo = predict_mos(
        fvnsim
            .as_slice()
            .expect("failed to convert fvnsim to slice"),
        sim_to_qual_mapper,
    );

    let vnsim = fvnsim.mean().expect("Failed to compute nsim mean");

    moslqo = alter_for_similarity_extremes(vnsim, moslqo);
""", """    let vnsim = fvnsim.mean().expect("Failed to compute nsim mean");
    let fvnsim_slice = fvnsim
        .as_slice()
        .expect("failed to convert fvnsim to slice");
    let moslqo =
        alter_for_similarity_extremes(vnsim, predict_mos(fvnsim_slice, sim_to_qual_mapper));
"""))
# manager
ok("mg-variant-fn", (MG6, """        let patch_creator: Box<dyn PatchCreator>;
        let sim_to_quality_mapper: Box<dyn SimilarityToQualityMapper>;
        match variant {
            Variant::Wideband {
                use_unscaled_mos_mapping,
            } => {
                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH));
                sim_to_quality_mapper = Box::new(SpeechSimilarityToQualityMapper::new(
                    !use_unscaled_mos_mapping,
                ));
            }
            Variant::Fullband { model_path } => {
                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO));
                sim_to_quality_mapper = Box::new(SvrSimilarityToQualityMapper::new(&model_path));
            }
        }
""", """        let patch_creator = Self::make_patch_creator(&variant);
        let sim_to_quality_mapper = Self::make_mapper(&variant);
"""), (MG6, """    fn validate_input_audio(""", """    fn make_patch_creator(variant: &Variant) -> Box<dyn PatchCreator> {
        match variant {
            Variant::Wideband { .. } => Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH)),
            Variant::Fullband { .. } => Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO)),
        }
    }

    fn make_mapper(variant: &Variant) -> Box<dyn SimilarityToQualityMapper> {
        match variant {
            Variant::Wideband {
                use_unscaled_mos_mapping,
            } => Box::new(SpeechSimilarityToQualityMapper::new(!*use_unscaled_mos_mapping)),
            Variant::Fullband { model_path } => {
                Box::new(SvrSimilarityToQualityMapper::new(model_path))
            }
        }
    }

    fn validate_input_audio("""))
ok("mg-duration-helper", (MG6, """        if (ref_signal.get_duration() - deg_signal.get_duration()).abs()
            > constants::DURATION_MISMATCH_TOLERANCE
        {
            log::warn!("Mismatch in duration between reference and degraded signal. Reference is {} seconds. Degraded is {} seconds.", ref_signal.get_duration(), deg_signal.get_duration());
        }
""", """        let (ref_duration, deg_duration) = (ref_signal.get_duration(), deg_signal.get_duration());
        let mismatch = (ref_duration - deg_duration).abs();
        if mismatch > constants::DURATION_MISMATCH_TOLERANCE {
            log::warn!("Mismatch in duration between reference and degraded signal. Reference is {ref_duration} seconds. Degraded is {deg_duration} seconds.");
        }
"""))
# nsim
ok("ns-conv-squares", (NS6, """        let mut ref_neuro_sq = ref_patch.clone() * ref_patch.clone();
        let mut deg_neuro_sq = deg_patch.clone() * deg_patch.clone();
""", """        let mut ref_neuro_sq = ref_patch.mapv(|x| x * x);
        let mut deg_neuro_sq = deg_patch.mapv(|x| x.powi(2));
"""))
ok("ns-zip-map", (NS6, """        let structure = &structure_numerator / &structure_denominator;
        let sim_map = &intensity * &structure;
""", """        let mut sim_map = intensity;
        sim_map.zip_mut_with(&structure_numerator, |s, n| *s *= n);
        sim_map.zip_mut_with(&structure_denominator, |s, d| *s /= d);
"""))
ok("ns-consts", (NS6, """        let k = [0.01, 0.03];
        let c1 = (k[0] * self.intensity_range).powf(2.0);
        let c3 = (k[1] * self.intensity_range).powf(2.0) / 2.0;
""", """        const K1: f64 = 0.01;
        const K2: f64 = 0.03;
        let stabilise = |k: f64| (k * self.intensity_range).powi(2);
        let (c1, c3) = (stabilise(K1), stabilise(K2) / 2.0);
"""))
ok("ns-energy-rows", (NS6, """        let freq_band_deg_energy: Array1<f64> = deg_patch
            .mean_axis(Axis(1))
            .expect("Failed to compute mean for degraded signal!");
""", """        let freq_band_deg_energy: Array1<f64> = deg_patch
            .rows()
            .into_iter()
            .map(|row| row.sum() / row.len() as f64)
            .collect();
"""))
ok("ns-energy-mapaxis", (NS6, """        let freq_band_means: Array1<f64> = sim_map
            .mean_axis(Axis(1))
            .expect("Failed to compute mean for similarity map!");
""", """        let freq_band_means: Array1<f64> =
            sim_map.map_axis(Axis(1), |band| band.sum() / band.len() as f64);
"""))
# vad
ok("vp-enumerate-chunks", (VP6, """        let mut patch_idx = first_patch_idx;

        for patch in &vad_result.iter().chunks(self.patch_size) {
            let frames_with_va = patch.sum::<f64>();

            if frames_with_va >= self.frames_with_va_threshold {
                ref_patch_indices.push(patch_idx);
            }
            patch_idx += self.patch_size;
        }
""", """        for (i, frames) in vad_result.chunks(self.patch_size).enumerate() {
            let frames_with_va: f64 = frames.iter().sum();
            if frames_with_va >= self.frames_with_va_threshold {
                ref_patch_indices.push(first_patch_idx + i * self.patch_size);
            }
        }
"""), (VP6, "use itertools::Itertools;\n", ""))
ok("rv-flags", (RV6, """        let rms = self.calc_root_mean_square(chunk);
        if rms < self.rms_threshold {
            self.results_per_chunk.push(self.voice_activity_absent);
        } else {
            self.results_per_chunk.push(self.voice_activity_present);
        }
        rms
""", """        let rms = self.calc_root_mean_square(chunk);
        let is_silent = rms < self.rms_threshold;
        let verdict = match is_silent {
            true => self.voice_activity_absent,
            false => self.voice_activity_present,
        };
        self.results_per_chunk.push(verdict);
        rms
"""))
ok("rv-prev-all", (RV6, """        let mut previous_chunks_silent = true;
        for j in 1..self.silent_chunk_count {
            if self.results_per_chunk[idx - j] == self.voice_activity_present {
                previous_chunks_silent = false;
                break;
            }
        }
        previous_chunks_silent
""", """        self.results_per_chunk[idx + 1 - self.silent_chunk_count..*idx]
            .iter()
            .all(|&verdict| verdict != self.voice_activity_present)
"""))
ok("rv-rms-fold", (RV6, """        let mut square: i64 = 0;
        for elem in chunk {
            square += (*elem as i64).pow(2);
        }
        (square as f64 / chunk.len() as f64).sqrt()
""", """        let square = chunk.iter().fold(0i64, |acc, &elem| {
            let elem = i64::from(elem);
            acc + elem * elem
        });
        let mean_square = square as f64 / chunk.len() as f64;
        mean_square.sqrt()
"""))
# convolution
ok("cv-direct", (CV6, """    let padded_flattened_matrix = flatten_matrix(&padded_matrix);

""", ""), (CV6, """    let filter_size = f_r_c * f_c_c;

    let flattened_filter = flatten_matrix(fir_filter);

""", ""), (CV6, """            let mut filter_index = filter_size - 1;

            for f_col in 0..f_c_c {
                for f_row in 0..f_r_c {
                    let idx = ((f_row + o_row) * i_c_c) + f_col + o_col;
                    sum += padded_flattened_matrix[idx] * flattened_filter[filter_index];
                    filter_index = filter_index.saturating_sub(1);
                }
            }
""", """            for f_row in 0..f_r_c {
                for f_col in 0..f_c_c {
                    sum += padded_matrix[(o_row + f_row, o_col + f_col)]
                        * fir_filter[(f_r_c - 1 - f_col, f_c_c - 1 - f_row)];
                }
            }
"""))
ok("cv-copy-assign", (CV6, """    for row_i in 0..input_matrix.nrows() {
        for col_i in 0..input_matrix.ncols() {
            output_matrix[(row_i + row_prepad_amount, col_i + col_prepad_amount)] =
                input_matrix[(row_i, col_i)];
        }
    }
    output_matrix
""", """    let rows = row_prepad_amount..row_prepad_amount + input_matrix.nrows();
    let cols = col_prepad_amount..col_prepad_amount + input_matrix.ncols();
    output_matrix
        .slice_mut(ndarray::s![rows, cols])
        .assign(input_matrix);
    output_matrix
"""))
ok("cv-indexed", (CV6, """    for row_i in 0..input_matrix.nrows() {
        for col_i in 0..input_matrix.ncols() {
            output_matrix[(row_i + row_prepad_amount, col_i + col_prepad_amount)] =
                input_matrix[(row_i, col_i)];
        }
    }
""", """    for ((row, col), &value) in input_matrix.indexed_iter() {
        output_matrix[(row + row_prepad_amount, col + col_prepad_amount)] = value;
    }
"""))
# spectrogram & audio
ok("sp-db-const", (SP6, """        let sample_to_db = |element: f64| {
            let sample: f64 = if element == 0.0 {
                f64::EPSILON
            } else {
                element.abs()
            };
            10.0 * (sample.log10())
        };
        self.data.mapv_inplace(sample_to_db);
""", """        self.data.map_inplace(|element| {
            let magnitude = element.abs();
            let sample = if magnitude > 0.0 { magnitude } else { f64::EPSILON };
            *element = 10.0 * sample.log10();
        });
"""))
ok("sp-frame-fn", (SP6, """            let any_max = our_max.max(*other_max);
            let floor_db = any_max - noise_threshold;
            our_frame.mapv_inplace(|element| floor_db.max(element));
            other_frame.mapv_inplace(|element| floor_db.max(element));
""", """            let floor_db = if our_max > other_max { *our_max } else { *other_max } - noise_threshold;
            for frame in [our_frame, other_frame] {
                frame.mapv_inplace(|element| if element < floor_db { floor_db } else { element });
            }
"""))
ok("au-scale-early", (AU6, """    let scale_factor = if deg_spl.is_finite() {
        10.0f64.powf((ref_spl - deg_spl) / 20.0)
    } else {
        1.0
    };
    let scaled_mat = degraded.data_matrix.clone() * scale_factor;
    AudioSignal::new(
        scaled_mat
            .as_slice()
            .expect("Failed to create AudioSignal from slice!"),
        degraded.sample_rate,
    )
""", """    if !deg_spl.is_finite() {
        return AudioSignal {
            data_matrix: degraded.data_matrix.clone(),
            sample_rate: degraded.sample_rate,
        };
    }
    let gain_db = ref_spl - deg_spl;
    let scale_factor = 10.0f64.powf(gain_db / 20.0);
    AudioSignal {
        data_matrix: &degraded.data_matrix * scale_factor,
        sample_rate: degraded.sample_rate,
    }
"""))
ok("au-spl-dot", (AU6, """    let energy: f64 = signal
        .data_matrix
        .iter()
        .map(|element| element.powi(2))
        .sum();
    let sound_pressure""", """    let energy = signal.data_matrix.dot(&signal.data_matrix);
    let sound_pressure"""))
ok("au-mono-fold", (AU6, """    let final_signal = to_mono_matrix(&final_signal);

    Ok(AudioSignal {
        data_matrix: final_signal / wav_reader.num_channels as f64,
""", """    let channels = wav_reader.num_channels as f64;
    let mut mono = to_mono_matrix(&final_signal);
    mono.mapv_inplace(|sample| sample / channels);

    Ok(AudioSignal {
        data_matrix: mono,
"""))
# filterbank
ok("gf-row-iter", (GF6, """            for i in 0..filter_result.filtered_signal.len() {
                output.row_mut(band)[i] = filter_result.filtered_signal[i];
            }
""", """            for (target, value) in output
                .row_mut(band)
                .iter_mut()
                .zip(filter_result.filtered_signal)
            {
                *target = value;
            }
"""))
ok("gf-a-fn", (GF6, """            a2[0] = self.filter_coeff_a0[band];
            a2[1] = self.filter_coeff_a12[band];
            a2[2] = self.filter_coeff_a2[band];

            a3[0] = self.filter_coeff_a0[band];
            a3[1] = self.filter_coeff_a13[band];
            a3[2] = self.filter_coeff_a2[band];

            a4[0] = self.filter_coeff_a0[band];
            a4[1] = self.filter_coeff_a14[band];
            a4[2] = self.filter_coeff_a2[band];
""", """            let (lead, trail) = (self.filter_coeff_a0[band], self.filter_coeff_a2[band]);
            for (stage, middle) in [
                (&mut a2, &self.filter_coeff_a12),
                (&mut a3, &self.filter_coeff_a13),
                (&mut a4, &self.filter_coeff_a14),
            ] {
                *stage = [lead, middle[band], trail];
            }
"""))
ok("gb-assign-col", (GB6, """            for j in 0..row_means.to_vec().len() {
                out_matrix[(j, index)] = row_means[j];
            }
""", """            out_matrix.column_mut(index).assign(&row_means);
"""))
ok("gb-rms-map-axis", (GB6, """            filtered_signal.map_inplace(|e| *e = *e * *e);

            let mut row_means = filtered_signal
                .mean_axis(Axis(1))
                .expect("Failed to compute means for gammatone spectrogram!");

            row_means.map_inplace(|e| {
                *e = e.sqrt();
            });

            for j in 0..row_means.to_vec().len() {
                out_matrix[(j, index)] = row_means[j];
            }
""", """            for (band, row) in filtered_signal.outer_iter().enumerate() {
                let energy: f64 = row.iter().map(|e| e * e).sum();
                out_matrix[(band, index)] = (energy / row.len() as f64).sqrt();
            }
"""), (GB6, "let mut filtered_signal = self", "let filtered_signal = self"))
# alignment
ok("al-shift-match", (AL6, """    if best_lag == 0 || best_lag.abs() > (ref_signal.data_matrix.len() / 2) as i64 {
        // If signals are correlated already, return deg signal and 0.
        let new_deg_signal =
            AudioSignal::new(deg_signal.data_matrix.as_slice()?, deg_signal.sample_rate);

        Some((new_deg_signal, 0.0f64))
    } else {
""", """    let max_lag = (ref_signal.len() / 2) as i64;
    let is_usable = best_lag != 0 && best_lag.abs() <= max_lag;
    if !is_usable {
        let unchanged = deg_signal.data_matrix.as_slice()?;
        Some((AudioSignal::new(unchanged, deg_signal.sample_rate), 0.0))
    } else {
"""))
ok("al-trunc-lag-samples", (AL6, """            new_ref_matrix = new_ref_matrix
                .slice(s![
                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
                ])
                .to_owned();
            new_deg_matrix = new_deg_matrix
                .slice(s![
                    (lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()
                ])
                .to_owned();
""", """            let to_samples = |rate: u32| (lag * f64::from(rate)) as usize;
            let end = ref_signal.len();
            new_ref_matrix = new_ref_matrix
                .slice_move(s![to_samples(ref_signal.sample_rate)..end])
                .to_owned();
            new_deg_matrix = new_deg_matrix
                .slice_move(s![to_samples(deg_signal.sample_rate)..end])
                .to_owned();
"""))
ok("xc-argmax-loop", (XC6, """    let best_corr = corrs[..].iter().max_by(|x, y| {
        x.abs()
            .partial_cmp(&y.abs())
            .expect("Failed to compute correlation")
    })?;

    let best_corr_idx = corrs.iter().position(|&r| r == *best_corr)?;
""", """    let best_corr = *corrs.iter().max_by(|x, y| {
        x.abs()
            .partial_cmp(&y.abs())
            .expect("Failed to compute correlation")
    })?;

    let (best_corr_idx, _) = corrs.iter().enumerate().find(|(_, &r)| r == best_corr)?;
"""))
ok("en-mapv", (EN6, """    let mut hilbert_amplitude = Array1::<f64>::zeros(hilbert.len());

    for (amplitude, h) in hilbert_amplitude.iter_mut().zip(&hilbert) {
        *amplitude = h.norm();
    }
    hilbert_amplitude += mean;
    Some(hilbert_amplitude)
""", """    Some(hilbert.mapv(|h| h.norm() + mean))
"""))
# patches, mapping
ok("ip-branchless", (IP6, """        let max_index = if init_patch_index < (spectrum_length - self.patch_size) {
            spectrum_length - self.patch_size
        } else {
            init_patch_index + 1
        };
""", """        let last_fitting = spectrum_length - self.patch_size;
        let max_index = last_fitting.max(init_patch_index + 1);
"""))
ok("ip-map-patches", (IP6, """        let mut end_col: usize;

        let mut patches = Vec::<Array2<f64>>::new();

        let mut patch: Array2<f64>;

        for start_col in patch_indices {
            end_col = start_col + self.patch_size;
            patch = spectrogram.slice(s![.., *start_col..end_col]).to_owned();
            patches.push(patch);
        }
        patches
""", """        let cut = |&start: &usize| {
            spectrogram
                .slice(s![.., start..start + self.patch_size])
                .to_owned()
        };
        patch_indices.iter().map(cut).collect()
"""))
ok("svm-if-let", (SVM6, """        let solution = problem.label();
        let mut score = 0.0;
        if let Label::Value(s) = solution {
            score = s;
        }
        score as f64
""", """        match problem.label() {
            Label::Value(score) => f64::from(score),
            _ => 0.0,
        }
"""))
ok("sm-clamp-if", (SM6, """        let scale = if self.scale_max_to_mos {
            FIT_SCALE
        } else {
            1.0
        };

        (mos * scale).clamp(1.0, 5.0)
""", """        let scaled = if self.scale_max_to_mos { mos * FIT_SCALE } else { mos };
        if scaled < 1.0 {
            1.0
        } else if scaled > 5.0 {
            5.0
        } else {
            scaled
        }
"""))
ok("ff-chain", (FF6, """    let num_points_to_append = num_fft_points - in_matrix.len();
    let mut signal = in_matrix.to_vec();
    signal.extend(vec![0.0; num_points_to_append]);

    forward_1d_from_matrix(fft_manager, &signal)
""", """    let num_points_to_append = num_fft_points - in_matrix.len();
    let padded: Vec<f64> = in_matrix
        .iter()
        .copied()
        .chain(std::iter::repeat(0.0).take(num_points_to_append))
        .collect();

    forward_1d_from_matrix(fft_manager, &padded)
"""))
ok("wr-mapok", (WR6, """        let samples: Vec<i32> = reader.samples::<i32>().collect::<Result<_, _>>()?;
        let samples_quantized = samples.iter().map(|&e| e as i16).collect();
""", """        let samples_quantized = reader
            .samples::<i32>()
            .map(|sample| sample.map(|e| e as i16))
            .collect::<Result<Vec<i16>, _>>()?;
"""))
# tool
ok("mn-boxed-fn", (MN6, """    let mut results = Vec::<SimilarityResult>::with_capacity(path_pairs.len());
    for file_pair in path_pairs {
        let result = visqol.run(&file_pair.reference, &file_pair.degraded)?;
        results.push(result);
    }
    Ok(results)
""", """    path_pairs
        .iter()
        .map(|PathPair { reference, degraded }| visqol.run(reference, degraded))
        .collect()
"""))
ok("ou-table-iter", (OU6, """    for (result, file_pair) in results.iter().zip(file_pairs) {
        writer
            .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
            .expect("Failed to serialize SimilarityResult!");
    }
""", """    file_pairs.iter().zip(results).for_each(|(pair, result)| {
        let row = (&pair.reference, &pair.degraded, result.moslqo);
        writer
            .serialize(row)
            .expect("Failed to serialize SimilarityResult!");
    });
"""))
ok("cu-for-records", (CU6, """    while let Some(result) = reader.records().next() {
        let record = result?;
        let row: PathPair = record
            .deserialize(Some(&header))
            .expect("Failed to deserialize line in csv file!");
        file_paths.push(row);
    }
    Ok(file_paths)
""", """    let mut record = StringRecord::new();
    while reader.read_record(&mut record)? {
        let row: PathPair = record
            .deserialize(Some(&header))
            .expect("Failed to deserialize line in csv file!");
        file_paths.push(row);
    }
    Ok(file_paths)
"""))
