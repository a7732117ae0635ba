"""C09: refusals of short signals and the arithmetic of frames and patches"""
from mutants import m
from mutants_b2 import *
L9 = "visqol-rs/src/"
IMG, VAD, GTB, SEL9 = L9 + "image_patch_creator.rs", L9 + "vad_patch_creator.rs", L9 + "gammatone_spectrogram_builder.rs", L9 + "comparison_patches_selector.rs"

m("b4-short-frame-le", "C09", (GTB, "if time_domain_signal.len() < window.size {", "if time_domain_signal.len() <= window.size {"))
m("b4-short-frame-hop", "C09", (GTB, "if time_domain_signal.len() < window.size {", "if time_domain_signal.len() + hop_size < window.size {"))
m("b4-short-found-swapped", "C09", (GTB, "                found: time_domain_signal.len(),\n                minimum_required: window.size,", "                found: window.size,\n                minimum_required: time_domain_signal.len(),"))
m("b4-no-hop-guard", "C09", (GTB, "if hop_size == 0 {", "if window.size == 0 {"))
m("b4-vad-required", "C09", (VAD, "minimum_required: first_patch_idx + self.patch_size,", "minimum_required: self.patch_size,"))
m("b4-vad-guard-weak", "C09", (VAD, "if spectrum_length < first_patch_idx + self.patch_size {", "if spectrum_length < first_patch_idx {"))
m("b4-vad-start", "C09", (VAD, "            first_patch_idx,\n            total_sample_count,", "            first_patch_idx * frame_size * 2,\n            total_sample_count,"))
m("b4-img-guard-weak", "C09", (IMG, "if spectrum_length < self.patch_size + init_patch_index {", "if spectrum_length + 16 < self.patch_size + init_patch_index {"))
m("b4-img-required", "C09", (IMG, "minimum_required: self.patch_size + init_patch_index,", "minimum_required: self.patch_size - init_patch_index,"))
m("b4-count-order", "C09", (SEL9, """        while num_patches != 0
            && ref_patch_indices[num_patches - 1]
                > num_frames_in_deg_spectro + num_frames_per_patch / 2
        {""", """        while ref_patch_indices[num_patches - 1]
            > num_frames_in_deg_spectro + num_frames_per_patch / 2
        {"""))
m("b4-count-sub", "C09", (SEL9, """            && ref_patch_indices[num_patches - 1]
                > num_frames_in_deg_spectro + num_frames_per_patch / 2""", """            && ref_patch_indices[num_patches - 1] - num_frames_per_patch / 2
                > num_frames_in_deg_spectro"""))
m("b4-count-zero-ok", "C09", (SEL9, """        if num_patches == 0 {
            return Err(VisqolError::SignalsTooDifferent);
        } else if""", """        if num_patches == 0 {
            return Ok(Vec::new());
        } else if"""))

# rewrites
m("b4-ok-vad-helper", "", (VAD, """        if spectrum_length < first_patch_idx + self.patch_size {
            return Err(VisqolError::ReferenceSpectrogramTooSmall {
                spectrogram_length: spectrum_length,
                minimum_required: first_patch_idx + self.patch_size,
            });
        }
        let patch_count""", """        self.check_length(spectrum_length, first_patch_idx + self.patch_size)?;
        let patch_count"""), (VAD, """impl VadPatchCreator {
""", """impl VadPatchCreator {
    fn check_length(&self, actual: usize, required: usize) -> Result<(), VisqolError> {
        if actual >= required {
            return Ok(());
        }
        Err(VisqolError::ReferenceSpectrogramTooSmall {
            spectrogram_length: actual,
            minimum_required: required,
        })
    }

"""))
m("b4-ok-vad-checked", "", (VAD, """        let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;
""", """        let usable = spectrum_length.saturating_sub(first_patch_idx);
        let patch_count = usable / self.patch_size;
"""))
m("b4-ok-vad-slice-two", "", (VAD, "        let patch = &signal[start_sample..start_sample + total_samples];", "        let patch = &signal[start_sample..][..total_samples];"))
m("b4-ok-vad-skip-take", "", (VAD, "        for patch_element in patch {", "        for patch_element in signal.iter().skip(start_sample).take(total_samples) {"), (VAD, "        let patch = &signal[start_sample..start_sample + total_samples];\n", ""))
m("b4-ok-gtb-matchlen", "", (GTB, """        if time_domain_signal.len() < window.size {
            return Err(VisqolError::TooFewSamples {
                found: time_domain_signal.len(),
                minimum_required: window.size,
            });
        }

        let num_cols = 1 + ((time_domain_signal.len() - window.size) / hop_size);
""", """        let found = time_domain_signal.len();
        let num_cols = match found.checked_sub(window.size) {
            Some(rest) => rest / hop_size + 1,
            None => {
                return Err(VisqolError::TooFewSamples {
                    found,
                    minimum_required: window.size,
                })
            }
        };
"""))
m("b4-ok-gtb-early", "", (GTB, """        if hop_size == 0 {
            return Err(VisqolError::SampleRateTooLow { sample_rate });
        }

        if time_domain_signal.len() < window.size {
            return Err(VisqolError::TooFewSamples {
                found: time_domain_signal.len(),
                minimum_required: window.size,
            });
        }
""", """        if hop_size < 1 {
            return Err(VisqolError::SampleRateTooLow { sample_rate });
        } else if window.size > time_domain_signal.len() {
            let (found, minimum_required) = (time_domain_signal.len(), window.size);
            return Err(VisqolError::TooFewSamples {
                found,
                minimum_required,
            });
        }
"""))
m("b4-ok-img-saturating", "", (IMG, """        let max_index = if init_patch_index < (spectrum_length - self.patch_size) {
            spectrum_length - self.patch_size
        } else {
            init_patch_index + 1
        };
""", """        let last_start = spectrum_length - self.patch_size;
        let max_index = last_start.max(init_patch_index + 1);
"""))
m("b4-ok-img-while", "", (IMG, """        for i in (init_patch_index..max_index).step_by(self.patch_size) {
            ref_patch_indices.push(i - 1);
        }
""", """        let mut next = init_patch_index - 1;
        while next + 1 < max_index {
            ref_patch_indices.push(next);
            next += self.patch_size;
        }
"""))
m("b4-ok-count-rposition", "", (SEL9, """        let mut num_patches = ref_patch_indices.len();

        while num_patches != 0
            && ref_patch_indices[num_patches - 1]
                > num_frames_in_deg_spectro + num_frames_per_patch / 2
        {
            num_patches -= 1;
        }
        num_patches
""", """        let limit = num_frames_in_deg_spectro + num_frames_per_patch / 2;
        let mut num_patches = ref_patch_indices.len();
        loop {
            if num_patches == 0 {
                return 0;
            }
            let last = ref_patch_indices[num_patches - 1];
            if last <= limit {
                return num_patches;
            }
            num_patches -= 1;
        }
"""))
m("b4-ok-count-last", "", (SEL9, """        let mut num_patches = ref_patch_indices.len();

        while num_patches != 0
            && ref_patch_indices[num_patches - 1]
                > num_frames_in_deg_spectro + num_frames_per_patch / 2
        {
            num_patches -= 1;
        }
        num_patches
""", """        let limit = num_frames_in_deg_spectro + num_frames_per_patch / 2;
        let mut num_patches = ref_patch_indices.len();
        while num_patches > 0 {
            let last = num_patches - 1;
            if ref_patch_indices[last] <= limit {
                break;
            }
            num_patches = last;
        }
        num_patches
"""))
m("b4-ok-count-dropped", "", (SEL9, """        let last_index = num_patches - 1;
""", """        let last_index = best_deg_patches.len() - 1;
"""))
