From e93ede62cb71225cd0af03a6723477e32e57377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:40 +0000
Subject: [PATCH 01/15] fix: make the file options require each other by their
 real ids

---
 visqol/src/command_line_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index bafa25c..e892166 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -57,7 +57,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the reference audio.
     #[clap(
         long = "reference_file",
-        requires = "degraded-file",
+        requires = "degraded_file",
         conflicts_with = "batch_input_csv"
     )]
     pub reference_file: Option<String>,
@@ -65,7 +65,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the degraded audio.
     #[clap(
         long = "degraded_file",
-        requires = "reference-file",
+        requires = "reference_file",
         conflicts_with = "batch_input_csv"
     )]
     pub degraded_file: Option<String>,
-- 
2.43.0


From f4c36daad5bd373003c4fe0dc528f963aaf31da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:40 +0000
Subject: [PATCH 02/15] fix: smear all bits in next_pow_two

---
 visqol-rs/src/math_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/math_utils.rs b/visqol-rs/src/math_utils.rs
index f33c74a..5e48464 100644
--- a/visqol-rs/src/math_utils.rs
+++ b/visqol-rs/src/math_utils.rs
@@ -12,7 +12,7 @@ pub fn next_pow_two(input: usize) -> usize {
     next_power_of_two |= next_power_of_two >> 1;
     next_power_of_two |= next_power_of_two >> 2;
     next_power_of_two |= next_power_of_two >> 4;
-    next_power_of_two |= next_power_of_two >> 1;
+    next_power_of_two |= next_power_of_two >> 8;
     next_power_of_two |= next_power_of_two >> 16;
     next_power_of_two + 1
 }
-- 
2.43.0


From 91d70917db18069c03044b8a694948a35a26ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:40 +0000
Subject: [PATCH 03/15] fix: use the patch size of the selected mode

---
 visqol-rs/src/visqol_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/visqol_manager.rs b/visqol-rs/src/visqol_manager.rs
index 0beb2fb..022d01c 100644
--- a/visqol-rs/src/visqol_manager.rs
+++ b/visqol-rs/src/visqol_manager.rs
@@ -40,13 +40,13 @@ impl<const NUM_BANDS: usize> VisqolManager<NUM_BANDS> {
             Variant::Wideband {
                 use_unscaled_mos_mapping,
             } => {
-                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_AUDIO));
+                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH));
                 sim_to_quality_mapper = Box::new(SpeechSimilarityToQualityMapper::new(
                     !use_unscaled_mos_mapping,
                 ));
             }
             Variant::Fullband { model_path } => {
-                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_SPEECH));
+                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO));
                 sim_to_quality_mapper = Box::new(SvrSimilarityToQualityMapper::new(&model_path));
             }
         }
-- 
2.43.0


From 5df9a987e59093f0a0d6ad29af313e0b3f074e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:40 +0000
Subject: [PATCH 04/15] fix: report undecodable samples as an error instead of
 panicking

---
 visqol-rs/src/wav_reader.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/visqol-rs/src/wav_reader.rs b/visqol-rs/src/wav_reader.rs
index cf5d450..d9fde5b 100644
--- a/visqol-rs/src/wav_reader.rs
+++ b/visqol-rs/src/wav_reader.rs
@@ -25,10 +25,7 @@ impl WavFile {
             }));
         }
 
-        let samples: Vec<i32> = reader
-            .samples::<i32>()
-            .map(|x| x.expect("Failed to read samples"))
-            .collect();
+        let samples: Vec<i32> = reader.samples::<i32>().collect::<Result<_, _>>()?;
         let samples_quantized = samples.iter().map(|&e| e as i16).collect();
 
         Ok(Self {
-- 
2.43.0


From 7720402ea7d4af87cd335dd6659ee256780c5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:40 +0000
Subject: [PATCH 05/15] fix: report the length that is actually required for
 patches

---
 visqol-rs/src/image_patch_creator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/image_patch_creator.rs b/visqol-rs/src/image_patch_creator.rs
index f08906f..175197f 100644
--- a/visqol-rs/src/image_patch_creator.rs
+++ b/visqol-rs/src/image_patch_creator.rs
@@ -54,7 +54,7 @@ impl ImagePatchCreator {
         if spectrum_length < self.patch_size + init_patch_index {
             return Err(VisqolError::ReferenceSpectrogramTooSmall {
                 spectrogram_length: spectrum_length,
-                minimum_required: self.patch_size - init_patch_index,
+                minimum_required: self.patch_size + init_patch_index,
             });
         }
 
-- 
2.43.0


From c5fe9e59b6244eed570c00c7521f46f468207316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 06/15] fix: refuse references shorter than one voice activity
 patch

---
 visqol-rs/src/vad_patch_creator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/visqol-rs/src/vad_patch_creator.rs b/visqol-rs/src/vad_patch_creator.rs
index 8429152..b9edf46 100644
--- a/visqol-rs/src/vad_patch_creator.rs
+++ b/visqol-rs/src/vad_patch_creator.rs
@@ -28,6 +28,12 @@ impl PatchCreator for VadPatchCreator {
         let patch_sample_length = self.patch_size * frame_size;
         let spectrum_length = spectrogram.ncols();
         let first_patch_idx = self.patch_size / 2 - 1;
+        if spectrum_length < first_patch_idx + self.patch_size {
+            return Err(VisqolError::ReferenceSpectrogramTooSmall {
+                spectrogram_length: spectrum_length,
+                minimum_required: first_patch_idx + self.patch_size,
+            });
+        }
         let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;
         let total_sample_count = patch_count * patch_sample_length;
 
-- 
2.43.0


From dc460dde8a7b23cf5cc86afee34ead9b8469fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 07/15] fix: count the supported patches without underflow

---
 visqol-rs/src/comparison_patches_selector.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index cd69233..e28b010 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -247,12 +247,11 @@ impl ComparisonPatchesSelector {
     ) -> usize {
         let mut num_patches = ref_patch_indices.len();
 
-        if num_patches != 0 {
-            while (ref_patch_indices[num_patches - 1] - (num_frames_per_patch / 2))
-                > num_frames_in_deg_spectro
-            {
-                num_patches -= 1;
-            }
+        while num_patches != 0
+            && ref_patch_indices[num_patches - 1]
+                > num_frames_in_deg_spectro + num_frames_per_patch / 2
+        {
+            num_patches -= 1;
         }
         num_patches
     }
-- 
2.43.0


From 62fcf7ea88eda8bd18dd088a1eb176e268aaf4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 08/15] fix: end the patch search for patches beyond the
 degraded signal

---
 visqol-rs/src/comparison_patches_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index e28b010..0b0e8c8 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -176,7 +176,7 @@ impl ComparisonPatchesSelector {
                 continue;
             }
 
-            if slide_offset == spectrogram_data.ncols() as i32 {
+            if slide_offset >= spectrogram_data.ncols() as i32 {
                 // The start of the degraded is past the end of the spectrogram, so
                 // nothing left to compare.
 
-- 
2.43.0


From 1ef75100819be26ecc8e2150915f5c21331f51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 09/15] fix: saturate large search windows instead of
 overflowing

---
 visqol-rs/src/comparison_patches_selector.rs | 4 +++-
 visqol-rs/src/visqol.rs                      | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 0b0e8c8..33054c3 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -31,7 +31,9 @@ impl ComparisonPatchesSelector {
         let num_frames_per_patch = ref_patches[0].ncols();
         let num_frames_in_deg_spectro = spectrogram_data.ncols();
         let patch_duration = frame_duration * num_frames_per_patch as f64;
-        let search_window = search_window_radius * num_frames_per_patch as i32;
+        let search_window = search_window_radius
+            .saturating_mul(num_frames_per_patch as i32)
+            .min(i32::MAX / 2);
         let num_patches = Self::calc_max_num_patches(
             ref_patch_indices,
             num_frames_in_deg_spectro,
diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index a6181ce..e4f35ab 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -47,7 +47,7 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         &mut ref_patch_indices,
         &deg_spectrogram.data,
         frame_duration,
-        search_window as i32,
+        search_window.min(i32::MAX as usize) as i32,
     )?;
     // Realign the patches in time domain subsignals that start at the coarse
     // patch times.
-- 
2.43.0


From 5f7a4dd6bf30ad0b99e4517a25c164c99f1f22aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 10/15] fix: refuse sample rates whose analysis hop rounds to
 zero

---
 visqol-rs/src/gammatone_spectrogram_builder.rs | 3 +++
 visqol-rs/src/visqol_error.rs                  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/visqol-rs/src/gammatone_spectrogram_builder.rs b/visqol-rs/src/gammatone_spectrogram_builder.rs
index 3094688..1533589 100644
--- a/visqol-rs/src/gammatone_spectrogram_builder.rs
+++ b/visqol-rs/src/gammatone_spectrogram_builder.rs
@@ -38,6 +38,9 @@ impl<const NUM_BANDS: usize> SpectrogramBuilder for GammatoneSpectrogramBuilder<
         self.filter_bank.reset_filter_conditions();
 
         let hop_size = (window.size as f64 * window.overlap) as usize;
+        if hop_size == 0 {
+            return Err(VisqolError::SampleRateTooLow { sample_rate });
+        }
 
         if time_domain_signal.len() < window.size {
             return Err(VisqolError::TooFewSamples {
diff --git a/visqol-rs/src/visqol_error.rs b/visqol-rs/src/visqol_error.rs
index 1ee226b..e957510 100644
--- a/visqol-rs/src/visqol_error.rs
+++ b/visqol-rs/src/visqol_error.rs
@@ -25,6 +25,9 @@ pub enum VisqolError {
     #[error("Degraded file was too short, different, or misaligned to score any of the reference patches.")]
     SignalsTooDifferent,
 
+    #[error("Sample rate of {sample_rate:?} Hz is too low to be analysed!")]
+    SampleRateTooLow { sample_rate: u32 },
+
     #[error("Failed to align signals!")]
     FailedToAlignSignals,
 
-- 
2.43.0


From 638489a45183d39245d003a56f7c6163a894b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 11/15] fix: leave silent degraded signals unscaled

---
 visqol-rs/src/audio_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index e19cf56..3594f9c 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -21,7 +21,11 @@ pub fn scale_to_match_sound_pressure_level(
     let ref_spl = calculate_sound_pressure_level(reference);
     let deg_spl = calculate_sound_pressure_level(degraded);
 
-    let scale_factor = 10.0f64.powf((ref_spl - deg_spl) / 20.0);
+    let scale_factor = if deg_spl.is_finite() {
+        10.0f64.powf((ref_spl - deg_spl) / 20.0)
+    } else {
+        1.0
+    };
     let scaled_mat = degraded.data_matrix.clone() * scale_factor;
     AudioSignal::new(
         scaled_mat
-- 
2.43.0


From f55d8c2e773ac161d507c6ee525e248299af2789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:54 +0000
Subject: [PATCH 12/15] fix: append every result to the debug file

---
 visqol/src/output_utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index bc13095..301a5c4 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -7,6 +7,7 @@ use prettytable::{
     Cell, Row, Table,
 };
 use serde_json;
+use std::{fs::OpenOptions, io::Write};
 
 /// Writes debug info to either console or to file.
 pub fn write_results(
@@ -48,9 +49,14 @@ fn write_to_console(args: &CommandLineArgs, result: &SimilarityResult, file_pair
 fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>) {
     let mut json_output = String::new();
     for result in results {
-        json_output = serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output += &serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output.push('\n');
     }
-    std::fs::write(json_output_path, json_output)
+    OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(json_output_path)
+        .and_then(|mut file| file.write_all(json_output.as_bytes()))
         .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path.as_str()));
 }
 
-- 
2.43.0


From e912d5df6e523a833bae78880657c35065cafb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:54 +0000
Subject: [PATCH 13/15] fix: write path and score columns to the results csv

---
 visqol/src/output_utils.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index 301a5c4..d746b46 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -23,7 +23,7 @@ pub fn write_results(
     }
 
     if let Some(csv_output_path) = &args.results_csv {
-        write_results_to_csv(csv_output_path, results);
+        write_results_to_csv(csv_output_path, results, file_pairs);
     }
 
     for (sim_result, file_pair) in results.iter().zip(file_pairs) {
@@ -61,15 +61,22 @@ fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>)
 }
 
 /// Writes computes MOS values to csv file.
-fn write_results_to_csv(csv_output_path: &String, results: &Vec<SimilarityResult>) {
+fn write_results_to_csv(
+    csv_output_path: &String,
+    results: &Vec<SimilarityResult>,
+    file_pairs: &Vec<PathPair>,
+) {
     let mut writer = WriterBuilder::new()
         .has_headers(false)
         .delimiter(b',')
         .from_path(csv_output_path)
         .expect("Failed to instantiate CSV writer!");
-    for result in results {
+    writer
+        .write_record(["reference", "degraded", "moslqo"])
+        .expect("Failed to write csv header!");
+    for (result, file_pair) in results.iter().zip(file_pairs) {
         writer
-            .serialize(result)
+            .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
             .expect("Failed to serialize SimilarityResult!");
     }
     writer.flush().expect("Failed to flush csv file!")
-- 
2.43.0


From 8205dfa724b9e510bd4e78e831119343388ad8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 14/15] fix: refuse sample rates below the range of the
 filterbank

---
 visqol-rs/src/gammatone_spectrogram_builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/visqol-rs/src/gammatone_spectrogram_builder.rs b/visqol-rs/src/gammatone_spectrogram_builder.rs
index 1533589..b627d06 100644
--- a/visqol-rs/src/gammatone_spectrogram_builder.rs
+++ b/visqol-rs/src/gammatone_spectrogram_builder.rs
@@ -26,6 +26,11 @@ impl<const NUM_BANDS: usize> SpectrogramBuilder for GammatoneSpectrogramBuilder<
             sample_rate / 2
         };
 
+        // the filters need frequencies between `min_freq` and half the sample rate
+        if f64::from(sample_rate / 2) <= self.filter_bank.min_freq {
+            return Err(VisqolError::SampleRateTooLow { sample_rate });
+        }
+
         // get gammatone coefficients
         let (mut filter_coeffs, mut center_freqs) =
             equivalent_rectangular_bandwidth::make_filters::<NUM_BANDS>(
-- 
2.43.0


From 089c472c0cb017128c40d05b7c7408caaeec691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 15/15] fix: frame times follow the whole-sample hop of the
 spectrogram

---
 visqol-rs/src/visqol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index e4f35ab..2133010 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -34,8 +34,9 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
     let mut ref_patch_indices =
         patch_creator.create_ref_patch_indices(&ref_spectrogram.data, ref_signal, window)?;
 
+    // a frame advances by whole samples
     let frame_duration = calculate_frame_duration(
-        window.size as f64 * window.overlap,
+        (window.size as f64 * window.overlap).trunc(),
         ref_signal.sample_rate as usize,
     );
 
-- 
2.43.0

