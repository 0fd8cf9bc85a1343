From dd4e0682c58f989715262047d5a32be3aaba410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 01/65] fix: drift integration ran past its buffers when a
 track leaves the band

The number of in-band channels of a drift step is negative when the step's
channel offset exceeds the band; compared against a size_t loop counter it
became a huge count and the kernel read and wrote out of bounds.
---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 75b3c47..c5ea728 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -80,7 +80,7 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                     size_t highsk_index = drift_index * highsk_rfi_strides[0] + drift_freq_slice_start * highsk_rfi_strides[1];
                     size_t filtrolloff_index = drift_index * rolloff_rfi_strides[0] + drift_freq_slice_start * rolloff_rfi_strides[1];
                     size_t rfi_index = t * rfi_strides[0] + spectrum_freq_slice_start * rfi_strides[1];
-                    for (size_t channel = 0; channel < number_channels; ++channel) {
+                    for (int64_t channel = 0; channel < number_channels; ++channel) {
                         drift_plane_ptr[drift_plane_index] += spectrum_ptr[spectrum_index] / desmear_bins;
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
@@ -129,7 +129,7 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                     size_t highsk_index = drift_index * highsk_rfi_strides[0] + drift_freq_slice_start * highsk_rfi_strides[1];
                     size_t filtrolloff_index = drift_index * rolloff_rfi_strides[0] + drift_freq_slice_start * rolloff_rfi_strides[1];
                     size_t rfi_index = t * rfi_strides[0] + spectrum_freq_slice_start * rfi_strides[1];
-                    for (size_t channel = 0; channel < number_channels; ++channel) {
+                    for (int64_t channel = 0; channel < number_channels; ++channel) {
                         drift_plane_ptr[drift_plane_index] += spectrum_ptr[spectrum_index] / desmear_bins;
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
-- 
2.43.0


From b040128132ea3b8b0eba9f366fff83697db75ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 02/65] fix: drift integration ignored the offsets of a sliced
 spectrum or mask

data_ptr() is the start of the storage; a view's offsets have to be added,
otherwise the drift plane of a sliced array is computed from other bins.
---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index c5ea728..c643a5a 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -17,11 +17,13 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                                          bland::ndarray    rfi_mask,
                                          std::vector<frequency_drift_plane::drift_rate> drift_rates,
                                          integrate_drifts_options options) {
-    auto spectrum_ptr     = spectrum_grid.data_ptr<float>();
+    auto spectrum_offsets = spectrum_grid.offsets();
+    auto spectrum_ptr     = spectrum_grid.data_ptr<float>() + spectrum_offsets[0] + spectrum_offsets[1];
     auto spectrum_strides = spectrum_grid.strides();
     auto spectrum_shape   = spectrum_grid.shape();
 
-    auto rfi_ptr     = rfi_mask.data_ptr<uint8_t>();
+    auto rfi_offsets = rfi_mask.offsets();
+    auto rfi_ptr     = rfi_mask.data_ptr<uint8_t>() + rfi_offsets[0] + rfi_offsets[1];
     auto rfi_strides = rfi_mask.strides();
     auto rfi_shape   = rfi_mask.shape();
 
-- 
2.43.0


From 6bb9cc0a4601ba1117074a502c9df7ac082bd3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 03/65] fix: local maxima search compared every cell with
 itself and reported nothing

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 04df535..1026eb4 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -55,6 +55,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                 bool neighborhood_max = true;
                 for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
                     for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
+                            continue; // a cell is not its own neighbor
+                        }
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 25a56909cfe24c324509c4ae61009193a62d1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 04/65] fix: hit search left out the upper edge of its
 neighborhood

cells exactly the configured distance above or to the right were not neighbors while those below
or to the left were, so connected regions were split depending on the scan order
---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 4 ++--
 bliss/drift_search/kernels/local_maxima_cpu.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index be34351..f0db299 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -168,8 +168,8 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                         this_component.locations.push_back(idx);
 
                         // Then add all of the neighbors as candidates
-                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                                 auto neighbor_coord = idx;
 
                                 neighbor_coord.drift_index += drift_neighbor_offset;
diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 1026eb4..5afb490 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -53,8 +53,8 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
             if (candidate_snr > snr_threshold) {
                 // 4. Check if it is greater than surrounding neighborhood
                 bool neighborhood_max = true;
-                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                         if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
                             continue; // a cell is not its own neighbor
                         }
-- 
2.43.0


From 9b23527ec06d90ea51495e95d5b576d4ac9efaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 05/65] fix: connected component flag counts were those of the
 first cell instead of the peak

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index f0db299..223e01c 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -154,11 +154,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From 443aae0cd76b8a5c3ff5fc9f19e80c27d74314da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 06/65] fix: hits left their time span uninitialized

---
 bliss/drift_search/hit_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/drift_search/hit_search.cpp b/bliss/drift_search/hit_search.cpp
index 8152a5f..b4b1e60 100644
--- a/bliss/drift_search/hit_search.cpp
+++ b/bliss/drift_search/hit_search.cpp
@@ -50,6 +50,7 @@ std::list<hit> bliss::hit_search(coarse_channel dedrifted_scan, hit_search_optio
         this_hit.start_freq_MHz = dedrifted_scan.fch1() + freq_offset;
         this_hit.start_time_sec = dedrifted_scan.tstart() * 24 * 60 * 60; // convert MJD to seconds since MJ
         this_hit.duration_sec   = dedrifted_scan.tsamp() * integration_length;
+        this_hit.time_span_steps = integration_length;
         this_hit.coarse_channel_number = dedrifted_scan._coarse_channel_number;
         hits.push_back(this_hit);
     }
-- 
2.43.0


From 94e914b228459e621bf10a595f9df396ae62e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 07/65] fix: scan accepted the coarse channel index one past
 its last channel

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f5acc1f..802cf74 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -212,7 +212,7 @@ scan::scan(std::string_view file_path, int num_fine_channels_per_coarse) : scan(
 
 
 std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
@@ -272,7 +272,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
 
 std::shared_ptr<coarse_channel> bliss::scan::peak_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
-- 
2.43.0


From 4633092bc0aa1f2c06101b4dd8935b0587b8a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 08/65] fix: inferring the channelization of a small scan
 divided by zero

---
 bliss/core/scan.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 802cf74..392235f 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -69,9 +69,9 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 2**18 (Matches ATA)
         constexpr int common_channelization = 1<<18;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse = number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
-        if (fine_per_coarse * number_coarse == number_fine_channels) {
+        if (number_coarse > 0 && fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
                     "Rounding from 2**18 fine channels per coarse to give {} coarse channels with {} fine channels each\n",
                     number_fine_channels, number_coarse, fine_per_coarse);
@@ -83,9 +83,9 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 1M (Matches Parkes)
         constexpr int common_channelization = 1000000;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse = number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
-        if (fine_per_coarse * number_coarse == number_fine_channels) {
+        if (number_coarse > 0 && fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
                     "Rounding from 1M fine channels per coarse to give {} coarse channels with {} fine channels each\n",
                     number_fine_channels, number_coarse, fine_per_coarse);
-- 
2.43.0


From 796a394b87d92a079523421eac90977f10c19564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 09/65] fix: scans assembled from coarse channels left their
 channelization uninitialized

---
 bliss/core/scan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 392235f..b6bdced 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -107,6 +107,7 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _num_coarse_channels = _coarse_channels.size();
     _foff = first_cc->foff();
     _fch1 = first_cc->fch1();
+    _fine_channels_per_coarse = first_cc->nchans();
     _nchans = first_cc->nchans() * _num_coarse_channels;
     _tstart = first_cc->tstart();
     _tsamp = first_cc->tsamp();
-- 
2.43.0


From 83a95cd193455a090f5611ca379f4458bae0cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 10/65] fix: scan consistency check rejected matching frequency
 grids and accepted mismatched ones

---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 2ed8c42..26f822e 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -60,7 +60,7 @@ bool bliss::observation_target::validate_scan_consistency() {
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans)) {
+        if ((std::abs(sc.fch1() - fch1) >= 1e-6) || (std::abs(sc.foff() - foff) >= 1e-6) || (sc.nchans() != nchans)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -146,7 +146,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans) {
+            if ((std::abs(sc.fch1() - fch1) >= 1e-6) || (std::abs(sc.foff() - foff) >= 1e-6) || sc.nchans() != nchans) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From 314d7adb482930eb8b663ec80352614bd08e2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 11/65] fix: an observation target without scans read its first
 scan

---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 26f822e..23694a8 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -70,7 +70,7 @@ bool bliss::observation_target::validate_scan_consistency() {
 }
 
 int bliss::observation_target::get_coarse_channel_with_frequency(double frequency) {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         // Since they're consistent we can use any of them...
         return _scans[0].get_coarse_channel_with_frequency(frequency);
     } else {
@@ -79,7 +79,7 @@ int bliss::observation_target::get_coarse_channel_with_frequency(double frequenc
 }
 
 int bliss::observation_target::get_number_coarse_channels() {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         return _scans[0].get_number_coarse_channels();
     } else {
         throw std::runtime_error("scans inside observation target are not consistent enough to return a number of channels");
-- 
2.43.0


From 7a162ce0034c817deb7208d2ec00135a9e566ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 12/65] fix: negative slice bounds were off by one

---
 bland/bland/ops/ops.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7e3b7b4..d0a668c 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -167,13 +167,14 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
 
     if (start < 0) {
         // Negative is an offset from the end
-        start = a.size(dim) + start - 1;
-    } else if (start > a.size(dim)) {
+        start = a.size(dim) + start;
+    }
+    if (start < 0 || start > a.size(dim)) {
         throw std::out_of_range("Invalid start for stride (begins beyond the end)");
     }
     if (end < 0) {
         // Negative is an offset from the end
-        end = a.size(dim) + end - 1;
+        end = a.size(dim) + end;
     } else if (end > a.size(dim)) {
         end = a.size(dim);
     }
-- 
2.43.0


From 3b05462a155bb9f7df4cb27eeaa726f09a9cb0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 13/65] fix: slices whose length is not a multiple of the step
 lost their last element

---
 bland/bland/ops/ops.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index d0a668c..636bdfd 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -189,7 +189,8 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
     // of the current axis rather than the number of items at new stride
     sliced._tensor._offsets[dim] += start * sliced._tensor.strides[dim];
 
-    sliced._tensor.shape[dim] = (end - start) / stride;
+    // a last partial step still contributes its first element
+    sliced._tensor.shape[dim] = (end - start + stride - 1) / stride;
     sliced._tensor.strides[dim] *= stride;
 
     return sliced;
-- 
2.43.0


From bb639916ab1e9a8b6dc88f6d45d198f9fb10397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 14/65] fix: scalarize of a one-element slice ignored its
 offset

---
 bland/bland/ndarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9c554a0..6871c9e 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -221,7 +221,7 @@ T bland::ndarray::scalarize() const {
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
     // TODO also check datatype makes sense to scalarize
-    return cpu_copy.data_ptr<T>()[0];
+    return cpu_copy.scalarize<T>(std::vector<int64_t>(ndim(), 0));
 }
 
 template float    bland::ndarray::scalarize<float>() const;
@@ -242,7 +242,7 @@ T bland::ndarray::scalarize(const std::vector<int64_t> &nd_index) const {
         throw std::runtime_error("scalarize: wrong number of dimensions indexing to array");
     }
 
-    auto linear_offset = 0;
+    int64_t linear_offset = 0;
     for (int dim = 0; dim < nd_index.size(); ++dim) {
         linear_offset +=  _tensor._offsets[dim] +  nd_index[dim] * _tensor.strides[dim]; // TODO: also add offset
     }
-- 
2.43.0


From 832c8a6c59a94fcba548532548da6c4eebc8a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 15/65] fix: the number of elements of an array wrapped at 32
 bits

---
 bland/bland/ndarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 6871c9e..08364f9 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -205,7 +205,7 @@ bland::ndarray::dev bland::ndarray::device() const {
 }
 
 int64_t bland::ndarray::numel() const {
-    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, int64_t{1}, std::multiplies<int64_t>());
     return num_elements;
 }
 
-- 
2.43.0


From 8f7b9328ca7ab985fc941e974e97cd6a25709433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 16/65] fix: reshape computed wrong strides and refused
 same-rank shapes

---
 bland/bland/ndarray.cpp | 55 ++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 08364f9..8a5b6b8 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -585,7 +585,7 @@ template ndarray bland::operator/<uint32_t>(const uint32_t &lhs, const ndarray &
 
 
 ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
-    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), int64_t{1}, std::multiplies<int64_t>());
 
     if (num_elements != numel()) {
         auto error_message = fmt::format("reshape {} to {} does not match number of elements ({} to {})",
@@ -596,36 +596,35 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         throw std::runtime_error(error_message);
     }
 
-    if (new_shape.size() != _tensor.ndim) {
-        // This won't always be right and I think sometimes it might be required to make
-        // a copy. That's what pytorch does if the new shape isn't compatible due to strides
-        int64_t new_ndim = new_shape.size();
-        // We can collapse all offsets to the last dimension
-        auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
-        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), 0);
-        _tensor._offsets   = new_offsets;
-
-        // Number of dims changing means we need to update strides
-        auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
-        int     old_stride_axis    = _tensor.ndim - 1;
-        int64_t accumulated_stride = 1;
-        for (int axis = new_ndim - 1; axis >= 0; --axis) {
-            if (old_stride_axis > 0) {
-                accumulated_stride *= _tensor.strides[old_stride_axis];
-                new_strides[axis] = _tensor.strides[old_stride_axis];
-                old_stride_axis -= 1;
-            } else {
-                new_strides[axis] = accumulated_stride;
-                accumulated_stride *= new_shape[axis];
-            }
+    // Only a row-major contiguous array can be viewed with any other shape, anything else is copied first
+    bool    contiguous      = true;
+    int64_t expected_stride = 1;
+    for (int axis = _tensor.ndim - 1; axis >= 0; --axis) {
+        if (_tensor.shape[axis] != 1 && _tensor.strides[axis] != expected_stride) {
+            contiguous = false;
         }
-        _tensor._strides_ownership = new_strides;
-        _tensor.strides            = _tensor._strides_ownership.data();
-        _tensor.ndim               = new_ndim;
-    } else {
-        throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+        expected_stride *= _tensor.shape[axis];
+    }
+    if (!contiguous) {
+        *this = bland::copy(*this);
     }
 
+    int64_t new_ndim = new_shape.size();
+    // We can collapse all offsets to the last dimension
+    auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
+    new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), int64_t{0});
+    _tensor._offsets   = new_offsets;
+
+    auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
+    int64_t accumulated_stride = 1;
+    for (int axis = new_ndim - 1; axis >= 0; --axis) {
+        new_strides[axis] = accumulated_stride;
+        accumulated_stride *= new_shape[axis];
+    }
+    _tensor._strides_ownership = new_strides;
+    _tensor.strides            = _tensor._strides_ownership.data();
+    _tensor.ndim               = new_ndim;
+
     _tensor._shape_ownership = new_shape;
     _tensor.shape            = _tensor._shape_ownership.data();
 
-- 
2.43.0


From 433828db40bae254920b7e84a3b53a990bac6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 17/65] fix: squeezing an axis of a slice dropped its offset

---
 bland/bland/ndarray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 8a5b6b8..3dcfac6 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -669,6 +669,10 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
+    // The squeezed axis of a slice may start beyond its first element
+    if (!new_offsets.empty()) {
+        new_offsets.back() += _tensor._offsets[squeeze_axis];
+    }
     _tensor._shape_ownership   = new_shape;
     _tensor.shape              = _tensor._shape_ownership.data();
     _tensor._strides_ownership = new_strides;
-- 
2.43.0


From 284dafe7accc64829482d81743d192798d1466e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 18/65] fix: broadcasting an array of lower rank matched its
 dimensions from the first and read past its shape

---
 bland/bland/internal/include/internal/shape_helpers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 332c6c0..4a3594b 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -58,11 +58,11 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 std::vector<int64_t> bland::compute_broadcast_shape(std::vector<int64_t> shape, std::vector<int64_t> out_shape) {
     std::vector<int64_t> broadcast_shape(out_shape.size());
 
-    size_t input_shape_index = 0;
-    for (size_t i = 0; i < out_shape.size(); ++i) {
-        if (shape[input_shape_index] == out_shape[i] || shape[input_shape_index] == 1) {
+    // dimensions are aligned from the last one
+    int64_t offset = static_cast<int64_t>(out_shape.size()) - static_cast<int64_t>(shape.size());
+    for (int64_t i = 0; i < static_cast<int64_t>(out_shape.size()); ++i) {
+        if (i >= offset && (shape[i - offset] == out_shape[i] || shape[i - offset] == 1)) {
             broadcast_shape[i] = out_shape[i];
-            input_shape_index += 1;
         } else {
             broadcast_shape[i] = 1;
         }
-- 
2.43.0


From 043743f9693dd765813704e2e9ebea30c6931d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 19/65] fix: subtract and multiply did not broadcast their left
 operand

---
 bland/bland/ops/cpu/arithmetic_cpu.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/arithmetic_cpu.cpp b/bland/bland/ops/cpu/arithmetic_cpu.cpp
index 8e01251..26a92e4 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.cpp
@@ -34,7 +34,8 @@ ndarray bland::cpu::add_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Subtracts...
 template <> // Specialize for adding an array
 ndarray bland::cpu::subtract_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_subtract_op_ts>>(out, a, b);
 }
 template <>
@@ -45,7 +46,8 @@ ndarray bland::cpu::subtract_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Multiplies...
 template <> // Specialize for adding an array
 ndarray bland::cpu::multiply_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_multiply_op_ts>>(out, a, b);
 }
 template <>
-- 
2.43.0


From e655ddc02ddfe13e03584e79fc61d6c4da92cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 20/65] fix: comparisons did not broadcast their left operand

---
 bland/bland/ops/cpu/comparison_cpu.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index c8f93c9..3104274 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -25,7 +25,8 @@ ndarray bland::cpu::greater_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -72,7 +73,8 @@ ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -116,7 +118,8 @@ ndarray bland::cpu::less_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -160,7 +163,8 @@ ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -204,7 +208,8 @@ ndarray bland::cpu::logical_and(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, logical_and_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<logical_and_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -251,7 +256,8 @@ ndarray bland::cpu::equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out_shape = expand_shapes_to_broadcast(lhs.shape(), rhs.shape());
+        auto out = ndarray(out_shape, ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
-- 
2.43.0


From b2d36727e779258056a30da8319c618ae5b75ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 21/65] fix: comparing a scalar with an array evaluated the
 mirrored comparison

---
 bland/bland/ops/cpu/comparison_cpu.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index 3104274..81d6ce6 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -19,7 +19,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs); // scalar OP array is array MIRRORED_OP scalar
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
@@ -67,7 +67,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs); // scalar OP array is array MIRRORED_OP scalar
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
@@ -112,7 +112,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs); // scalar OP array is array MIRRORED_OP scalar
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
@@ -157,7 +157,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs); // scalar OP array is array MIRRORED_OP scalar
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
-- 
2.43.0


From 76b5e97e2f3a4d310870e6e38a57513e61a92351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 22/65] fix: scalar - array and scalar / array computed array -
 scalar and array * scalar

---
 .../include/bland/ops/ops_arithmetic.hpp      | 12 +++++++++++
 bland/bland/ndarray.cpp                       |  4 ++--
 bland/bland/ops/arithmetic.cpp                | 21 +++++++++++++++++++
 bland/bland/ops/cpu/arithmetic_cpu.hpp        |  6 ++++++
 bland/bland/ops/cpu/arithmetic_cpu_impl.hpp   | 13 ++++++++++++
 bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp | 21 +++++++++++++++++++
 6 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/bland/bland/include/bland/ops/ops_arithmetic.hpp b/bland/bland/include/bland/ops/ops_arithmetic.hpp
index f1cccfa..31da60a 100644
--- a/bland/bland/include/bland/ops/ops_arithmetic.hpp
+++ b/bland/bland/include/bland/ops/ops_arithmetic.hpp
@@ -13,11 +13,23 @@ ndarray add(ndarray a, T b);
 template <typename T>
 ndarray subtract(ndarray a, T b);
 
+/**
+ * b - a with the scalar on the left
+ */
+template <typename T>
+ndarray subtract_from(ndarray a, T b);
+
 template <typename T>
 ndarray multiply(ndarray a, T b);
 
 template <typename T>
 ndarray divide(ndarray a, T b);
 
+/**
+ * b / a with the scalar on the left
+ */
+template <typename T>
+ndarray divide_into(ndarray a, T b);
+
 
 } // namespace bland
\ No newline at end of file
diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 3dcfac6..60d12bb 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -479,7 +479,7 @@ template ndarray bland::ndarray::operator-<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator-(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs - lhs;
+    return subtract_from(rhs, lhs);
 }
 
 template ndarray bland::operator-<float>(const float &lhs, const ndarray &rhs);
@@ -569,7 +569,7 @@ template ndarray bland::ndarray::operator/<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator/(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs * lhs;
+    return divide_into(rhs, lhs);
 }
 
 template ndarray bland::operator/<float>(const float &lhs, const ndarray &rhs);
diff --git a/bland/bland/ops/arithmetic.cpp b/bland/bland/ops/arithmetic.cpp
index 8f79ca6..2edc9b3 100644
--- a/bland/bland/ops/arithmetic.cpp
+++ b/bland/bland/ops/arithmetic.cpp
@@ -125,3 +125,24 @@ template ndarray bland::divide<uint8_t>(ndarray a, uint8_t b);
 // template ndarray bland::divide<uint16_t>(ndarray a, uint16_t b);
 template ndarray bland::divide<uint32_t>(ndarray a, uint32_t b);
 // template ndarray bland::divide<uint64_t>(ndarray a, uint64_t b);
+
+// Scalar on the left of a subtraction or division...
+template <typename T>
+ndarray bland::subtract_from(ndarray a, T b) {
+    // no cuda kernel yet
+    return device_dispatch(cpu::subtract_from_cpu<T>, nullptr, a, b);
+}
+template ndarray bland::subtract_from<float>(ndarray a, float b);
+template ndarray bland::subtract_from<int32_t>(ndarray a, int32_t b);
+template ndarray bland::subtract_from<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::subtract_from<uint32_t>(ndarray a, uint32_t b);
+
+template <typename T>
+ndarray bland::divide_into(ndarray a, T b) {
+    // no cuda kernel yet
+    return device_dispatch(cpu::divide_into_cpu<T>, nullptr, a, b);
+}
+template ndarray bland::divide_into<float>(ndarray a, float b);
+template ndarray bland::divide_into<int32_t>(ndarray a, int32_t b);
+template ndarray bland::divide_into<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::divide_into<uint32_t>(ndarray a, uint32_t b);
diff --git a/bland/bland/ops/cpu/arithmetic_cpu.hpp b/bland/bland/ops/cpu/arithmetic_cpu.hpp
index a2a999f..08bd28c 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.hpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.hpp
@@ -15,12 +15,18 @@ ndarray add_cpu(ndarray a, T b);
 template <typename T>
 ndarray subtract_cpu(ndarray a, T b);
 
+template <typename T>
+ndarray subtract_from_cpu(ndarray a, T b);
+
 template <typename T>
 ndarray multiply_cpu(ndarray a, T b);
 
 template <typename T>
 ndarray divide_cpu(ndarray a, T b);
 
+template <typename T>
+ndarray divide_into_cpu(ndarray a, T b);
+
 } // namespace cpu
 
 } // namespace bland
\ No newline at end of file
diff --git a/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp b/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
index 9bf25a9..9388029 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu_impl.hpp
@@ -50,6 +50,19 @@ template <typename Out, typename A, typename B>
 };
 
 
+/**
+ * the same with the operands exchanged, for a scalar on the left of the operator
+*/
+struct elementwise_subtract_from_op_ts {
+template <typename Out, typename A, typename B>
+    static inline Out call(const A &a, const B &b) { return static_cast<Out>(b - a); }
+};
+
+struct elementwise_divide_into_op_ts {
+template <typename Out, typename A, typename B>
+    static inline Out call(const A &a, const B &b) { return static_cast<Out>(b / a); }
+};
+
 template <typename Out, typename A>
 struct elementwise_copy_op {
     static inline Out call(const A &a) { return static_cast<Out>(a); }
diff --git a/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp b/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
index baa8213..7ce2a1f 100644
--- a/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp
@@ -85,3 +85,24 @@ template ndarray bland::cpu::divide_cpu<uint8_t>(ndarray a, uint8_t b);
 // template ndarray bland::cpu::divide_cpu<uint16_t>(ndarray a, uint16_t b);
 template ndarray bland::cpu::divide_cpu<uint32_t>(ndarray a, uint32_t b);
 // template ndarray bland::cpu::divide_cpu<uint64_t>(ndarray a, uint64_t b);
+
+// Scalar on the left of a subtraction or division...
+template <typename T> // the scalar case (explicitly instantiated below)
+ndarray bland::cpu::subtract_from_cpu(ndarray a, T b) {
+    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    return dispatch_nd_sc<scalar_op_impl_wrapper, T, elementwise_subtract_from_op_ts>(out, a, b);
+}
+template ndarray bland::cpu::subtract_from_cpu<float>(ndarray a, float b);
+template ndarray bland::cpu::subtract_from_cpu<int32_t>(ndarray a, int32_t b);
+template ndarray bland::cpu::subtract_from_cpu<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::cpu::subtract_from_cpu<uint32_t>(ndarray a, uint32_t b);
+
+template <typename T> // the scalar case (explicitly instantiated below)
+ndarray bland::cpu::divide_into_cpu(ndarray a, T b) {
+    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    return dispatch_nd_sc<scalar_op_impl_wrapper, T, elementwise_divide_into_op_ts>(out, a, b);
+}
+template ndarray bland::cpu::divide_into_cpu<float>(ndarray a, float b);
+template ndarray bland::cpu::divide_into_cpu<int32_t>(ndarray a, int32_t b);
+template ndarray bland::cpu::divide_into_cpu<uint8_t>(ndarray a, uint8_t b);
+template ndarray bland::cpu::divide_into_cpu<uint32_t>(ndarray a, uint32_t b);
-- 
2.43.0


From 560016e6f57d4335ab056b7bc611619af8c9c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 23/65] fix: copying or applying a unary function into a larger
 array strode over the extent-one dimensions of its source

---
 bland/bland/ops/cpu/elementwise_unary_op.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index bdc9848..00a7f40 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -34,8 +34,6 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     auto out_strides = out.strides();
     auto out_offset  = out.offsets();
 
-    a_shape = compute_broadcast_shape(a_shape, out_shape);
-    a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
     if (a.ndim() == out.ndim()) {
         for (int dim = 0; dim < a.ndim(); ++dim) {
             if (a_shape[dim] != out_shape[dim] && a_shape[dim] != 1) {
@@ -45,6 +43,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     } else {
         throw std::runtime_error("out rank does not match in rank. Cannot store output in provided tensor");
     }
+    a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
+    a_shape = compute_broadcast_shape(a_shape, out_shape);
 
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
-- 
2.43.0


From 18529843e3b2abec10961ab5abd46716c08296f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 24/65] fix: masked statistics indexed the mask with the layout
 of the data

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 741d99d..72ac26a 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -181,7 +181,11 @@ struct masked_mean_impl {
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     mean += a_data[input_linear_index];
                     elements_in_mean += 1;
                 }
@@ -425,7 +429,11 @@ struct masked_stddev_impl {
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
@@ -681,7 +689,11 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + (reduce_nd_index[axis] % mask_shape[axis]) * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
-- 
2.43.0


From 67554c1d2bf64a13f1afe4719447501a6a76949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 25/65] fix: masked_stddev of (nearly) equal elements could be
 NaN

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 72ac26a..96aa204 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -462,7 +462,7 @@ struct masked_stddev_impl {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
-            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type) 0, (accumulator_type) (accum_x2 / elements_in_dev - mean*mean))));
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
@@ -723,7 +723,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type) 0, (accumulator_type) (accum_x2 / elements_in_dev - mean*mean))));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From ec1581d7dd27b0935a11a9a2a61ba6e6e916018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 26/65] fix: masked statistics accepted masks of other element
 types

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 96aa204..e255e65 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -147,7 +147,7 @@ struct masked_mean_impl {
             reduced_elements *= a_shape[d];
         }
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -382,7 +382,7 @@ struct masked_stddev_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -642,7 +642,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
-- 
2.43.0


From 4c2b44ddd6af6588c586bce60ab8f18ebf8c7b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 27/65] fix: linspace from a larger to a smaller integer
 divided by an unsigned count

---
 bland/bland/ops/creators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 7ce8c3c..b9fda39 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -219,7 +219,7 @@ bland::arange<double, double, double>(double start, double end, double step, DLD
 template <typename T>
 ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, DLDevice device) {
     auto aranged_array = ndarray({static_cast<int64_t>(number_steps)}, dtype, device);
-    auto step          = (end - start) / number_steps;
+    auto step          = (end - start) / static_cast<std::conditional_t<std::is_integral<T>::value, int64_t, T>>(number_steps);
 
     switch (dtype.code) {
     case kDLFloat: {
-- 
2.43.0


From 961f137d2459acdcdbcadbd0e6116b15b3ea535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 28/65] fix: an unknown element-type name left the datatype
 uninitialized

---
 bland/bland/ndarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 60d12bb..0f23a0c 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -60,6 +60,8 @@ bland::ndarray::datatype::datatype(std::string_view dtype_str) {
         code  = kDLUInt;
         bits  = 8;
         lanes = 1;
+    } else {
+        throw std::invalid_argument(fmt::format("unknown datatype {}", dtype_str));
     }
 }
 bland::ndarray::datatype::datatype(DLDataType dtype) : DLDataType(dtype) {}
-- 
2.43.0


From a7127ace9b18f65cdf016889bdc5cf1758147320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 29/65] fix: device names sharing the prefix cuda were all
 parsed as cuda

---
 bland/bland/ndarray.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 0f23a0c..f6b8ba6 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -102,19 +102,19 @@ bland::ndarray::dev::dev(std::string_view dev_str) {
     if (dev_str == "cpu") {
 		device_type = DLDeviceType::kDLCPU;
 		device_id   = 0;
-    } else if (dev_str.substr(0, 4) == "cuda") {
+    } else if (dev_str == "cuda" || dev_str.substr(0, 5) == "cuda:") {
         device_type = DLDeviceType::kDLCUDA;
         device_id   = 0;
         if (dev_str.size() > 4 && dev_str[4] == ':') {
             device_id = std::stoi(std::string(dev_str.substr(5)));
         }
-    } else if (dev_str.substr(0, 11) == "cudamanaged") {
+    } else if (dev_str == "cudamanaged" || dev_str.substr(0, 12) == "cudamanaged:") {
         device_type = DLDeviceType::kDLCUDAManaged;
         device_id   = 0;
         if (dev_str.size() > 11 && dev_str[11] == ':') {
             device_id = std::stoi(std::string(dev_str.substr(12)));
         }
-    } else if (dev_str.substr(0, 8) == "cudahost") {
+    } else if (dev_str == "cudahost" || dev_str.substr(0, 9) == "cudahost:") {
         device_type = DLDeviceType::kDLCUDAHost;
         device_id   = 0;
         if (dev_str.size() > 8 && dev_str[8] == ':') {
-- 
2.43.0


From 2551f3900133ab8a6207e7c4edefb752a35eba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 30/65] fix: the fft of a slice ignored its offset and strides

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 1eb633f..3eac4cb 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -1,4 +1,5 @@
 #include "frequency_cpu_impl.hpp"
+#include "ops_cpu.hpp" // copy
 
 #include "internal/dispatcher.hpp"
 
@@ -22,7 +23,10 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
     int N = shape[0];
     int half_N = floor(N/2) + 1;
 
-    auto in_ptr = x.data_ptr<float>();
+    // x may be a slice, the transform needs its elements side by side
+    auto contiguous_x = ndarray(x.shape(), x.dtype(), x.device());
+    contiguous_x = cpu::copy(x, contiguous_x);
+    auto in_ptr = contiguous_x.data_ptr<float>();
     auto out_ptr = out.data_ptr<float>();
 
     fftwf_complex *fftdata = (fftwf_complex*) fftwf_malloc(sizeof(fftwf_complex) * half_N);
-- 
2.43.0


From d828aa3eea59eacfce83eeb7102561ce101cc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 31/65] fix: fft_shift_mag_square of an even length wrote past
 its result

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 3eac4cb..9ceaaaa 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -42,7 +42,10 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
         int shift_index = dc_index + i;
         int rev_index = dc_index - i;
         auto mag_squared = real*real + imag*imag;
-        out_ptr[shift_index] = mag_squared;
+        // for even N the Nyquist bin only appears at the low edge
+        if (shift_index < N) {
+            out_ptr[shift_index] = mag_squared;
+        }
         if (i != 0) {
             out_ptr[rev_index] = mag_squared;
         }
-- 
2.43.0


From 3fb2c58af7afa2ee3e0958fef821f1b8d60ba472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 32/65] fix: reading a file that is not a multiple of the
 element size wrote past the array

---
 bland/bland/ops/cpu/ops_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index da6b749..0fe5373 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -66,7 +66,7 @@ ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype
     int64_t numel = file_length_bytes / (dtype.bits/8);
     auto x = ndarray({numel}, dtype);
     auto x_ptr = x.data_ptr<char>();
-    in_file.read(x_ptr, file_length_bytes);
+    in_file.read(x_ptr, numel * (dtype.bits/8));
 
     return x;
 }
-- 
2.43.0


From 785a8c4235b75e5eed5ff89f825d65f68e1e1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 33/65] fix: flagging the filter rolloff modified the original
 mask, again at every reading

---
 bliss/flaggers/filter_rolloff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index d7d1903..2df52ab 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -12,7 +12,7 @@ using namespace bliss;
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
 
     auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() mutable {
-        bland::ndarray rfi_flags = mask;
+        bland::ndarray rfi_flags = bland::copy(mask); // other users of the mask don't expect it to change
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
-- 
2.43.0


From 47ac959e68c7bfd803b8806ccf8fca806dcfd868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 34/65] fix: a filter rolloff narrower than half a channel
 flagged the whole channel

---
 bliss/flaggers/filter_rolloff.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index 2df52ab..1788c21 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -16,6 +16,9 @@ coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
+        if (one_sided_channels == 0) {
+            return rfi_flags; // a slice starting at -0 would be the whole channel
+        }
         bland::slice(rfi_flags, {1, 0, one_sided_channels}) = bland::slice(rfi_flags, {1, 0, one_sided_channels}) + static_cast<uint8_t>(flag_values::filter_rolloff);
         bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
         return rfi_flags;
-- 
2.43.0


From b43b3d55a8c6360595e5e3c880f4e3bdce254ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 35/65] fix: sigma clipping started with a mask of the wrong
 type, which masked statistics reject

---
 bliss/flaggers/sigmaclip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index d52be2a..9e58dbb 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -11,7 +11,7 @@ using namespace bliss;
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
     constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), data.dtype(), data.device());
+    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
-- 
2.43.0


From a91e587d052606a5345722d94f7d3487dce642fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 36/65] fix: magnitude flags of a scan were set on discarded
 copies of its channels

---
 bliss/flaggers/magnitude.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 9b065d9..a83f624 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -38,20 +38,16 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data) {
  * 
 */
 scan bliss::flag_magnitude(scan fil_data, float threshold) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc, threshold);
-    }
+    fil_data.add_coarse_channel_transform([threshold](coarse_channel cc) {
+        return flag_magnitude(cc, threshold);
+    });
     return fil_data;
 }
 
 scan bliss::flag_magnitude(scan fil_data) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc);
-    }
+    fil_data.add_coarse_channel_transform([](coarse_channel cc) {
+        return flag_magnitude(cc);
+    });
     return fil_data;
 }
 
-- 
2.43.0


From 10f5be02e37875d9214948d5c3e5da8344bba5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 37/65] fix: passband equalisation of a scan was applied to
 discarded copies of its channels

---
 bliss/preprocess/passband_static_equalize.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 25a16b3..40e9be5 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -121,11 +121,9 @@ coarse_channel bliss::equalize_passband_filter(coarse_channel cc, std::string_vi
 
 
 scan bliss::equalize_passband_filter(scan sc, bland::ndarray h) {
-    auto number_coarse_channels = sc.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = sc.read_coarse_channel(cc_index);
-        *cc = equalize_passband_filter(*cc, h);
-    }
+    sc.add_coarse_channel_transform([h](coarse_channel cc) {
+        return equalize_passband_filter(cc, h);
+    });
     return sc;
 }
 
-- 
2.43.0


From 5c5f4f729408f01f4b0f18fabf0747f34a5cc9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 38/65] fix: setting a flag that was already set changed it
 into the next flag

---
 bliss/flaggers/filter_rolloff.cpp    |  8 ++++++--
 bliss/flaggers/magnitude.cpp         |  4 +++-
 bliss/flaggers/set_flag.hpp          | 27 +++++++++++++++++++++++++++
 bliss/flaggers/sigmaclip.cpp         |  4 +++-
 bliss/flaggers/spectral_kurtosis.cpp |  7 +++++--
 5 files changed, 44 insertions(+), 6 deletions(-)
 create mode 100644 bliss/flaggers/set_flag.hpp

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index 1788c21..1c34beb 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -1,5 +1,7 @@
 #include "flaggers/filter_rolloff.hpp"
 
+#include "set_flag.hpp"
+
 #include <core/flag_values.hpp>
 
 #include <bland/ops/ops.hpp>
@@ -19,8 +21,10 @@ coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_
         if (one_sided_channels == 0) {
             return rfi_flags; // a slice starting at -0 would be the whole channel
         }
-        bland::slice(rfi_flags, {1, 0, one_sided_channels}) = bland::slice(rfi_flags, {1, 0, one_sided_channels}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
+        const auto rolloff = static_cast<uint8_t>(flag_values::filter_rolloff);
+        const auto edge    = bland::ndarray({1, one_sided_channels}, 1, mask.dtype(), mask.device());
+        bland::slice(rfi_flags, {1, 0, one_sided_channels}) = set_flag(bland::slice(rfi_flags, {1, 0, one_sided_channels}), edge, rolloff);
+        bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = set_flag(bland::slice(rfi_flags, {1, -one_sided_channels, nchans}), edge, rolloff);
         return rfi_flags;
     });
     
diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index a83f624..81db0f3 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -2,6 +2,8 @@
 #include <core/flag_values.hpp>
 #include <flaggers/magnitude.hpp>
 
+#include "set_flag.hpp"
+
 #include <bland/ops/ops.hpp>
 
 using namespace bliss;
@@ -20,7 +22,7 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data, float threshold) {
     auto magnitude_mask = flag_magnitude(cc_data.data(), threshold);
 
     bland::ndarray mask = cc_data.mask();
-    mask = mask + magnitude_mask;
+    mask = set_flag(mask, has_flag(magnitude_mask, flag_values::magnitude), flag_values::magnitude);
     cc_data.set_mask(mask);
     return cc_data;
 }
diff --git a/bliss/flaggers/set_flag.hpp b/bliss/flaggers/set_flag.hpp
new file mode 100644
index 0000000..4d9fe41
--- /dev/null
+++ b/bliss/flaggers/set_flag.hpp
@@ -0,0 +1,27 @@
+#pragma once
+
+#include <bland/ndarray.hpp>
+#include <bland/ops/ops.hpp>
+
+#include <cstdint>
+
+namespace bliss {
+
+/**
+ * 1 for every mask sample that carries the given (single bit) flag, 0 for every other
+ */
+inline bland::ndarray has_flag(const bland::ndarray &mask, uint8_t flag) {
+    auto shifted = mask / flag;
+    return shifted - (shifted / static_cast<uint8_t>(2)) * static_cast<uint8_t>(2);
+}
+
+/**
+ * Copy of mask with the given (single bit) flag set on every sample where selected is 1 and all other
+ * flags as they were. Samples which already carry the flag are not changed.
+ */
+inline bland::ndarray set_flag(const bland::ndarray &mask, const bland::ndarray &selected, uint8_t flag) {
+    auto newly_flagged = selected - has_flag(mask, flag) * selected;
+    return mask + newly_flagged * flag;
+}
+
+} // namespace bliss
diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index 9e58dbb..3ff429c 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -1,5 +1,7 @@
 #include <flaggers/sigmaclip.hpp>
 
+#include "set_flag.hpp"
+
 #include <core/flag_values.hpp>
 
 #include <bland/ops/ops.hpp>
@@ -39,7 +41,7 @@ coarse_channel bliss::flag_sigmaclip(coarse_channel cc_data, int max_iter, float
     // 2. Generate SK flag
     auto rfi = flag_sigmaclip(spectrum_grid, max_iter, low, high);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = set_flag(rfi_flags, has_flag(rfi, flag_values::sigma_clip), flag_values::sigma_clip);
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
diff --git a/bliss/flaggers/spectral_kurtosis.cpp b/bliss/flaggers/spectral_kurtosis.cpp
index ec1c899..dbab66a 100644
--- a/bliss/flaggers/spectral_kurtosis.cpp
+++ b/bliss/flaggers/spectral_kurtosis.cpp
@@ -1,5 +1,7 @@
 #include <flaggers/spectral_kurtosis.hpp>
 
+#include "set_flag.hpp"
+
 #include <estimators/spectral_kurtosis.hpp>
 #include <core/flag_values.hpp>
 
@@ -36,10 +38,11 @@ coarse_channel bliss::flag_spectral_kurtosis(coarse_channel cc_data, float lower
     // 2. Generate SK flag
     auto rfi = flag_spectral_kurtosis(spectrum_grid, N, M, d, lower_threshold, upper_threshold);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    rfi_flags = set_flag(rfi_flags, has_flag(rfi, flag_values::low_spectral_kurtosis), flag_values::low_spectral_kurtosis);
+    rfi_flags = set_flag(rfi_flags, has_flag(rfi, flag_values::high_spectral_kurtosis), flag_values::high_spectral_kurtosis);
 
     // 3. Store back accumulated rfi
-    cc_data.set_mask(accumulated_rfi);
+    cc_data.set_mask(rfi_flags);
 
     return cc_data;
 }
-- 
2.43.0


From 5199758aef4f63bbb60561a7b7ab8f123d40bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 39/65] fix: the mean of single-element groups converted an
 infinite factor to an integer

The factor was never used; for integer arrays with one element per group its
computation divided by zero and converted infinity to an integer (undefined).
---
 bland/bland/ops/cpu/statistical_cpu.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index e255e65..09d4a73 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -55,7 +55,6 @@ struct mean_impl {
         constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
         using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
 
-        accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements - 1);
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
-- 
2.43.0


From 4acd691cefff1305f486d63486fc3ebd3379f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 40/65] fix: mean_stddev wrote the standard deviations with the
 layout of the means

A result given as a slice or with its own strides was written outside its
elements (or outside its storage).
---
 bland/bland/ops/cpu/statistical_cpu.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 09d4a73..bce8800 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -573,15 +573,19 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         }
 
         // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
-        int64_t out_linear_index = 0;
+        // The two results have the same shape but not necessarily the same layout
+        int64_t out_linear_index        = 0;
+        int64_t out_stddev_linear_index = 0;
         for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
             out_linear_index +=
                     out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+            out_stddev_linear_index +=
+                    out_stddev_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_stddev_strides[axis];
         }
 
         auto diff = std::max((accumulator_type)0, (accumulator_type)(accum_x2 - accum_x * accum_x));
         out_mean_data[out_linear_index]   = static_cast<out_datatype>(accum_x);
-        out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
+        out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
         // Increment the multi-dimensional output index
         for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
@@ -712,9 +716,12 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
 
             // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
-            int64_t out_linear_index = 0;
+            // The two results have the same shape but not necessarily the same layout
+            int64_t out_linear_index        = 0;
+            int64_t out_stddev_linear_index = 0;
             for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
                 out_linear_index += out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+                out_stddev_linear_index += out_stddev_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_stddev_strides[axis];
             }
 
             if (elements_in_dev == 0) {
@@ -722,7 +729,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type) 0, (accumulator_type) (accum_x2 / elements_in_dev - mean*mean))));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(std::max((accumulator_type) 0, (accumulator_type) (accum_x2 / elements_in_dev - mean*mean))));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From d6d417cede106ced3001ab57668dd79ce39392f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 41/65] fix: variance into a given array left the standard
 deviation there

---
 bland/bland/ops/statistical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 09aee62..77eeca6 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -325,7 +325,7 @@ std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const nd
 // TODO: we have a cuda var, implement a cpu one and dispatch appropriately...
 ndarray bland::var(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
     stddev(a, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out = stddev(a, reduced_axes);
@@ -334,7 +334,7 @@ ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
 
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
     masked_stddev(a, mask, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int64_t> reduced_axes) {
     auto out = masked_stddev(a, mask, reduced_axes);
-- 
2.43.0


From dc519f852de8b77334b61f7009b4dd59996f0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 42/65] fix: sexagesimal coordinates in dat files could print
 60 seconds

---
 bliss/file_types/dat_file.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index e922ac6..1bfd42a 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -4,6 +4,8 @@
 
 #include <fmt/format.h>
 
+#include <cmath>
+#include <cstdint>
 #include <cstdio>
 #include <ext/stdio_filebuf.h>
 #include <ios>
@@ -19,12 +21,13 @@ using namespace bliss;
  * used especially for right ascenion (raj) from filterbank files
  */
 std::string format_archours_to_sexagesimal(double src_raj) {
-    double ra_deg = src_raj * 15.0;
+    // Round to the printed precision first so seconds that round up carry in to minutes and hours
+    int64_t ra_milliseconds = std::llround(src_raj * 3600.0 * 1000.0);
 
     // Convert RA to sexagesimal
-    int ra_hours = static_cast<int>(ra_deg / 15.0);
-    int ra_minutes = static_cast<int>((ra_deg / 15.0 - ra_hours) * 60.0);
-    double ra_seconds = ((ra_deg / 15.0 - ra_hours) * 60.0 - ra_minutes) * 60.0;
+    int64_t ra_hours = ra_milliseconds / (3600 * 1000);
+    int64_t ra_minutes = ra_milliseconds / (60 * 1000) % 60;
+    double ra_seconds = (ra_milliseconds % (60 * 1000)) / 1000.0;
 
     return fmt::format("{:02}h{:02}m{:06.3f}s", ra_hours, ra_minutes, ra_seconds);
 }
@@ -35,12 +38,15 @@ std::string format_archours_to_sexagesimal(double src_raj) {
  * used especially for declination (dej) from filterbank files
  */
 std::string format_degrees_to_sexagesimal(double src_dej) {
-    int dec_degrees = static_cast<int>(src_dej);
-    int dec_arcminutes = static_cast<int>((std::abs(src_dej) - std::abs(dec_degrees)) * 60.0);
-    double dec_arcseconds = ((std::abs(src_dej) - std::abs(dec_degrees)) * 60.0 - dec_arcminutes) * 60.0;
+    // Round to the printed precision first so arcseconds that round up carry in to arcminutes and degrees
+    int64_t dec_centiarcseconds = std::llround(std::abs(src_dej) * 3600.0 * 100.0);
+
+    int64_t dec_degrees = dec_centiarcseconds / (3600 * 100);
+    int64_t dec_arcminutes = dec_centiarcseconds / (60 * 100) % 60;
+    double dec_arcseconds = (dec_centiarcseconds % (60 * 100)) / 100.0;
     char dec_sign = src_dej >= 0 ? '+' : '-';
 
-    return fmt::format("{}{:02}d{:02}m{:05.2f}s", dec_sign, std::abs(dec_degrees), dec_arcminutes, dec_arcseconds);
+    return fmt::format("{}{:02}d{:02}m{:05.2f}s", dec_sign, dec_degrees, dec_arcminutes, dec_arcseconds);
 }
 
 template<typename Container>
-- 
2.43.0


From 71aeffcef8ffed3430a62b7240c94c4d2f7bb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 43/65] fix: header of dat files lacked the SEFD column and
 repeated the unit of the right ascension

---
 bliss/file_types/dat_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 1bfd42a..fbab905 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -121,11 +121,11 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# File ID: {}\n"
                         "# -------------------------- o --------------------------\n"
                         "# Source:{}\n"
-                        "# MJD: {}\tRA: {}s\tDEC:{}\n"
+                        "# MJD: {}\tRA: {}\tDEC:{}\n"
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
+                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
                         "# --------------------------\n",
                         file_path_id,
                         source_name,
-- 
2.43.0


From e1047a3f7c34eeb23a55ab5764eae9979a8902b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 44/65] fix: coarse channel numbers of hits and channels were
 lost in capnp files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7ff7f0e..52769e7 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -13,6 +13,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
     signal_builder.setDriftRate(this_hit.drift_rate_Hz_per_sec);
     signal_builder.setDriftIndex(this_hit.rate_index);
     signal_builder.setSnr(this_hit.snr);
+    signal_builder.setCoarseChannel(this_hit.coarse_channel_number);
     signal_builder.setNumTimesteps(this_hit.time_span_steps); // for us, redundant with driftSteps
     // the power and incoherentpower are redundant in bliss, but were not in seticore
     // the seticore power was normalized for computing an SNR, the incoherentpower was just the integrated power
@@ -39,6 +40,8 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     this_hit.time_span_steps = signal_reader.getNumTimesteps();
     this_hit.snr             = signal_reader.getSnr();
 
+    this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
+
     this_hit.start_time_sec = signal_reader.getStartTime();
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
     this_hit.bandwidth      = signal_reader.getBandwidth();
@@ -55,7 +58,7 @@ void bliss::detail::bliss_coarse_channel_to_capnp_coarse_channel_message(CoarseC
     auto md_builder = cc_builder.initMd();
     md_builder.setFch1(cc.fch1());
     // fil_builder.setBeam(); // not dealing with multiple beams (yet)
-    // fil_builder.setCoarseChannel(); // not dealing with multiple coarse channels (yet)
+    md_builder.setCoarseChannel(cc._coarse_channel_number);
     // fil_builder.setData(); // don't need or want to duplicate large chunks of data (yet)
     md_builder.setDec(cc.src_dej());
     md_builder.setRa(cc.src_raj());
@@ -100,7 +103,8 @@ bliss::detail::capnp_coarse_channel_message_to_bliss_coarse_channel(CoarseChanne
                                           md.getTstart(),
                                           1 /* data_type */,
                                           0 /* az_start */,
-                                          0 /* za_start */
+                                          0 /* za_start */,
+                                          md.getCoarseChannel() /* coarse_channel_number */
     );
 
     std::list<hit> deserialized_hits;
-- 
2.43.0


From 6cf64fdd1457a9644cdb06d55e86af4b37968420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 45/65] fix: hit start times lost up to minutes in capnp files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 7 ++++++-
 bliss/file_types/hit.capnp                   | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 52769e7..47fd38d 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -20,6 +20,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
     signal_builder.setPower(this_hit.power);
     signal_builder.setIncoherentPower(this_hit.power);
     signal_builder.setStartTime(this_hit.start_time_sec);
+    signal_builder.setStartTimeSeconds(this_hit.start_time_sec);
     signal_builder.setDurationSeconds(this_hit.duration_sec);
 
     signal_builder.setBandwidth(this_hit.bandwidth);
@@ -42,7 +43,11 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
 
     this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
 
-    this_hit.start_time_sec = signal_reader.getStartTime();
+    this_hit.start_time_sec = signal_reader.getStartTimeSeconds();
+    if (this_hit.start_time_sec == 0) {
+        // files written before startTimeSeconds existed only have the single precision value
+        this_hit.start_time_sec = signal_reader.getStartTime();
+    }
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
     this_hit.bandwidth      = signal_reader.getBandwidth();
     this_hit.binwidth       = signal_reader.getBinwidth();
diff --git a/bliss/file_types/hit.capnp b/bliss/file_types/hit.capnp
index 7af468c..a49b6bf 100644
--- a/bliss/file_types/hit.capnp
+++ b/bliss/file_types/hit.capnp
@@ -47,10 +47,11 @@ struct Signal {
   # This is available in the stamps files, but not in the hits files.
   incoherentPower @9 :Float32;
 
-  startTime @11 :Float32; # MJ in seconds
+  startTime @11 :Float32; # MJ in seconds, superseded by startTimeSeconds (single precision only resolves minutes)
   durationSeconds @12 :Float32; # duration of hit in seconds
   bandwidth @13 :Float32;
   binwidth @14 :Float32;
+  startTimeSeconds @15 :Float64; # MJ in seconds
 }
 
 # The Filterbank contains a smaller slice of the larger filterbank that we originally
-- 
2.43.0


From ada30b545b520f51f5d9bb989306779fe89d9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 46/65] fix: telescope of a scan was not restored from capnp
 files

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 47fd38d..4274e8b 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -170,6 +170,7 @@ scan bliss::detail::capnp_scan_message_to_bliss_scan(Scan::Reader &scan_reader)
     scan_with_hits.set_src_raj(md.getRa());
     scan_with_hits.set_src_dej(md.getDec());
     scan_with_hits.set_source_name(md.getSourceName());
+    scan_with_hits.set_telescope_id(md.getTelescopeId());
     scan_with_hits.set_tstart(md.getTstart());
     scan_with_hits.set_tsamp(md.getTsamp());
     scan_with_hits.set_fch1(md.getFch1());
-- 
2.43.0


From a75bb8b7b4c106fa3d013ba7f0c781fc38721eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 47/65] fix: unknown hit file formats were reported by a format
 error

---
 bliss/file_types/hits_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/hits_file.cpp b/bliss/file_types/hits_file.cpp
index d4075ef..56d46ac 100644
--- a/bliss/file_types/hits_file.cpp
+++ b/bliss/file_types/hits_file.cpp
@@ -44,7 +44,7 @@ std::list<hit> bliss::read_hits_from_file(std::string_view file_path, std::strin
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_hits_from_file");
     }
 }
@@ -76,7 +76,7 @@ scan bliss::read_scan_hits_from_file(std::string_view file_path, std::string for
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_scan_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_scan_hits_from_file");
     }
 }
-- 
2.43.0


From 8198b9fcf64e4bc6dd0f4d5464e84be293b63897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 48/65] fix: a scan assembled from coarse channels lacked their
 coordinates, telescope and data layout

---
 bliss/core/scan.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index b6bdced..1cf63f7 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -112,6 +112,15 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _tstart = first_cc->tstart();
     _tsamp = first_cc->tsamp();
     _source_name = first_cc->source_name();
+    _src_dej = first_cc->_src_dej;
+    _src_raj = first_cc->_src_raj;
+    _telescope_id = first_cc->_telescope_id;
+    _machine_id = first_cc->_machine_id;
+    _nbits = first_cc->_nbits.value_or(0);
+    _nifs = first_cc->_nifs;
+    _data_type = first_cc->_data_type;
+    _az_start = first_cc->_az_start;
+    _za_start = first_cc->_za_start;
     _ntsteps = first_cc->ntsteps();
     _tduration_secs = _ntsteps * _tsamp;
 }
-- 
2.43.0


From 5655d4b0d5df14367d841895eb33603c5d378c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 49/65] fix: distance between hits depended on their order

---
 bliss/drift_search/event_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 94d4ea7..dfc1878 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -24,7 +24,7 @@ float distance_func(const hit &a, const hit &b) {
     auto drift_error = drift_difference * drift_difference;
 
     auto first_sample_time = std::min(a.start_time_sec, b.start_time_sec);
-    auto last_sample_time  = std::max(a.start_time_sec + b.duration_sec, b.start_time_sec + b.duration_sec);
+    auto last_sample_time  = std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec);
     auto rendezvous_time   = (last_sample_time + first_sample_time) / 2;
 
     auto a_time_to_rendezvous = rendezvous_time - a.start_time_sec;
-- 
2.43.0


From 5880e6c4f32e27dc0983251d7c49304417b2d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 50/65] fix: cache of hit distances was ordered inconsistently

---
 bliss/drift_search/event_search.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index dfc1878..32c8cb3 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -4,6 +4,7 @@
 #include <core/cadence.hpp>
 
 #include <fmt/format.h>
+#include <algorithm>
 #include <cstdint>
 
 using namespace bliss;
@@ -48,13 +49,8 @@ float distance_func(const hit &a, const hit &b) {
 struct hit_distance {
     struct hit_pair_comparator {
         bool operator()(const std::pair<hit, hit> &p1, const std::pair<hit, hit> &p2) const {
-            if (p1.first == p2.first && p1.second == p2.second) {
-                return false;
-            }
-            if (p1.first == p2.second && p1.second == p2.first) {
-                return false;
-            }
-            return p1 < p2;
+            // Pairs are unordered, so compare them with their hits in a canonical order
+            return std::minmax(p1.first, p1.second) < std::minmax(p2.first, p2.second);
         }
     };
 
-- 
2.43.0


From e718ba64a232d3c67a10f88f263228996681b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 51/65] fix: unknown dimensions were rejected when of size one
 and accepted otherwise

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 36344f1..3026a18 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -257,7 +257,7 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
             }
         } else { // if there are more than 3 dims this will catch it
             // unknown dimension. If it's size 1, we're probably OK though
-            if (dims[ii] != 1) {
+            if (dims[ii] == 1) {
                 // TODO, we're using fmtlib now, update this. Does fmtlib act as a proper
                 // "logging" lib?
                 std::cerr << "Got unknown " << ii << " dimension: " << dim_labels[ii]
-- 
2.43.0


From 32ade3dd89a5a028a7f0f1bf4d6b5d9c9b344c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 52/65] fix: attributes of other widths or byte orders were
 read as raw bytes

---
 bliss/file_types/h5_filterbank_file.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 3026a18..646807f 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -77,10 +77,18 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             double val;
             attr.read(dtype, &val);
             return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_INTEGER) {
+            // Any other width or byte order: let hdf5 convert
+            int64_t val;
+            attr.read(H5::PredType::NATIVE_INT64, &val);
+            return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_FLOAT) {
+            double val;
+            attr.read(H5::PredType::NATIVE_DOUBLE, &val);
+            return static_cast<T>(val);
         } else {
-            T val;
-            attr.read(dtype, &val);
-            return val;
+            auto err_msg = fmt::format("H5 data attribute {} is not a number", key);
+            throw std::invalid_argument(err_msg);
         }
     } else {
         auto err_msg = fmt::format("H5 data does not have an attribute key {}", key);
-- 
2.43.0


From 840488e9c5c91fb49f2382c9c78774ebd0f3c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 53/65] fix: string attributes of another type were rejected by
 a format error

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 646807f..dc983d9 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -142,7 +142,7 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
 
             return result;
         } else {
-            auto err_msg = fmt::format("{} expected as string but is not a string type");
+            auto err_msg = fmt::format("{} expected as string but is not a string type", key);
             throw std::invalid_argument(err_msg);
         }
     } else {
-- 
2.43.0


From b83fea884dc0b65bd48028b281bc9ab089c14bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 54/65] fix: fixed length string attributes kept their padding

---
 bliss/file_types/h5_filterbank_file.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index dc983d9..15d2531 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -4,6 +4,7 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 #include <fmt/ranges.h>
+#include <algorithm>
 #include <bland/bland.hpp>
 #include <iostream> // cerr
 #include <vector>
@@ -123,8 +124,8 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
             std::vector<uint8_t> val(size);
             attr.read(dtype, val.data());
 
-            // Convert the byte string to a std::string
-            return std::string(val.begin(), val.end());
+            // Convert the byte string to a std::string, up to its terminator if it has any
+            return std::string(val.begin(), std::find(val.begin(), val.end(), 0));
         } else if (dtype.getClass() == H5T_STRING && dtype.isVariableStr()) {
             // Some pipelines generate variable length bytestrings
             char* val;
-- 
2.43.0


From c5a0bff6e1cb16a4d04e6f042d4e8576755f7e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 55/65] fix: dimensions without a label were looked up past the
 end of the labels

---
 bliss/file_types/h5_filterbank_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 15d2531..abb57a8 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -254,6 +254,9 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     std::tuple<int64_t, bool, int> time_steps = {0, false, -1};
     std::tuple<int64_t, bool, int> feed_id = {0, false, -1};
     std::tuple<int64_t, bool, int> freq_bins  = {0, false, -1};
+    if (dim_labels.size() != dims.size()) {
+        throw std::invalid_argument("Expected one dimension label per dimension");
+    }
     for (int ii = 0; ii < dims.size(); ++ii) {
         if (!std::get<1>(time_steps) && dim_labels[ii] == "time") {
             time_steps = {dims[ii], true, ii};
-- 
2.43.0


From 237497dcdc6292cc4c63b5012cfdf29004a86b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 56/65] fix: reading a whole mask made an array without
 dimensions

---
 bliss/file_types/h5_filterbank_file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index abb57a8..0370787 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -379,6 +379,12 @@ bland::ndarray bliss::h5_filterbank_file::read_mask(std::vector<int64_t> offset,
     //     return mask_grid;
     // } else {
         // The file has no "mask" dataset, it's typically zeros anyway so just allocate the appropriate number of uint8 zeros
+        if (count.empty()) {
+            count = get_data_shape();
+            for (size_t dim = 0; dim < offset.size(); ++dim) {
+                count[dim] -= offset[dim];
+            }
+        }
         auto mask_grid = bland::zeros(count, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
         mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
         return mask_grid;
-- 
2.43.0


From 14b391e62f57605010e0365298f1fe3dc7a6e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 57/65] fix: fixed length dimension labels were used as
 pointers

---
 bliss/file_types/h5_filterbank_file.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 0370787..bab4fec 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -157,6 +157,23 @@ template <>
 std::vector<std::string> bliss::h5_filterbank_file::read_data_attr<std::vector<std::string>>(const std::string &key) {
     if (_h5_data_handle.attrExists(key)) {
         H5::Attribute             attr = _h5_data_handle.openAttribute(key);
+        auto                      dtype = attr.getDataType();
+        if (dtype.getClass() != H5T_STRING) {
+            auto err_msg = fmt::format("{} expected as strings but is not a string type", key);
+            throw std::invalid_argument(err_msg);
+        }
+        if (!dtype.isVariableStr()) {
+            // Fixed length strings are stored one after the other, each up to its terminator if it has any
+            auto              length = dtype.getSize();
+            std::vector<char> chars(attr.getInMemDataSize());
+            attr.read(dtype, chars.data());
+
+            std::vector<std::string> vals;
+            for (size_t start = 0; start < chars.size(); start += length) {
+                vals.emplace_back(chars.begin() + start, std::find(chars.begin() + start, chars.begin() + start + length, 0));
+            }
+            return vals;
+        }
         std::vector<const char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *));
         attr.read(attr.getDataType(), vals_as_read_from_h5.data());
 
-- 
2.43.0


From 6eea7aac88bc99f365f660c4a6e6c429974aa216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 58/65] fix: nbits and nifs were uninitialised when a file does
 not state them

---
 bliss/core/scan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 1cf63f7..f3ed7fc 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -181,6 +181,7 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
     } catch (std::invalid_argument &e) {
         // nbits is not specified, derive from datatype (if it's ever likely we get nbits but not datatype
         // we can verify that nbits is 32 before assuming data_type)
+        _nbits = 32;
     }
     // int64_t     nchans;
     try {
@@ -189,8 +190,10 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
         // nchans is not specified, derive from datashape
     }
     // int64_t     nifs;
+    bool has_nifs = false;
     try {
         _nifs = fb_file.read_data_attr<int64_t>("nifs");
+        has_nifs = true;
     } catch (std::invalid_argument &e) {
         // nifs is not specified, derive from datashape
     }
@@ -199,6 +202,9 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
     auto data_shape = _h5_file_handle->get_data_shape();
     if (data_shape.size() == 3) {
         _ntsteps = data_shape[0];
+        if (!has_nifs) {
+            _nifs = data_shape[1];
+        }
         _tduration_secs = _ntsteps * _tsamp;
     } else {
         fmt::print("ERROR: reading data_shape from HDF5 did not have 3 dimensions but we expect [time, feed, freq]\n");
-- 
2.43.0


From c88132c2a7c1d892162f3bd29d78d014878cad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 59/65] fix: data with extra dimensions of size one was
 selected with too few coordinates

---
 bliss/file_types/h5_filterbank_file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index bab4fec..915f547 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -347,6 +347,10 @@ bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset,
     std::vector<hsize_t> offset_hsize(offset.begin(), offset.end());
     std::vector<hsize_t> count_hsize(count.begin(), count.end());
 
+    // Any dimensions beyond [time, feed_id, frequency] are of size 1
+    offset_hsize.resize(number_dims, 0);
+    count_hsize.resize(number_dims, 1);
+
     dataspace.selectHyperslab(H5S_SELECT_SET, count_hsize.data(), offset_hsize.data());
 
     // Define the memory dataspace to receive the read data
-- 
2.43.0


From 401a73d7a3d27a0c8e3a83b846a80948783b1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 60/65] fix: hits of every scan after the first were written
 under the first input's default name

---
 bliss/bliss_find_hits.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index db851ba..581b3a2 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -141,20 +141,23 @@ int main(int argc, char *argv[]) {
             auto &sc = pipeline_object_with_hits._scans[scan_index];
             auto hits = sc.hits();
 
-            if (output_path.empty()) {
+            // Without a named output, each scan goes to its own file named after the scan's input
+            auto scan_output_path = output_path;
+            auto scan_output_format = output_format;
+            if (scan_output_path.empty()) {
                 auto path = fs::path(pipeline_files[scan_index]);
 
-                output_path = path.filename().replace_extension("capnp");
-                output_format = "capnp";
+                scan_output_path = path.filename().replace_extension("capnp");
+                scan_output_format = "capnp";
             }
 
-            if (output_path == "-" || output_path == "stdout") {
+            if (scan_output_path == "-" || scan_output_path == "stdout") {
                 fmt::print("scan has {} hits\n", hits.size());
                 for (auto &h : hits) {
                     fmt::print("{}\n", h.repr());
                 }
             } else {
-                bliss::write_scan_hits_to_file(sc, output_path, output_format);
+                bliss::write_scan_hits_to_file(sc, scan_output_path, scan_output_format);
             }
         }
     } catch (std::exception &e) {
-- 
2.43.0


From 15b187e5d0561a7dc608dbecb546147a566f536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:07 +0000
Subject: [PATCH 61/65] fix: the saved state of a hit lost its times, flag
 counts and coarse channel and narrowed its frequency

---
 bliss/core/hit.cpp              | 20 +++++++++++++++++---
 bliss/core/include/core/hit.hpp | 17 ++++++++++-------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/bliss/core/hit.cpp b/bliss/core/hit.cpp
index 96d7eee..2c7576a 100644
--- a/bliss/core/hit.cpp
+++ b/bliss/core/hit.cpp
@@ -12,6 +12,11 @@ std::string bliss::hit::repr() const {
 }
 
 hit::state_tuple bliss::hit::get_state() const {
+    // plain integers can be pickled, flag values can not
+    std::map<uint8_t, uint8_t> flag_counts;
+    for (const auto &[flag, count] : rfi_counts) {
+        flag_counts[static_cast<uint8_t>(flag)] = count;
+    }
     return std::make_tuple(start_freq_index,
                            start_freq_MHz,
                            rate_index,
@@ -20,9 +25,11 @@ hit::state_tuple bliss::hit::get_state() const {
                            time_span_steps,
                            snr,
                            bandwidth,
-                           binwidth
-                           // rfi_counts,
-    );
+                           binwidth,
+                           start_time_sec,
+                           duration_sec,
+                           flag_counts,
+                           coarse_channel_number);
 }
 
 void bliss::hit::set_state(state_tuple state) {
@@ -35,4 +42,11 @@ void bliss::hit::set_state(state_tuple state) {
     snr                   = std::get<6>(state);
     bandwidth             = std::get<7>(state);
     binwidth              = std::get<8>(state);
+    start_time_sec        = std::get<9>(state);
+    duration_sec          = std::get<10>(state);
+    rfi_counts.clear();
+    for (const auto &[flag, count] : std::get<11>(state)) {
+        rfi_counts[static_cast<flag_values>(flag)] = count;
+    }
+    coarse_channel_number = std::get<12>(state);
 }
diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index f3e0bac..3cceb64 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -81,15 +81,18 @@ struct hit {
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-                                   float /*start_freq_MHz*/,
+                                   double /*start_freq_MHz*/,
                                    int64_t /*rate_index*/,
-                                   float /*drift_rate_Hz_per_sec*/,
-                                   float /*power*/,
-                                   float /*time_span_steps*/,
+                                   double /*drift_rate_Hz_per_sec*/,
+                                   double /*power*/,
+                                   int64_t /*time_span_steps*/,
                                    float /*snr*/,
-                                   double /*bandwidth*/,
-                                   int64_t /*binwidth*/
-                                   // rfi /*rfi_counts*/,
+                                   float /*bandwidth*/,
+                                   int64_t /*binwidth*/,
+                                   double /*start_time_sec*/,
+                                   double /*duration_sec*/,
+                                   std::map<uint8_t, uint8_t> /*rfi_counts, by flag value*/,
+                                   int64_t /*coarse_channel_number*/
                                    >;
 
     state_tuple get_state() const;
-- 
2.43.0


From 1d283648bc5dfb6a9f81e5f1516ad1f2641e062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:11 +0000
Subject: [PATCH 62/65] fix: channel slices of targets and cadences lost the
 target name and the device

---
 bliss/core/cadence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 23694a8..356e754 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -88,6 +88,8 @@ int bliss::observation_target::get_number_coarse_channels() {
 
 bliss::observation_target bliss::observation_target::slice_observation_channels(int64_t start_channel, int64_t count) {
     observation_target target_coarse_channel;
+    target_coarse_channel._target_name = _target_name;
+    target_coarse_channel._device      = _device;
     for (auto &sc : _scans) {
         target_coarse_channel._scans.push_back(sc.slice_scan_channels(start_channel, count));
     }
@@ -181,6 +183,7 @@ int bliss::cadence::get_number_coarse_channels() {
 
 bliss::cadence bliss::cadence::slice_cadence_channels(int64_t start_channel, int64_t count) {
     cadence cadence_coarse_channel;
+    cadence_coarse_channel._device = _device;
     for (auto &obs : _observations) {
         cadence_coarse_channel._observations.push_back(obs.slice_observation_channels(start_channel, count));
     }
-- 
2.43.0


From a00491c43638254976fe281eaae51de79148662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:06 +0000
Subject: [PATCH 63/65] fix: files with more than 64 MiB of hits could be
 written but not read

---
 bliss/file_types/cpnp_files.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bliss/file_types/cpnp_files.cpp b/bliss/file_types/cpnp_files.cpp
index 77feac4..bce4d89 100644
--- a/bliss/file_types/cpnp_files.cpp
+++ b/bliss/file_types/cpnp_files.cpp
@@ -7,6 +7,7 @@
 
 #include "hit.capnp.h"
 
+#include <limits>
 #include <stdexcept>
 
 #include <capnp/c++.capnp.h>
@@ -19,6 +20,13 @@
 
 using namespace bliss;
 
+// Files are read whole whatever the number of hits in them, so the default limit on the size of a message doesn't apply
+static capnp::ReaderOptions unlimited_reader_options() {
+    capnp::ReaderOptions options;
+    options.traversalLimitInWords = std::numeric_limits<uint64_t>::max();
+    return options;
+}
+
 
 template<typename Container>
 void bliss::write_hits_to_capnp_file(Container hits, std::string_view file_path) {
@@ -76,7 +84,7 @@ coarse_channel bliss::read_coarse_channel_hits_from_capnp_file(std::string_view
 
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, unlimited_reader_options());
 
     auto coarse_channel_reader = message.getRoot<CoarseChannel>();
     auto deserialized_cc = detail::capnp_coarse_channel_message_to_bliss_coarse_channel(coarse_channel_reader);
@@ -98,7 +106,7 @@ void bliss::write_scan_hits_to_capnp_file(scan scan_with_hits, std::string_view
 scan bliss::read_scan_hits_from_capnp_file(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, unlimited_reader_options());
     auto scan_reader = message.getRoot<Scan>();
 
     auto scan_with_hits = detail::capnp_scan_message_to_bliss_scan(scan_reader);
@@ -121,7 +129,7 @@ void bliss::write_observation_target_hits_to_capnp_files(observation_target obse
 observation_target bliss::read_observation_target_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, unlimited_reader_options());
     auto obstarget_reader = message.getRoot<ObservationTarget>();
 
     auto observations = detail::capnp_observation_target_message_to_bliss_observation_target(obstarget_reader);
@@ -143,7 +151,7 @@ void bliss::write_cadence_hits_to_capnp_files(cadence cadence_with_hits, std::st
 cadence bliss::read_cadence_hits_from_capnp_files(std::string_view file_path) {
     auto in_file = detail::raii_file_for_read(file_path);
 
-    capnp::StreamFdMessageReader message(in_file._fd);
+    capnp::StreamFdMessageReader message(in_file._fd, unlimited_reader_options());
     auto cadence_reader = message.getRoot<Cadence>();
 
     auto deserialized_cadence = detail::capnp_cadence_message_to_cadence(cadence_reader);
-- 
2.43.0


From 94f7bcc55c5d738bfc990cd1c3c41314528e1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:42 +0000
Subject: [PATCH 64/65] fix: events of more than 64 MiB of hits could be
 written but not read

---
 bliss/file_types/events_file.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/events_file.cpp b/bliss/file_types/events_file.cpp
index 953e58d..047cd90 100644
--- a/bliss/file_types/events_file.cpp
+++ b/bliss/file_types/events_file.cpp
@@ -8,6 +8,7 @@
 #include "detail/cpnp_hit_builder.hpp"
 #include "detail/raii_file_helpers.hpp"
 
+#include <limits>
 #include <stdexcept>
 
 #include <capnp/c++.capnp.h>
@@ -45,12 +46,16 @@ std::vector<event> bliss::read_events_from_file(std::string_view file_path) {
 
     std::vector<event> events;
 
+    // An event is read whatever the number of hits in it, so the default limit on the size of a message doesn't apply
+    capnp::ReaderOptions options;
+    options.traversalLimitInWords = std::numeric_limits<uint64_t>::max();
+
     auto in_file = detail::raii_file_for_read(file_path);
 
     while (true) {
 
         try {
-            capnp::StreamFdMessageReader message(in_file._fd);
+            capnp::StreamFdMessageReader message(in_file._fd, options);
 
             auto event_reader      = message.getRoot<Event>();
             auto deserialized_hits = event_reader.getHits();
-- 
2.43.0


From 520af3b4bbf42694d71b02cd1fa483664c5d63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:42 +0000
Subject: [PATCH 65/65] fix: files whose VERSION contains a brace could not be
 opened

---
 bliss/file_types/h5_filterbank_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 915f547..90d9ab3 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -247,7 +247,7 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
                         "versions list {}. Trying to read it anyway!\n",
                         filterbank_version,
                         supported_filterbank_versions);
-            fmt::print(warning);
+            fmt::print("{}", warning);
         }
     } catch (std::invalid_argument &e) {
         fmt::print("WARN: the h5 file does not have a 'VERSION' attribute to indicate what version of FILTERBANK this is. Will assume it is compatible and resume.\n");
-- 
2.43.0

