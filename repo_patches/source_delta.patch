From 7095927413864f25bf72ec2393b1ec9fa0e9eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:43 +0000
Subject: [PATCH 01/31] fix: ecef2lla altitude of scalar points at the south
 pole

The scalar branch used z - b near the poles where the array branch uses
abs(z) - b, giving about -2*b of altitude error over the south pole.
---
 dedop/proc/geo/ecef2lla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/geo/ecef2lla.py b/dedop/proc/geo/ecef2lla.py
index cbe6279..1953751 100644
--- a/dedop/proc/geo/ecef2lla.py
+++ b/dedop/proc/geo/ecef2lla.py
@@ -88,7 +88,7 @@ def ecef2lla(ecef: Sequence[float], cst: ConstantsFile) -> Tuple[float, float, f
 
     if isinstance(alt, numbers.Number):
         if abs(x)<1 and abs(y)<1:
-            alt = z - b
+            alt = abs(z) - b
     else:
         k = logical_and(abs(x)<1, abs(y)<1)
         alt[k] = abs(z[k]) - b
-- 
2.43.0


From 167a0a77b813fe1a681abf6c1c4f401de2abbc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:38 +0000
Subject: [PATCH 02/31] fix: antenna weighting interpolates from the angle left
 of the look

The proportion between the two neighbouring weights was computed from the
weight on the left instead of from the angle it is tabulated for.
---
 dedop/proc/sar/algorithms/multilooking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 33aa647..4229310 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -212,7 +212,8 @@ class MultilookingAlgorithm(BaseAlgorithm):
             weight_right = self.chd.antenna_weights[index_right]
 
             # get proportion between the left & right weights
-            alpha = (angle - weight_left) / self.chd.antenna_angles_spacing
+            angle_left = self.chd.antenna_angles[index_left]
+            alpha = (angle - angle_left) / self.chd.antenna_angles_spacing
             # interpolate value
             selected_weight = weight_left + alpha * (weight_right - weight_left)
 
-- 
2.43.0


From 5800037568c05e99c279e47fc1c8caaae8fc3d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:45 +0000
Subject: [PATCH 03/31] fix: azimuth windows: hamming and hanning coefficients
 were swapped

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index 7e4e869..c2bfd0e 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -60,10 +60,10 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
             window[start:end] = 1.
         elif window_shape == AzimuthWindowingMethod.hamming:
             n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
         elif window_shape == AzimuthWindowingMethod.hanning:
             n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
         else:
             raise NotImplementedError(
                 "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-- 
2.43.0


From fd990f4b7c83b856163ed17e62b7aec8e8755222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:50 +0000
Subject: [PATCH 04/31] fix: time reference of the first surface and of
 surfaces placed after a gap

These surfaces kept the time reference of an earlier surface, or none at all
for the first one, so that their UTC day and second were wrong.
---
 dedop/proc/sar/algorithms/surface_locations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index f71bb4c..2497bc8 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -123,6 +123,12 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
 
         self.win_delay_surf = isp_record.win_delay_sar_ku
 
+        # the surface is at the burst itself, so the burst is its time reference
+        self.prev_tai = isp_record.time_sar_ku
+        self.prev_utc_days = isp_record.days
+        self.prev_utc_secs = isp_record.seconds
+        self.curr_day_length = self.cst.sec_in_day
+
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
         move the location of a surface to the closest approach to the target position
-- 
2.43.0


From d763e766c836bb14503d17aa1bd0ab1a2e6b42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:46 +0000
Subject: [PATCH 05/31] fix: region of interest keeps its last record, and may
 be empty

---
 dedop/data/input/l1a/l1a_dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index de315a4..5a0b10e 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -115,8 +115,12 @@ class L1ADataset(InputDataset):
                 )
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
-            self._start_index = indexes.min()
-            self._final_index = indexes.max()
+            if indexes.size:
+                self._start_index = indexes.min()
+                # the final index is the one after the last record
+                self._final_index = indexes.max() + 1
+            else:
+                self._start_index = self._final_index = 0
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From 9a2635565ec2eec8a2c11d22b5e8cdb4f9cde19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:00 +0000
Subject: [PATCH 06/31] fix: centre of gravity correction takes the pitch of
 the product in degrees

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index 5a0b10e..700296d 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -170,7 +170,7 @@ class L1ADataset(InputDataset):
         # construct waveform
         waveform = (self.get_value(L1AVariables.i_meas_ku_l1a_echo_sar_ku, index) +
                     1j * self.get_value(L1AVariables.q_meas_ku_l1a_echo_sar_ku, index)) / scale_factor
-        zcog = np.cos(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)) *\
+        zcog = np.cos(np.radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index))) *\
                self.get_value(L1AVariables.cog_cor_l1a_echo_sar_ku, index)
         range = self.get_value(L1AVariables.range_ku_l1a_echo_sar_ku, index) + zcog
 
-- 
2.43.0


From dd5e83ff98b56e2a89be6a9c0ee1432b5395eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:41 +0000
Subject: [PATCH 07/31] fix: the first packet after a gap is calibrated once,
 not twice

---
 dedop/proc/sar/processor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ab39662..9cabfa8 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -200,11 +200,12 @@ class L1BProcessor(BaseProcessor):
                     else:
                         monitor.progress(1)
 
-                if input_packet is not None:
-                    # apply calibrations
-                    self.cal1_algorithm(input_packet)
-                    self.cal2_algorithm(input_packet)
+                    if input_packet is not None:
+                        # apply calibrations (once: a packet kept over a gap already has been calibrated)
+                        self.cal1_algorithm(input_packet)
+                        self.cal2_algorithm(input_packet)
 
+                if input_packet is not None:
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
                     if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
 
-- 
2.43.0


From bfb6401eff0849ef4021e89669b7f8184e3d0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:41 +0000
Subject: [PATCH 08/31] fix: void records are skipped instead of being taken
 for the end of the input

---
 dedop/proc/sar/processor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 9cabfa8..053df29 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -199,6 +199,8 @@ class L1BProcessor(BaseProcessor):
                             raise Exception("insufficient input records")
                     else:
                         monitor.progress(1)
+                        if input_packet is None:
+                            continue  # void record: there is nothing to process
 
                     if input_packet is not None:
                         # apply calibrations (once: a packet kept over a gap already has been calibrated)
-- 
2.43.0


From e1bc57183089110a4c0b17f4ce704d9bc3fbbd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:41 +0000
Subject: [PATCH 09/31] fix: a processing run starts without the surfaces,
 packets and focus of the run before

---
 dedop/proc/sar/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 053df29..eb56751 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -133,6 +133,9 @@ class L1BProcessor(BaseProcessor):
         self.beam_angles_list_size_prev = -1
         self.beam_angles_trend_prev = -1
         self.surfaces_count = 0
+        self._surfaces = []
+        self._packets = []
+        self.surface_locations_algorithm.focus_found = False
 
         # find base name of input file
         l1a_base, _ = os.path.splitext(os.path.basename(l1a_file))
-- 
2.43.0


From 036c04b3cb17fbac006d1258cc17b56993d812a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:18 +0000
Subject: [PATCH 10/31] fix: a short stretch of data after a gap is processed
 instead of failing the run

---
 dedop/proc/sar/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index eb56751..6c006e8 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -174,6 +174,7 @@ class L1BProcessor(BaseProcessor):
         prev_time = None
         gap_processing = False
         gap_resume = False
+        gap_found = False
         sub_monitor = None
 
         index = -1
@@ -199,7 +200,10 @@ class L1BProcessor(BaseProcessor):
                     except StopIteration:
                         input_packet = None
                         if not surface_processing:
-                            raise Exception("insufficient input records")
+                            if not gap_found:
+                                raise Exception("insufficient input records")
+                            # the last stretch after a gap ends here, as the ones before ended at a gap
+                            surface_processing = True
                     else:
                         monitor.progress(1)
                         if input_packet is None:
@@ -224,6 +228,7 @@ class L1BProcessor(BaseProcessor):
 
                     else:
                         gap_processing = True
+                        gap_found = True
                         prev_time = None
                         sub_monitor = monitor.child(1)
                         sub_monitor.start("processing gap", len(self.surf_locs))
-- 
2.43.0


From b1817e4d8c2d74486f157ff9e56451f39da9b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:18 +0000
Subject: [PATCH 11/31] fix: output files are closed when processing fails

---
 dedop/proc/sar/processor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 6c006e8..4fcadb2 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -63,6 +63,8 @@ class L1BProcessor(BaseProcessor):
         self.out_path = out_path
         self.name = name
         self.l1a_file = None
+        self.l1b_file = None
+        self.l1bs_file = None
 
         # init. surface & packets arrays
         self._surfaces = []
@@ -114,7 +116,14 @@ class L1BProcessor(BaseProcessor):
         t0 = time.time()
 
         with monitor.starting('processing', total_work=len(self.l1a_file)):
-            status = self._process(l1a_file, monitor)
+            try:
+                status = self._process(l1a_file, monitor)
+            except Exception:
+                # do not leave incomplete output files open
+                for output_file in (self.l1b_file, self.l1bs_file):
+                    if output_file is not None:
+                        output_file.close()
+                raise
 
         dt = time.time() - t0
 
@@ -159,6 +168,7 @@ class L1BProcessor(BaseProcessor):
         l1b_path = os.path.join(self.out_path, l1b_name)
 
         # create output file objects
+        self.l1b_file = self.l1bs_file = None
         writerCls = L1BWriter if self.cnf.output_format == OutputFormat.s3 else L1BWriterExtended
         self.l1b_file = writerCls(filename=l1b_path, chd=self.chd, cnf=self.cnf, cst=self.cst)
         if not self.skip_l1bs:
-- 
2.43.0


From fd8ee8ef967ee0b1bdb774a68873569cd249d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:23 +0000
Subject: [PATCH 12/31] fix: UTC time of a surface at midnight is second zero
 of the next day

---
 dedop/data/output/l1b_writer.py  | 4 ++--
 dedop/data/output/l1bs_writer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index ca199f2..8420d5e 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -847,7 +847,7 @@ class L1BWriterExtended(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
@@ -1569,7 +1569,7 @@ class L1BWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 5699eb3..78b05d0 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -634,7 +634,7 @@ class L1BSWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
-- 
2.43.0


From fd7f71157cf3caefb678c91438f72f1b4e82413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:23 +0000
Subject: [PATCH 13/31] fix: L1BS satellite pointing angles are written in
 degrees, as declared

---
 dedop/data/output/l1bs_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 78b05d0..8849794 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -667,9 +667,9 @@ class L1BSWriter(NetCDFWriter):
             meas_x_pos_l1bs_echo_sar_ku=surface_location_data.x_surf,
             meas_y_pos_l1bs_echo_sar_ku=surface_location_data.y_surf,
             meas_z_pos_l1bs_echo_sar_ku=surface_location_data.z_surf,
-            roll_sat_pointing_l1bs_echo_sar_ku=surface_location_data.roll_sat,
-            pitch_sat_pointing_l1bs_echo_sar_ku=surface_location_data.pitch_sat,
-            yaw_sat_pointing_l1bs_echo_sar_ku=surface_location_data.yaw_sat,
+            roll_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.roll_sat),
+            pitch_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.pitch_sat),
+            yaw_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.yaw_sat),
             roll_sral_mispointing_l1bs_echo_sar_ku=closest_burst.roll_sral_mispointing,
             pitch_sral_mispointing_l1bs_echo_sar_ku=closest_burst.pitch_sral_mispointing,
             yaw_sral_mispointing_l1bs_echo_sar_ku=closest_burst.yaw_sral_mispointing,
-- 
2.43.0


From 4b48b5129a2d2b0a564c1c4588857e6ccd81c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:23 +0000
Subject: [PATCH 14/31] fix: L1BS surface type is that of the burst closest to
 the surface

---
 dedop/data/output/l1bs_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 8849794..5a17fd1 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -654,7 +654,7 @@ class L1BSWriter(NetCDFWriter):
             UTC_sec_l1bs_echo_sar_ku=utc_secs,
             lat_l1bs_echo_sar_ku=degrees(surface_location_data.lat_surf),
             lon_l1bs_echo_sar_ku=degrees(surface_location_data.lon_surf),
-            surf_type_l1bs_echo_sar_ku=surface_location_data.surface_type.value,
+            surf_type_l1bs_echo_sar_ku=closest_burst.surf_type,
             records_count_l1bs_echo_sar_ku=surface_location_data.surface_counter,
             alt_l1bs_echo_sar_ku=surface_location_data.alt_sat,
             orb_alt_rate_l1bs_echo_sar_ku=surface_location_data.alt_rate_sat,
-- 
2.43.0


From fadfa5bf8576762222105234a13208300536681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:23 +0000
Subject: [PATCH 15/31] fix: look angles do not fit their packed variable with
 an offset of pi/2

---
 dedop/data/output/l1b_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 8420d5e..82c8c6e 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -699,7 +699,7 @@ class L1BWriterExtended(NetCDFWriter):
             comment="the useful values of the table are the first n_useful values where n_useful is"
                     "the number of waveforms summed in the stack",
             scale_factor=1.0e-06,
-            add_offset=1.57,
+            add_offset=0.0,
             units="rad",
             fill_value=32767
         )
-- 
2.43.0


From 9a057027a85ea9844e596ebf842e5fbcf033b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 16/31] fix: a new CryoSat-2 configuration is of the version
 the processor reads

---
 dedop/ui/data/cryosat_config/CHD.json | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/data/cryosat_config/CHD.json b/dedop/ui/data/cryosat_config/CHD.json
index b19c160..41ee40e 100644
--- a/dedop/ui/data/cryosat_config/CHD.json
+++ b/dedop/ui/data/cryosat_config/CHD.json
@@ -15,10 +15,19 @@
                 "comment": "initial version",
                 "parameters": [],
                 "version": 0
+            },
+            {
+                "comment": "added new parameters for update to sigma-0 algorithm",
+                "parameters": [
+                    ["ratio_trc_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["fft_step_freq_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["ptr_width_chd", "+", "required for sigma-0 scaling factor"]
+                ],
+                "version": 1
             }
         ],
         "description": "DeDop Characterisation File",
-        "version": 0
+        "version": 1
     },
     "alt_freq_multiplier_chd": {
         "description": "Factor to convert from USO frequency to altimeter frequency",
-- 
2.43.0


From e4384b8c00dde1d73039e103c95bfe4b075666cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:35 +0000
Subject: [PATCH 17/31] fix: an empty name does not stand for all workspaces or
 configurations

---
 dedop/ui/workspace_manager.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fdb6ec..5023283 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -126,6 +126,7 @@ class WorkspaceManager:
         :param workspace_name: workspace name to be deleted
         :raise: WorkspaceError: thrown when workspace not found or cannot delete the workspace
         """
+        self._assert_name_given(workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         dir_path = self.get_workspace_path(workspace_name)
         if os.path.exists(dir_path):
@@ -140,6 +141,7 @@ class WorkspaceManager:
         :param new_workspace_name: new workspace name
         :raise: WorkspaceError
         """
+        self._assert_name_given(workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
@@ -157,6 +159,7 @@ class WorkspaceManager:
         :param new_workspace_name: new workspace name
         :raise: WorkspaceError
         """
+        self._assert_name_given(workspace_name, 'workspace')
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
@@ -195,6 +198,7 @@ class WorkspaceManager:
         :param workspace_name: the workspace name where the config is to be created
         :param config_name: the name of the configuration to be added
         """
+        self._assert_name_given(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
@@ -212,6 +216,7 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be removed
         :return:
         """
+        self._assert_name_given(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -228,6 +233,7 @@ class WorkspaceManager:
         :param new_config_name: the name of the new configuration
         :raise: WorkspaceError
         """
+        self._assert_name_given(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -245,6 +251,7 @@ class WorkspaceManager:
         :param new_config_name: the name of the new configuration
         :raise: WorkspaceError
         """
+        self._assert_name_given(config_name, 'configuration')
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -673,6 +680,11 @@ class WorkspaceManager:
         return name if len(name) <= max_len else (
             '...' + name[3 - max_len:] if mode == 'r' else name[:max_len - 3] + '...')
 
+    @classmethod
+    def _assert_name_given(cls, name, what):
+        if not name:
+            raise WorkspaceError('no %s name is specified' % what)
+
     def _assert_workspace_exists(self, workspace_name):
         if not os.path.exists(self.get_workspace_path(workspace_name)):
             raise WorkspaceError('workspace "%s" does not exist' % workspace_name)
-- 
2.43.0


From 5b1738744dc47b4f475ca4b699e303123e9e4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:35 +0000
Subject: [PATCH 18/31] fix: renaming a workspace to an existing one is refused
 instead of moving it inside

---
 dedop/ui/workspace_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 5023283..ce53c23 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -163,6 +163,8 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
+        if self.workspace_exists(new_workspace_name):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
-- 
2.43.0


From e82ab097d306a62ef0d730c8007397350bb31fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:35 +0000
Subject: [PATCH 19/31] fix: the current workspace is that of the workspaces
 directory in use

---
 dedop/ui/workspace_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index ce53c23..543449b 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -97,7 +97,8 @@ class WorkspaceManager:
 
     def get_current_workspace(self) -> Workspace:
         current_workspace = _readline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME))
-        return Workspace(None, current_workspace)
+        workspace_dir = self.get_workspace_path(current_workspace) if current_workspace else None
+        return Workspace(workspace_dir, current_workspace, is_current=bool(current_workspace))
 
     def set_current_workspace_name(self, workspace_name: str):
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0


From 652e98464a200692989f542cb469be207df9ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:35 +0000
Subject: [PATCH 20/31] fix: a file that matches several patterns is listed
 once

---
 dedop/ui/workspace_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 543449b..6a0fff0 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -655,6 +655,7 @@ class WorkspaceManager:
                 for p in pattern:
                     if fnmatch.fnmatch(fn, p):
                         new_fn_list.append(fn)
+                        break
             fn_list = new_fn_list
         return sorted(fn_list)
 
-- 
2.43.0


From d49c830af4edb9b1eee0f4c01911df4cf1bb5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 21/31] fix: compare command: resolve the second product by its
 own name, default it to the first

---
 dedop/cli/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 93fb027..fe08f19 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -959,7 +959,8 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('First L1B product not found: %s' % l1b_path_1)
 
             l1b_filename_2 = command_args.l1b_filename_2
-            if os.path.dirname(l1b_filename_1):
+            l1b_filename_2 = l1b_filename_2 if l1b_filename_2 else l1b_filename_1
+            if os.path.dirname(l1b_filename_2):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
                 if not workspace_name_2:
@@ -972,7 +973,7 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('Second L1B product not found: %s' % l1b_path_2)
 
             if os.path.samefile(l1b_path_1, l1b_path_2):
-                print('warning: comparing "%s" with itself')
+                print('warning: comparing "%s" with itself' % l1b_path_1)
 
             _WORKSPACE_MANAGER.compare_l1b_products(workspace_name_1, l1b_path_1, l1b_path_2)
         except WorkspaceError as error:
-- 
2.43.0


From 521f0ec91ea2b2d47887aff5bf754b880eb602c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 22/31] fix: child monitor: progress of a task of unknown total
 work failed

---
 dedop/util/monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index ab8317b..19942ad 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -195,7 +195,8 @@ class ChildMonitor(Monitor):
         self._parent_monitor.progress(work=parent_work, msg=self._label)
 
     def progress(self, work: float = None, msg: str = None):
-        parent_work = self._partial_work * (work / self._total_work) if work is not None else None
+        has_work = work is not None and self._total_work is not None
+        parent_work = self._partial_work * (work / self._total_work) if has_work else None
         parent_msg = '%s: %s' % (self._label, msg) if msg is not None else None
         self._parent_monitor.progress(work=parent_work, msg=parent_msg)
 
-- 
2.43.0


From 874cef4332119ddfcfa6acd665aa14ef70b618a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 23/31] fix: progress of a run with gaps went beyond its total
 work

---
 dedop/proc/sar/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 4fcadb2..49cc8df 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -240,7 +240,8 @@ class L1BProcessor(BaseProcessor):
                         gap_processing = True
                         gap_found = True
                         prev_time = None
-                        sub_monitor = monitor.child(1)
+                        # the records up to the gap have been counted when they were read
+                        sub_monitor = monitor.child(0)
                         sub_monitor.start("processing gap", len(self.surf_locs))
 
             elif sub_monitor is not None:
-- 
2.43.0


From 85727e03c6de83f82639e60f29baaffc67e29e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:50 +0000
Subject: [PATCH 24/31] fix: inspection: images of a variable showed the
 waveforms instead

---
 dedop/ui/inspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 97a6f6a..7c288ae 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -374,7 +374,7 @@ class L1bProductInspectorPlots:
         zmin = zmin if zmin else var_data.min()
         zmax = zmax if zmax else var_data.max()
         plt.figure(figsize=(10, 10))
-        plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
+        plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
         plt.xlabel('%s (index)' % var.dimensions[1])
         plt.ylabel('%s (index)' % var.dimensions[0])
@@ -587,7 +587,7 @@ class L1bProductInspectorPlots:
             # fig.axes.remove(ax2)
             ax2.remove()
 
-        im = ax3.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto',
+        im = ax3.imshow(var_data, interpolation='nearest', aspect='auto',
                         vmin=zmin, vmax=zmax, cmap=cmap)
         if has_xind:
             ax3.axvline(x=xind)
-- 
2.43.0


From a39cf7d13d46006ab1736cad6c42ba9935092d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:50 +0000
Subject: [PATCH 25/31] fix: inspection: limits of zero, and the upper limit of
 images with lines, were ignored

---
 dedop/ui/compare.py | 20 ++++++++++----------
 dedop/ui/inspect.py | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 4e92a34..30fb38d 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -201,8 +201,8 @@ class L1bProductComparatorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveforms_delta_im(self, vmin=None, vmax=None, cmap='RdBu_r'):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._comparator.waveforms_delta, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax,
                    cmap=cmap)
@@ -227,8 +227,8 @@ class L1bProductComparatorPlots:
         :param color2: Color of the second histogram
         :param alpha: Alpha value for histograms
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -267,8 +267,8 @@ class L1bProductComparatorPlots:
         :param bins: Number of bins
         :param log: Show logarithms of bin counts
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -290,8 +290,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms_delta-hist.png")
 
     def waveforms_scatter(self, vmin=None, vmax=None):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform
@@ -310,8 +310,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms-scatter.png")
 
     def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform.flatten()
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 7c288ae..cf5d4bb 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -210,8 +210,8 @@ class L1bProductInspectorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveform_im(self, vmin=None, vmax=None, cmap='jet'):
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax, cmap=cmap)
         plt.xlabel('Echo Sample Index')
@@ -294,8 +294,8 @@ class L1bProductInspectorPlots:
         :param log: Show logarithms of bin counts
         :param color: Color of the histogram bars, e.g. 'green'
         """
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -355,7 +355,7 @@ class L1bProductInspectorPlots:
                         name_options.extend(var_names)
                 name_options = sorted(name_options)
                 # TODO (forman, 20160709): add sliders for zmin, zmax
-                interact(self._plot_im, z_name=name_options, zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                interact(self._plot_im, z_name=name_options, zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
             else:
                 raise ValueError('name must be given')
         else:
@@ -371,8 +371,8 @@ class L1bProductInspectorPlots:
             return
         var_data = var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
         plt.figure(figsize=(10, 10))
         plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
@@ -532,11 +532,11 @@ class L1bProductInspectorPlots:
                 # TODO (forman, 20160709): add sliders for zmin, zmax
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
-                         zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                         zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
         else:
             if not z:
                 raise ValueError('z_name must be given')
-            self._plot_im_line(z, zmin=zmin, zmax=zmin, xind=xind, yind=yind, cmap=cmap)
+            self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
 
     def _plot_im_line(self, z_name, zmin=None, zmax=None, xind=None, yind=None, cmap='jet'):
         assert z_name
@@ -550,8 +550,8 @@ class L1bProductInspectorPlots:
 
         var_data = z_var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
 
         x_title = '%s (index)' % z_var.dimensions[1]
         y_title = '%s (index)' % z_var.dimensions[0]
-- 
2.43.0


From eebe4d98b79313d6afb63d5a8e18544e92ebb684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:05 +0000
Subject: [PATCH 26/31] fix: inspection: an image with lines was not shown when
 variable and indices were all given

---
 dedop/ui/inspect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index cf5d4bb..e830ccf 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -533,6 +533,8 @@ class L1bProductInspectorPlots:
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
                          zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
+            else:
+                self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
         else:
             if not z:
                 raise ValueError('z_name must be given')
-- 
2.43.0


From 81403222415b81abab69abb416bc3b7e29ad7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 27/31] fix: notebooks: the path of a product with an
 apostrophe gave a broken notebook

---
 dedop/ui/workspace_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 6a0fff0..5212ce2 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -477,7 +477,7 @@ class WorkspaceManager:
     def inspect_l1b_product(self, workspace_name: str, l1b_path: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'inspect-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH__', repr(l1b_path).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH__', json.dumps(repr(l1b_path))[1:-1])
         product_name = ntpath.basename(l1b_path)
         return self._launch_notebook_from_template(workspace_name,
                                                    'inspect-%s' % product_name,
@@ -488,8 +488,8 @@ class WorkspaceManager:
     def compare_l1b_products(self, workspace_name, l1b_path_1: str, l1b_path_2: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'compare-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH_1__', repr(l1b_path_1).replace('\\', '\\\\')) \
-            .replace('__L1B_FILE_PATH_2__', repr(l1b_path_2).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH_1__', json.dumps(repr(l1b_path_1))[1:-1]) \
+            .replace('__L1B_FILE_PATH_2__', json.dumps(repr(l1b_path_2))[1:-1])
         product1_name = ntpath.basename(l1b_path_1)
         product2_name = ntpath.basename(l1b_path_2)
         return self._launch_notebook_from_template(workspace_name,
-- 
2.43.0


From a0aae57fe222e54d16cd7d08add38114243ef8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 28/31] fix: notebooks: a notebook that could not be written
 was not reported

---
 dedop/ui/workspace_manager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 5212ce2..4c64fb8 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -508,7 +508,7 @@ class WorkspaceManager:
             try:
                 os.mkdir(notebook_dir)
             except (IOError, OSError) as e:
-                return 60, str(e)
+                raise WorkspaceError(str(e))
 
         index = 0
         while True:
@@ -519,9 +519,12 @@ class WorkspaceManager:
                 break
 
         # noinspection PyUnboundLocalVariable
-        with open(notebook_path, 'w') as fp:
-            fp.write(notebook_json)
-            print('wrote notebook file "%s"' % notebook_path)
+        try:
+            with open(notebook_path, 'w') as fp:
+                fp.write(notebook_json)
+        except (IOError, OSError) as e:
+            raise WorkspaceError(str(e))
+        print('wrote notebook file "%s"' % notebook_path)
 
         self.launch_notebook(title, notebook_dir, notebook_path=notebook_path)
 
-- 
2.43.0


From 721d7e0a8f9e69b0325b678c6592de16b4f236d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:25 +0000
Subject: [PATCH 29/31] fix: workspaces of the web service: listed stray files,
 without telling the current one, and failed to be a list when there were none

---
 dedop/ui/workspace_manager.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 4c64fb8..2ffcef5 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -183,13 +183,10 @@ class WorkspaceManager:
                            if os.path.isdir(os.path.join(workspaces_dir, name))])
         return []
 
-    def get_workspaces(self) -> List[str]:
-        workspaces_dir = self._workspaces_dir
-        if os.path.exists(workspaces_dir):
-            workspaces = [
-                Workspace(os.path.join(workspaces_dir, name), name).to_json_dict() if name != '.current' else None
-                for name in os.listdir(workspaces_dir)]
-            return list(filter(None, workspaces))
+    def get_workspaces(self) -> List[dict]:
+        current_name = self.get_current_workspace().name
+        return [Workspace(self.get_workspace_path(name), name, is_current=name == current_name).to_json_dict()
+                for name in self.get_workspace_names()]
 
     def config_exists(self, workspace_name: str, config_name: str) -> bool:
         config_dir = self.get_config_path(workspace_name, config_name)
-- 
2.43.0


From c4acc19b5ede2e77c79ad5905a11b1a7e1e0c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:59 +0000
Subject: [PATCH 30/31] fix: web service: renaming the current workspace or
 configuration left the selection behind

---
 dedop/webapi/websocket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index e3596c9..a2eb1d8 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -42,6 +42,8 @@ class WebSocketService:
 
     def rename_workspace(self, workspace_name, new_workspace_name) -> dict:
         workspace = self.workspace_manager.rename_workspace(workspace_name, new_workspace_name)
+        if workspace_name == self.workspace_manager.get_current_workspace().name:
+            workspace = self.workspace_manager.set_current_workspace_name(new_workspace_name)
         return workspace.to_json_dict()
 
     def get_current_workspace(self) -> dict:
@@ -85,6 +87,8 @@ class WebSocketService:
 
     def rename_config(self, workspace_name: str, config_name: str, new_config_name: str):
         self.workspace_manager.rename_config(workspace_name, config_name, new_config_name)
+        if config_name == self.workspace_manager.get_current_config_name(workspace_name):
+            self.workspace_manager.set_current_config_name(workspace_name, new_config_name)
 
     def get_current_config(self, workspace_name: str) -> dict:
         return {
-- 
2.43.0


From 6391a66647641af9463e022ecd48d27c65b88c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 31/31] fix: beam numbering of the first bursts after a gap
 took over from the last burst before it

---
 dedop/proc/sar/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 49cc8df..a032151 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -291,6 +291,9 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
+                    # the lists of beam angles grow anew
+                    self.beam_angles_list_size_prev = -1
+                    self.beam_angles_trend_prev = -1
                     sub_monitor.done()
                 else:
                     # the end of the input has been reached
-- 
2.43.0

