From de7dcde1b81f1e07bbe2f097e5a72339f63e5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:03 +0000
Subject: [PATCH 01/72] fix: report Monte Carlo dispersions as state minus
 template, as documented

---
 nyx-core/src/mc/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index b3dbef8..9451270 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -320,7 +320,7 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let mut actual_dispersions = Vec::new();
         for disp in &self.dispersions {
             // Compute the delta
-            let delta = self.template.value(disp.param).unwrap() - state.value(disp.param).unwrap();
+            let delta = state.value(disp.param).unwrap() - self.template.value(disp.param).unwrap();
             actual_dispersions.push((disp.param, delta));
         }
 
-- 
2.43.0


From 1107c61980400f9c895924262a0753b81e2ea7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:29 +0000
Subject: [PATCH 02/72] fix: disperse Cr, Cd and propellant mass on their own
 state index and with their std dev

---
 nyx-core/src/mc/multivariate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 9451270..a5396f1 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -168,13 +168,16 @@ impl MvnSpacecraft {
                 } else {
                     match disp.param {
                         StateParameter::Cr() => {
-                            cov[(7, 7)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(6, 6)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[6] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::Cd() => {
-                            cov[(8, 8)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(7, 7)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[7] = disp.mean.unwrap_or(0.0);
                         }
-                        StateParameter::DryMass() | StateParameter::PropMass() => {
-                            cov[(9, 9)] = disp.mean.unwrap_or(0.0).powi(2);
+                        StateParameter::PropMass() => {
+                            cov[(8, 8)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[8] = disp.mean.unwrap_or(0.0);
                         }
                         _ => return Err(Box::new(StateError::ReadOnly { param: disp.param })),
                     }
-- 
2.43.0


From 7789cca42723f672aec131fd41e60cde84539255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:23 +0000
Subject: [PATCH 03/72] fix: publish propagated states in the caller's frame
 and restore it and the step sign on every stop

---
 nyx-core/src/propagators/instance.rs | 58 +++++++++++++++-------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a6d74b5..34b2769 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -25,6 +25,7 @@ use crate::md::trajectory::{Interpolatable, Traj};
 use crate::time::{Duration, Epoch, Unit};
 use anise::almanac::Almanac;
 use anise::errors::MathError;
+use anise::prelude::Frame;
 use log::{info, warn};
 use rayon::iter::ParallelBridge;
 use rayon::prelude::ParallelIterator;
@@ -110,9 +111,12 @@ where
             .context(DynamicsSnafu)?;
 
         let backprop = duration.is_negative();
-        if backprop {
-            self.step_size = -self.step_size; // Invert the step size
-        }
+        // Orient the step size, regardless of how the previous call ended.
+        self.step_size = if backprop {
+            -self.step_size.abs()
+        } else {
+            self.step_size.abs()
+        };
 
         // Transform the state if needed
         let mut original_frame = None;
@@ -164,16 +168,7 @@ where
                     }
 
                     // Rotate back if needed
-                    if let Some(original_frame) = original_frame {
-                        let new_orbit = self
-                            .almanac
-                            .transform_to(self.state.orbit(), original_frame, None)
-                            .context(DynamicsAlmanacSnafu {
-                                action: "transforming state from desired integration frame",
-                            })
-                            .context(DynamicsSnafu)?;
-                        self.state.set_orbit(new_orbit);
-                    }
+                    self.state = self.state_in_frame(original_frame)?;
 
                     return Ok(self.state);
                 }
@@ -185,6 +180,9 @@ where
 
                 self.single_step()?;
 
+                // Rotate back if needed
+                self.state = self.state_in_frame(original_frame)?;
+
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
                     && let Err(e) = chan.send(self.state)
@@ -207,18 +205,6 @@ where
                     }
                 }
 
-                // Rotate back if needed
-                if let Some(original_frame) = original_frame {
-                    let new_orbit = self
-                        .almanac
-                        .transform_to(self.state.orbit(), original_frame, None)
-                        .context(DynamicsAlmanacSnafu {
-                            action: "transforming state from desired integration frame",
-                        })
-                        .context(DynamicsSnafu)?;
-                    self.state.set_orbit(new_orbit);
-                }
-
                 return Ok(self.state);
             } else {
                 #[cfg(not(target_arch = "wasm32"))]
@@ -248,12 +234,16 @@ where
                     // condition they are seeking is between the last state on the channel
                     // and the state we're returning
 
+                    // Restore to a positive step size and rotate back if needed
+                    self.step_size = self.step_size.abs();
+                    self.state = self.state_in_frame(original_frame)?;
+
                     return Ok(self.state);
                 }
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.state_in_frame(original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -261,6 +251,22 @@ where
         }
     }
 
+    /// Returns a copy of the current state in the provided frame, i.e. rotated back from the integration frame.
+    fn state_in_frame(&self, frame: Option<Frame>) -> Result<D::StateType, PropagationError> {
+        let mut state = self.state;
+        if let Some(frame) = frame {
+            let new_orbit = self
+                .almanac
+                .transform_to(state.orbit(), frame, None)
+                .context(DynamicsAlmanacSnafu {
+                    action: "transforming state from desired integration frame",
+                })
+                .context(DynamicsSnafu)?;
+            state.set_orbit(new_orbit);
+        }
+        Ok(state)
+    }
+
     /// This method propagates the provided Dynamics for the provided duration.
     pub fn for_duration(&mut self, duration: Duration) -> Result<D::StateType, PropagationError> {
         self.propagate(duration, None, Some(|_| Ok(false)))
-- 
2.43.0


From 4e52300230fcf0fa6e35c0a4b17bba23b5e28458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:01 +0000
Subject: [PATCH 04/72] fix: apply the adaptive step error control to backward
 propagation

---
 nyx-core/src/propagators/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 34b2769..e34b526 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -432,7 +432,7 @@ where
                         .estimate(&error_est, &next_state, state_vec);
 
                 if self.details.error <= self.prop.opts.tolerance
-                    || step_size_s <= self.prop.opts.min_step.to_seconds()
+                    || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
                     if next_state.iter().any(|x| x.is_nan()) {
@@ -487,8 +487,8 @@ where
                         * (self.prop.opts.tolerance / self.details.error)
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
-                    step_size_s = if proposed_step_s < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds()
+                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
+                        self.prop.opts.min_step.to_seconds() * step_size_s.signum()
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From 0d140d27c492c099583ca6b216672a0fb0fb5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:31 +0000
Subject: [PATCH 05/72] fix: search events in the requested frame and in
 backward propagations

---
 nyx-core/src/propagators/event.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 6d07cd7..829f5b7 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -169,8 +169,14 @@ where
 
         traj.finalize();
 
-        // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
-        let last_traj_state = traj.states.last().cloned().unwrap();
+        // The trajectory is chronological, so a backward search ends at its first state.
+        // We pushed at least one item to this trajectory, so the following will always succeed.
+        let backprop = max_duration.is_negative();
+        let last_traj_state = if backprop {
+            *traj.first()
+        } else {
+            *traj.last()
+        };
         if end_state == last_traj_state {
             return Err(PropagationError::NthEventError {
                 nth: trigger,
@@ -179,7 +185,8 @@ where
         }
 
         // Add the final state to the trajectory so we can search it in full.
-        traj.states.push(end_state);
+        let end_idx = if backprop { 0 } else { traj.states.len() };
+        traj.states.insert(end_idx, end_state);
 
         // We have one bracket to search.
         let traj_at = |epoch: Epoch| -> Result<f64, AnalysisError> {
@@ -189,7 +196,18 @@ where
                     err: format!("{e}"),
                 })?;
 
-            event.eval(state.orbit(), &self.almanac)
+            // Search the same function as the one which triggered the stop.
+            let orbit = if let Some(observer_frame) = event_frame {
+                self.almanac
+                    .transform_to(state.orbit(), observer_frame, None)
+                    .map_err(|e| AnalysisError::GenericAnalysisError {
+                        err: format!("{e}"),
+                    })?
+            } else {
+                state.orbit()
+            };
+
+            event.eval(orbit, &self.almanac)
         };
 
         // Else Brent solver between these states
-- 
2.43.0


From 6c5bf08e18cd7c4b54fc180a079a6bba22a426f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:11 +0000
Subject: [PATCH 06/72] fix: report damaged parquet files as errors instead of
 panicking

---
 nyx-core/src/md/trajectory/sc_traj.rs          | 10 +++++++---
 nyx-core/src/od/msr/trackingdata/io_parquet.rs |  4 +++-
 nyx-core/src/od/process/solution/import.rs     |  4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index a4e9717..1da0435 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -22,7 +22,7 @@ use crate::State;
 use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::{ThrustDirectionReplay, Thruster};
 use crate::errors::{FromAlmanacSnafu, NyxError};
-use crate::io::{InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
+use crate::io::{ArrowSnafu, InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
 use crate::md::prelude::{Interpolatable, StateParameter};
 use crate::time::{Duration, Epoch, TimeUnits};
 use anise::analysis::prelude::OrbitalElement;
@@ -214,7 +214,9 @@ impl Traj<Spacecraft> {
             action: "opening trajectory file",
         })?;
 
-        let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+        let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+            action: "reading trajectory file",
+        })?;
 
         let mut metadata = HashMap::new();
         // Build the custom metadata
@@ -342,7 +344,9 @@ impl Traj<Spacecraft> {
 
         // Now convert each batch on the fly
         for maybe_batch in reader {
-            let batch = maybe_batch.unwrap();
+            let batch = maybe_batch.context(ArrowSnafu {
+                action: "reading batch of trajectory data",
+            })?;
 
             let epochs = batch
                 .column_by_name("Epoch (UTC)")
diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 781392a..3150efa 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -48,7 +48,9 @@ impl TrackingDataArc {
         let file = File::open(&path).context(StdIOSnafu {
             action: "opening file for tracking arc",
         })?;
-        let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+        let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+            action: "opening tracking arc",
+        })?;
 
         let reader = builder.build().context(ParquetSnafu {
             action: "reading tracking arc",
diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index adf9c9f..2c91a83 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -83,7 +83,9 @@ where
           action: "opening OD solution file",
       })?;
 
-      let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+      let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+          action: "opening OD solution file",
+      })?;
 
       let mut metadata = HashMap::new();
       // Build the custom metadata
-- 
2.43.0


From 78af71ed08942839be7e02c934a862e74f3825f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:30 +0000
Subject: [PATCH 07/72] fix: export the last measurement of a tracking arc when
 no end epoch is given

---
 .../src/od/msr/trackingdata/io_parquet.rs     | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 3150efa..5e1bca9 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -268,19 +268,20 @@ impl TrackingDataArc {
 
         // Build the measurement iterator
 
-        let measurements =
-            if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
-                let start = cfg
-                    .start_epoch
-                    .unwrap_or_else(|| self.start_epoch().unwrap());
-                let end = cfg.end_epoch.unwrap_or_else(|| self.end_epoch().unwrap());
-
+        let measurements = if let Some(start) = cfg.start_epoch {
+            if let Some(end) = cfg.end_epoch {
                 info!("Exporting measurements from {start} to {end}.");
-
                 self.clone().filter_by_epoch(start..end).measurements
             } else {
-                self.measurements.clone()
-            };
+                info!("Exporting measurements from {start}.");
+                self.clone().filter_by_epoch(start..).measurements
+            }
+        } else if let Some(end) = cfg.end_epoch {
+            info!("Exporting measurements until {end}.");
+            self.clone().filter_by_epoch(..end).measurements
+        } else {
+            self.measurements.clone()
+        };
 
         // Build all of the records
 
-- 
2.43.0


From be0256aaf13915415a421449df018feb3bfaada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:08 +0000
Subject: [PATCH 08/72] fix: write TDM epochs in UTC, the time system which the
 file declares

---
 .../src/od/msr/trackingdata/io_ccsds_tdm.rs    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9b6285e..b3ecb9a 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -516,13 +516,25 @@ impl TrackingDataArc {
                 writeln!(
                     writer,
                     "\tSTART_TIME = {}",
-                    Formatter::new(tracker_data.start_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::new(
+                        tracker_data
+                            .start_epoch()
+                            .unwrap()
+                            .to_time_scale(TimeScale::UTC),
+                        iso8601_no_ts
+                    )
                 )
                 .map_err(err_hdlr)?;
                 writeln!(
                     writer,
                     "\tSTOP_TIME = {}",
-                    Formatter::new(tracker_data.end_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::new(
+                        tracker_data
+                            .end_epoch()
+                            .unwrap()
+                            .to_time_scale(TimeScale::UTC),
+                        iso8601_no_ts
+                    )
                 )
                 .map_err(err_hdlr)?;
 
@@ -593,7 +605,7 @@ impl TrackingDataArc {
                             writer,
                             "\t{:<20} = {:<23}\t{:.12}",
                             mtype.ccsds_tdm_name(),
-                            Formatter::new(m.epoch, iso8601_no_ts),
+                            Formatter::new(m.epoch.to_time_scale(TimeScale::UTC), iso8601_no_ts),
                             value * multiplier
                         )
                         .map_err(err_hdlr)?;
-- 
2.43.0


From 59fb21b53744853f06854b3ea86e3af5f6769c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:08 +0000
Subject: [PATCH 09/72] fix: report the errors of the last write of a TDM file

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index b3ecb9a..bd29192 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -619,6 +619,9 @@ impl TrackingDataArc {
         #[allow(clippy::writeln_empty_string)]
         writeln!(writer, "").map_err(err_hdlr)?;
 
+        // Dropping the buffered writer would hide the errors of its last write.
+        writer.flush().map_err(err_hdlr)?;
+
         // Return the path this was written to
         let tock_time = Epoch::now().unwrap() - tick;
         info!("CCSDS TDM written to {} in {tock_time}", path_buf.display());
-- 
2.43.0


From e6a77df2d361e0c4821197a4405a7365c8c7ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:08 +0000
Subject: [PATCH 10/72] fix: refuse a TDM file truncated in a data section

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index bd29192..9582584 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -207,6 +207,13 @@ impl TrackingDataArc {
             }
         }
 
+        if in_data_section {
+            // The last line read may be cut in the middle of its value.
+            return Err(InputOutputError::Inconsistency {
+                msg: format!("{source} is truncated: DATA_START without DATA_STOP"),
+            });
+        }
+
         let mut turnaround_ratio = None;
         let drop_freq_data;
         if has_freq_data {
-- 
2.43.0


From 29b4fe3286b0f59d54d65ca38feaed7505299c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:10 +0000
Subject: [PATCH 11/72] fix: do not import missing observables of a parquet
 tracking arc as zeros

---
 .../src/od/msr/trackingdata/io_parquet.rs     | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 5e1bca9..c867eff 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -185,28 +185,36 @@ impl TrackingDataArc {
                     rejected: false,
                 };
 
-                if range_avail {
+                if let Some(range_data) = range_data
+                    && range_data.is_valid(i)
+                {
                     measurement
                         .data
-                        .insert(MeasurementType::Range, range_data.unwrap().value(i));
+                        .insert(MeasurementType::Range, range_data.value(i));
                 }
 
-                if doppler_avail {
+                if let Some(doppler_data) = doppler_data
+                    && doppler_data.is_valid(i)
+                {
                     measurement
                         .data
-                        .insert(MeasurementType::Doppler, doppler_data.unwrap().value(i));
+                        .insert(MeasurementType::Doppler, doppler_data.value(i));
                 }
 
-                if az_avail {
+                if let Some(azimuth_data) = azimuth_data
+                    && azimuth_data.is_valid(i)
+                {
                     measurement
                         .data
-                        .insert(MeasurementType::Azimuth, azimuth_data.unwrap().value(i));
+                        .insert(MeasurementType::Azimuth, azimuth_data.value(i));
                 }
 
-                if el_avail {
+                if let Some(elevation_data) = elevation_data
+                    && elevation_data.is_valid(i)
+                {
                     measurement
                         .data
-                        .insert(MeasurementType::Elevation, elevation_data.unwrap().value(i));
+                        .insert(MeasurementType::Elevation, elevation_data.value(i));
                 }
 
                 measurements.push(measurement);
-- 
2.43.0


From 7062c488d6dd405e5341f5afda3eabeba8f544d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 12/72] fix: keep observables missing from a measurement out of
 the Kalman update

---
 nyx-core/src/od/groundpnt/sensitivity.rs |  2 +-
 nyx-core/src/od/interlink/sensitivity.rs |  2 +-
 nyx-core/src/od/msr/sensitivity.rs       |  2 +-
 nyx-core/src/od/process/mod.rs           | 11 ++++++++++-
 nyx-core/src/od/simulator/trackdata.rs   |  3 ++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index bd27961..5b5ef98 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -48,7 +48,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <GroundAsset as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 936ccd3..83aad3a 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -58,7 +58,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 46a3cb0..2a832e3 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -96,7 +96,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 33689e4..934fc07 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -325,13 +325,22 @@ where
                                         device.measure(epoch, &traj, None, &self.almanac)?
                                     {
                                         // Apply any biases on the computed observation
-                                        let computed_obs = computed_meas
+                                        let mut computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
                                             - device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
 
+                                        // An observable missing from this measurement has no residual.
+                                        for (i, available) in
+                                            msr.availability(&cur_msr_types).iter().enumerate()
+                                        {
+                                            if !available {
+                                                computed_obs[i] = 0.0;
+                                            }
+                                        }
+
                                         // Apply the modulo to the real obs
                                         if let Some(moduli) = &arc.moduli {
                                             let mut obs_ambiguity =
diff --git a/nyx-core/src/od/simulator/trackdata.rs b/nyx-core/src/od/simulator/trackdata.rs
index a063e3c..42196ea 100644
--- a/nyx-core/src/od/simulator/trackdata.rs
+++ b/nyx-core/src/od/simulator/trackdata.rs
@@ -90,7 +90,8 @@ where
         DefaultAllocator: Allocator<M, M>,
     {
         // Rebuild the R matrix of the measurement noise.
-        let mut r_mat = OMatrix::<f64, M, M>::zeros();
+        // The rows without an observation have a zero sensitivity: their unit noise keeps this matrix invertible.
+        let mut r_mat = OMatrix::<f64, M, M>::identity();
 
         for (i, msr_type) in msr_types.iter().enumerate() {
             if self.measurement_types().contains(msr_type) {
-- 
2.43.0


From cf49382915404b737cfa49ff4885434f8f9a350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:10 +0000
Subject: [PATCH 13/72] fix: linearize range and Doppler about the reference
 instead of the measured values

---
 nyx-core/src/od/interlink/sensitivity.rs | 22 +++++-----------------
 nyx-core/src/od/msr/sensitivity.rs       | 14 +++++++-------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 83aad3a..3b96cea 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -82,7 +82,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
@@ -107,17 +107,9 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Doppler measurement data is missing".to_string(),
-                    }
-                })?;
+                // Linearize about the expected range and range rate: the measured ones may be ambiguous or outliers.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -137,11 +129,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 2a832e3..3f471a4 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -120,7 +120,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &GroundStation,
         almanac: &Almanac,
@@ -142,14 +142,13 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
         match msr_type {
             MeasurementType::Doppler => {
                 // Always recompute the expected to range, a better model for scalar OD processing.
-                let ρ_km = tx
+                let aer = tx
                     .azimuth_elevation_of(receiver, None, almanac)
                     .context(ODAlmanacSnafu {
                         action: "computing range for Doppler measurement",
-                    })?
-                    .range_km;
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                    })?;
+                let ρ_km = aer.range_km;
+                let ρ_dot_km_s = aer.range_rate_km_s;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -169,7 +168,8 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                // Linearize about the expected range: the measured one may be ambiguous or an outlier.
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From 79530031a1ffaad0adace792288171ea53eb1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:11 +0000
Subject: [PATCH 14/72] fix: stop predictions at the requested epoch and
 initialize their process noises

---
 nyx-core/src/od/process/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 934fc07..f30ea82 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -469,11 +469,15 @@ where
             prev_used_snc: 0,
         };
 
+        kf.initialize_process_noises();
+
         let prop_time = end_epoch - kf.previous_estimate().epoch();
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
         loop {
-            let nominal_state = prop_instance.for_duration(self.max_step).context(ODPropSnafu)?;
+            // Do not predict beyond the end epoch.
+            let step = self.max_step.min(end_epoch - prop_instance.state.epoch());
+            let nominal_state = prop_instance.for_duration(step).context(ODPropSnafu)?;
             // Extract the state and update the STM in the filter.
             // Get the datetime and info needed to compute the theoretical measurement according to the model
             let epoch = nominal_state.epoch();
-- 
2.43.0


From a247178207f8e1d7544ca59d4b2959ee3c9c1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:20 +0000
Subject: [PATCH 15/72] fix: resume a reference updating filter from its
 updated state

---
 nyx-core/src/od/process/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index f30ea82..d57c8c5 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -121,6 +121,15 @@ where
         + Allocator<Accel, <D::StateType as State>::Size>
         + Allocator<nalgebra::Const<1>, MsrSize>,
 {
+    /// Returns the state from which to propagate the provided estimate: the reference update of the estimate
+    /// from a measurement still needs to be applied.
+    fn reference_state(&self, estimate: &KfEstimate<D::StateType>) -> D::StateType {
+        match self.kf_variant {
+            KalmanVariant::ReferenceUpdate if !estimate.predicted => estimate.state(),
+            _ => estimate.nominal_state(),
+        }
+    }
+
     /// Process the provided tracking arc for this orbit determination process.
     #[allow(clippy::erasing_op)]
     pub fn process_arc(
@@ -162,7 +171,7 @@ where
 
         // Set up the propagator instance.
         let prop = self.prop.clone();
-        let mut prop_instance = prop.with(initial_estimate.nominal_state().with_stm(), self.almanac.clone()).quiet();
+        let mut prop_instance = prop.with(self.reference_state(&initial_estimate).with_stm(), self.almanac.clone()).quiet();
 
         // Update the step size of the navigation propagator if it isn't already fixed step
         if !prop_instance.fixed_step {
@@ -458,7 +467,7 @@ where
 
         // Set up the propagator instance.
         let prop = self.prop.clone();
-        let mut prop_instance = prop.with(initial_estimate.nominal_state().with_stm(), self.almanac.clone()).quiet();
+        let mut prop_instance = prop.with(self.reference_state(&initial_estimate).with_stm(), self.almanac.clone()).quiet();
 
 
         // Set up the Kalman filter.
-- 
2.43.0


From bd186dfdae4bc00d3a0b094f25ecfe74dab70f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:13 +0000
Subject: [PATCH 16/72] fix: integrate the state transition matrix as A * STM
 at every integrator stage

---
 nyx-core/src/dynamics/spacecraft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 3fecb4c..6bb8f44 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -205,13 +205,13 @@ impl Dynamics for SpacecraftDynamics {
         let mut d_x = OVector::<f64, Const<90>>::zeros();
 
         // Maybe I use this only when estimating the orbit state from a spacecraft, but that functionality will soon disappear.
-        match ctx.stm {
+        match osc_sc.stm {
             Some(stm) => {
                 // Call the gradient (also called the dual EOM function of the force models)
                 let (state, grad) = self.dual_eom(delta_t_s, &osc_sc, almanac)?;
 
-                // Apply the gradient to the STM
-                let stm_dt = stm * grad;
+                // Apply the gradient to the STM: its derivative is A * STM.
+                let stm_dt = grad * stm;
 
                 // Rebuild the state vector
                 for (i, val) in state.iter().enumerate() {
-- 
2.43.0


From 08fdf02c1578d0f0c96f1a42e8514e2a0572e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 17/72] fix: average two-way azimuths along the shortest arc

---
 nyx-core/src/od/msr/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/types.rs b/nyx-core/src/od/msr/types.rs
index e08f938..3917151 100644
--- a/nyx-core/src/od/msr/types.rs
+++ b/nyx-core/src/od/msr/types.rs
@@ -134,7 +134,10 @@ impl MeasurementType {
                 Ok(doppler_km_s + noise / 2.0_f64.sqrt())
             }
             Self::Azimuth => {
-                let az_deg = (aer_t1.azimuth_deg + aer_t0.azimuth_deg) * 0.5;
+                // Average along the shortest arc, as the azimuth wraps around when crossing North.
+                let delta_deg =
+                    (aer_t1.azimuth_deg - aer_t0.azimuth_deg + 180.0).rem_euclid(360.0) - 180.0;
+                let az_deg = (aer_t0.azimuth_deg + delta_deg * 0.5).rem_euclid(360.0);
                 Ok(az_deg + noise / 2.0_f64.sqrt())
             }
             Self::Elevation => {
-- 
2.43.0


From 272691f978424ea5915a8a52946521697bc3d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 18/72] fix: hand off overlapping tracking strands in time
 order

---
 nyx-core/src/od/simulator/arc.rs | 73 ++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 255bc97..5c47fd6 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -398,41 +398,58 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
             }
         }
         // Build all of the strands, remembering which tracker they come from.
-        let mut cfg_as_vec = Vec::new();
+        let mut all_strands = Vec::new();
         for (name, cfg) in &built_cfg {
             if let Some(strands) = &cfg.strands {
-                for (ii, strand) in strands.iter().enumerate() {
-                    cfg_as_vec.push((name.clone(), ii, *strand));
+                for strand in strands {
+                    all_strands.push((name.clone(), *strand));
                 }
             }
         }
-        // Iterate through the strands by chronological order. Cannot use maps because we change types.
-        cfg_as_vec.sort_by_key(|(_, _, strand)| strand.start);
-        for (ii, (this_name, this_pos, this_strand)) in
-            cfg_as_vec.iter().take(cfg_as_vec.len() - 1).enumerate()
-        {
-            // Grab the config
-            if let Some(config) = self.configs[this_name].scheduler.as_ref() {
-                // Grab the next strand, chronologically
-                if let Some((next_name, next_pos, next_strand)) = cfg_as_vec.get(ii + 1) {
-                    if config.handoff == Handoff::Greedy && this_strand.end >= next_strand.start {
-                        // Modify the built configurations to change the start time of the next strand because the current one is greedy.
-                        let next_config = built_cfg.get_mut(next_name).unwrap();
-                        let new_start = this_strand.end + next_config.sampling;
-                        next_config.strands.as_mut().unwrap()[*next_pos].start = new_start;
-                        info!("Greedy handoff for {this_name}: {next_name} delayed to {new_start}");
-                    } else if config.handoff == Handoff::Eager
-                        && this_strand.end >= next_strand.start
-                    {
-                        let this_config = built_cfg.get_mut(this_name).unwrap();
-                        let new_end = next_strand.start - this_config.sampling;
-                        this_config.strands.as_mut().unwrap()[*this_pos].end = new_end;
-                        info!("Eager handoff for {this_name}: {this_name} terminated at {new_end}");
-                    }
+        // Iterate through the strands by chronological order, accounting for the handoffs so far.
+        all_strands.sort_by_key(|(_, strand)| strand.start);
+        let mut ii = 0;
+        while ii + 1 < all_strands.len() {
+            let (this_name, this_strand) = all_strands[ii].clone();
+            let (next_name, next_strand) = all_strands[ii + 1].clone();
+            let handoff = self.configs[&this_name].scheduler.map(|cfg| cfg.handoff);
+
+            if this_strand.end < next_strand.start {
+                ii += 1;
+            } else if handoff == Some(Handoff::Greedy) {
+                // Change the start time of the next strand because the current one is greedy.
+                let new_start = this_strand.end + built_cfg[&next_name].sampling;
+                if new_start > next_strand.end {
+                    info!("Greedy handoff for {this_name}: {next_name} dropped {next_strand}");
+                    all_strands.remove(ii + 1);
+                } else {
+                    info!("Greedy handoff for {this_name}: {next_name} delayed to {new_start}");
+                    all_strands[ii + 1].1.start = new_start;
+                    all_strands[ii + 1..].sort_by_key(|(_, strand)| strand.start);
+                }
+            } else if handoff == Some(Handoff::Eager) {
+                let new_end = next_strand.start - built_cfg[&this_name].sampling;
+                if new_end < this_strand.start {
+                    info!("Eager handoff for {this_name}: {this_name} dropped {this_strand}");
+                    all_strands.remove(ii);
                 } else {
-                    // Reached the end
-                    break;
+                    info!("Eager handoff for {this_name}: {this_name} terminated at {new_end}");
+                    all_strands[ii].1.end = new_end;
+                    ii += 1;
                 }
+            } else {
+                ii += 1;
+            }
+        }
+        // Store the strands after the handoffs.
+        for cfg in built_cfg.values_mut() {
+            if let Some(strands) = &mut cfg.strands {
+                strands.clear();
+            }
+        }
+        for (name, strand) in all_strands {
+            if let Some(strands) = &mut built_cfg.get_mut(&name).unwrap().strands {
+                strands.push(strand);
             }
         }
 
-- 
2.43.0


From 793c4ee2951f7049f4b8fffc605ef911161102e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:07 +0000
Subject: [PATCH 19/72] fix: skip the uncertainty of elements without partials
 in orbit determination exports

---
 nyx-core/src/od/process/solution/export.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 08bd7d6..5739a15 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -173,7 +173,12 @@ where
 
         let mut sigma_fields = fields.clone();
         // Check that we can retrieve this information
-        sigma_fields.retain(|param| matches!(param, StateParameter::Element(_oe)));
+        sigma_fields.retain(|param| match param {
+            StateParameter::Element(oe) => {
+                self.estimates.iter().all(|est| est.sigma_for(*oe).is_ok())
+            }
+            _ => false,
+        });
 
         for field in &sigma_fields {
             hdrs.push(field.to_cov_field(more_meta.clone()));
-- 
2.43.0


From 05873de729481af48ac0aa3a430e3867561dc14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:07 +0000
Subject: [PATCH 20/72] fix: rotate the exported covariance into the RIC frame

---
 nyx-core/src/od/process/solution/export.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 5739a15..e45ede7 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -434,19 +434,20 @@ where
         let mut ric_covariances = Vec::new();
 
         for s in &estimates {
-            let dcm_ric2inertial = s
+            let dcm_inertial2ric = s
                 .state()
                 .orbit()
                 .dcm_from_ric_to_inertial()
                 .unwrap()
+                .transpose()
                 .state_dcm();
 
             // Build the matrix view of the orbit part of the covariance.
             let cov = s.covar();
             let orbit_cov = cov.fixed_view::<6, 6>(0, 0);
 
-            // Rotate back into the RIC frame
-            let ric_covar = dcm_ric2inertial * orbit_cov * dcm_ric2inertial.transpose();
+            // Rotate into the RIC frame
+            let ric_covar = dcm_inertial2ric * orbit_cov * dcm_inertial2ric.transpose();
             ric_covariances.push(ric_covar);
         }
 
-- 
2.43.0


From 5f8e9b6e90147ed1a326e77fd397e205d43825d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:37 +0000
Subject: [PATCH 21/72] fix: export the gains and smoother ratios of the
 requested window only

---
 nyx-core/src/od/process/solution/export.rs | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index e45ede7..d05216f 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -351,7 +351,7 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
+        let (estimates, residuals, gains, filter_smoother_ratios) =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                 // Must interpolate the data!
                 let start = cfg
@@ -364,17 +364,27 @@ where
                 let mut residuals: Vec<Option<Residual<MsrSize>>> =
                     Vec::with_capacity(self.residuals.len());
                 let mut estimates = Vec::with_capacity(self.estimates.len());
+                let mut gains = Vec::with_capacity(self.gains.len());
+                let mut filter_smoother_ratios =
+                    Vec::with_capacity(self.filter_smoother_ratios.len());
 
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
+                for (idx, estimate) in self.estimates.iter().enumerate() {
                     if estimate.epoch() >= start && estimate.epoch() <= end {
                         estimates.push(*estimate);
-                        residuals.push(residual.clone());
+                        residuals.push(self.residuals[idx].clone());
+                        gains.push(self.gains[idx].clone());
+                        filter_smoother_ratios.push(self.filter_smoother_ratios[idx]);
                     }
                 }
 
-                (estimates, residuals)
+                (estimates, residuals, gains, filter_smoother_ratios)
             } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
+                (
+                    self.estimates.to_vec(),
+                    self.residuals.to_vec(),
+                    self.gains.to_vec(),
+                    self.filter_smoother_ratios.to_vec(),
+                )
             };
 
         // Build all of the records
@@ -592,7 +602,7 @@ where
         for i in 0..est_size {
             for j in 0..MsrSize::DIM {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -606,7 +616,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..est_size {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From df00ed69a421ce379262593264e92afd46a48800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:10 +0000
Subject: [PATCH 22/72] fix: import residuals in the order of the exported
 measurement types

---
 nyx-core/src/od/process/solution/import.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index 2c91a83..273490b 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -283,7 +283,8 @@ where
             let tracker_col = get_col("Tracker").ok().and_then(|arr| arr.as_any().downcast_ref::<StringArray>().cloned());
             let ratio_col = get_col("Residual ratio").ok().and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned());
 
-            let mut residual_data_cols: HashMap<MeasurementType, BTreeMap<String, Float64Array>> = HashMap::new();
+            // Kept in the order of the measurement types, like the whitened residuals and the gains.
+            let mut residual_data_cols: Vec<(MeasurementType, BTreeMap<String, Float64Array>)> = Vec::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
                  let prefixes = ["Prefit residual", "Whitened residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
@@ -295,7 +296,7 @@ where
                                  type_cols.insert(prefix.to_string(), arr.clone());
                             }
                  }
-                 residual_data_cols.insert(*msr_type, type_cols);
+                 residual_data_cols.push((*msr_type, type_cols));
             }
 
             // Gain columns (store for iteration)
-- 
2.43.0


From 47d672fa7ff39d574a39958ac88cdac877640b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:10 +0000
Subject: [PATCH 23/72] fix: import the whitened residuals under their exported
 names

---
 nyx-core/src/od/process/solution/import.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index 273490b..164a3a5 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -287,7 +287,7 @@ where
             let mut residual_data_cols: Vec<(MeasurementType, BTreeMap<String, Float64Array>)> = Vec::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
-                 let prefixes = ["Prefit residual", "Whitened residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
+                 let prefixes = ["Prefit residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
                  for prefix in prefixes {
                       // Again, guessing column name format
                       let base_name = format!("{}: {:?} ({})", prefix, msr_type, msr_type.unit());
@@ -299,6 +299,15 @@ where
                  residual_data_cols.push((*msr_type, type_cols));
             }
 
+            // The whitened residuals are exported by index because they combine the measurement types
+            let whitened_cols: Vec<Option<Float64Array>> = (0..MsrSize::DIM)
+                .map(|j| {
+                    get_col(&format!("Whitened residual #{j}"))
+                        .ok()
+                        .and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned())
+                })
+                .collect();
+
             // Gain columns (store for iteration)
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
@@ -431,22 +440,24 @@ where
                      let mut comp_obs_vec = OVector::<f64, MsrSize>::zeros();
                      let mut current_msr_types = IndexSet::with_capacity(MsrSize::DIM);
 
+                     for (j, col) in whitened_cols.iter().enumerate() {
+                           whitened_vec[j] = col.as_ref().and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None }).unwrap_or(f64::NAN);
+                     }
+
                      let mut msr_idx = 0;
                      for (msr_type, type_cols) in &residual_data_cols {
                            if msr_idx >= MsrSize::DIM { break; } // Should not happen if MsrSize matches data
 
                            // Check if data exists for this type *at this row*
                            let prefit_val = type_cols.get("Prefit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
-                           let whitened_resid_val = type_cols.get("Whitened residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let postfit_val = type_cols.get("Postfit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let noise_val = type_cols.get("Measurement noise").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let real_val = type_cols.get("Real observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let comp_val = type_cols.get("Computed observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
 
                            // Only include if *at least one* value is present for this type in this row
-                           if prefit_val.is_some() || whitened_resid_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
+                           if prefit_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
                                 prefit_vec[msr_idx] = prefit_val.unwrap_or(f64::NAN);
-                                whitened_vec[msr_idx] = whitened_resid_val.unwrap_or(f64::NAN);
                                 postfit_vec[msr_idx] = postfit_val.unwrap_or(f64::NAN);
                                 noise_vec[msr_idx] = noise_val.unwrap_or(f64::NAN);
                                 real_obs_vec[msr_idx] = real_val.unwrap_or(f64::NAN);
-- 
2.43.0


From cfd75bf5dfd1c5b01ea345a03dced238c1593620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:10 +0000
Subject: [PATCH 24/72] fix: import the gains exported by index

---
 nyx-core/src/od/process/solution/import.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index 164a3a5..c8d4b9b 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -312,14 +312,19 @@ where
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
             for i in 0..state_size {
-                for f in &measurement_types_found {
-                    // Guessing format - needs robust parsing or metadata
-                    let base_name = format!(
+                // The gains are exported by measurement type only if there are as many as in each measurement
+                let gain_names: Vec<String> = if measurement_types_found.len() == MsrSize::DIM {
+                    measurement_types_found.iter().map(|f| format!(
                         "Gain {}*{f:?} ({}*{})",
                         state_items[i],
                         cov_units[i],
                         f.unit()
-                    );
+                    )).collect()
+                } else {
+                    (0..MsrSize::DIM).map(|j| format!("Gain {}*[{j}]", state_items[i])).collect()
+                };
+                for base_name in gain_names {
+                    // Guessing format - needs robust parsing or metadata
                     let col_name = schema.fields().iter()
                          .find(|f| f.name().starts_with(&base_name))
                          .map(|f| f.name().as_str());
-- 
2.43.0


From a7a786c37cff3701f9d48a64b5948af280e678fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:10 +0000
Subject: [PATCH 25/72] fix: report missing areas when importing an orbit
 determination solution

---
 nyx-core/src/od/process/solution/import.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index c8d4b9b..361c551 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -152,6 +152,13 @@ where
       );
 
 
+      ensure!(
+          srp_area_m2.is_some() && drag_area_m2.is_some(),
+          MissingDataSnafu {
+              which: "SRP and drag areas in metadata"
+          }
+      );
+
         let mut estimates: Vec<KfEstimate<Spacecraft>> = Vec::new();
         let mut residuals: Vec<Option<Residual<MsrSize>>> = Vec::new();
         let mut gains: Vec<Option<OMatrix<f64, <Spacecraft as State>::Size, MsrSize>>> = Vec::new();
-- 
2.43.0


From 0a66a577e6291ebe98ab7ccccaf90b5db09b2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:44 +0000
Subject: [PATCH 26/72] fix: keep merged orbit determination solutions in
 chronological order

---
 .../src/od/process/solution/filter_data.rs    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 25eda53..661419a 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -246,18 +246,14 @@ where
                 .expect("Epoch comparison failed")
         });
 
-        // Apply permutation to both vectors in-place
-        for i in 0..indices.len() {
-            let current = i;
-            while indices[current] != current {
-                let target = indices[current];
-                indices.swap(current, target);
-                self.estimates.swap(current, target);
-                self.residuals.swap(current, target);
-                self.gains.swap(current, target);
-                self.filter_smoother_ratios.swap(current, target);
-            }
-        }
+        // Apply the permutation to all vectors: item i is the one originally at indices[i].
+        self.estimates = indices.iter().map(|&i| self.estimates[i].clone()).collect();
+        self.residuals = indices.iter().map(|&i| self.residuals[i].clone()).collect();
+        self.gains = indices.iter().map(|&i| self.gains[i].clone()).collect();
+        self.filter_smoother_ratios = indices
+            .iter()
+            .map(|&i| self.filter_smoother_ratios[i].clone())
+            .collect();
 
         self
     }
-- 
2.43.0


From ea2e6ce1cc0947aab5a5e72e1a2c61497ecc380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:44 +0000
Subject: [PATCH 27/72] fix: recompute the residual of each smoothed estimate
 from its own measurement

---
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c94d8e2..cd77ef5 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -162,7 +162,7 @@ where
             // Compute the smoothed covariance
             smoothed_est_k.set_covar(p_k_l);
             // Recompute the residual if available.
-            if let Some(mut residual) = self.residuals[k + 1].clone() {
+            if let Some(mut residual) = self.residuals[k].clone() {
                 let tracker = residual
                     .tracker
                     .as_ref()
-- 
2.43.0


From 9452808f5ceafaa00e9bad7b18ba289628c67323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 28/72] fix: smooth a solution of one estimate and report an
 empty one

---
 nyx-core/src/od/process/solution/smooth.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index cd77ef5..577a00f 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -25,6 +25,7 @@ use anise::prelude::Almanac;
 use log::info;
 use msr::sensitivity::TrackerSensitivity;
 use nalgebra::DimMin;
+use snafu::ensure;
 use std::ops::Add;
 
 use super::ODSolution;
@@ -106,6 +107,14 @@ where
         <StateType as State>::Size:
             DimMin<<StateType as State>::Size, Output = <StateType as State>::Size>,
     {
+        ensure!(
+            !self.estimates.is_empty(),
+            TooFewMeasurementsSnafu {
+                need: 1_usize,
+                action: "smoothing"
+            }
+        );
+
         let l = self.estimates.len() - 1;
 
         let mut smoothed = Self {
@@ -127,7 +136,7 @@ where
         smoothed.gains.push(None);
         smoothed.filter_smoother_ratios.push(None);
 
-        loop {
+        while smoothed.estimates.len() < self.estimates.len() {
             let k = l - smoothed.estimates.len();
             // Borrow the previously smoothed estimate of the k+1 estimate
             let sm_est_kp1 = &self.estimates[k + 1];
@@ -212,10 +221,6 @@ where
             smoothed.filter_smoother_ratios.push(Some(fs_ratios));
             // Set all gains to None.
             smoothed.gains.push(None);
-
-            if smoothed.estimates.len() == self.estimates.len() {
-                break;
-            }
         }
 
         // Note that we have yet to reverse the list, so we print them backward
-- 
2.43.0


From 3a4bec0c2abe7db937cb49a0cf6cfa32173288c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 29/72] fix: record the thrust direction of the updated
 guidance mode

---
 nyx-core/src/dynamics/spacecraft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 6bb8f44..06191b8 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -169,6 +169,8 @@ impl Dynamics for SpacecraftDynamics {
 
         if let Some(guid_law) = &self.guid_law {
             let mut state = next_state;
+            // Update the control mode first, so that the recorded direction is the one applied from this state on.
+            guid_law.next(&mut state, almanac);
             // In a single clause, check that the throttle call is OK and its value positive
             // And convert the Result to an Option on the direction to return the option of a vector
             // for the next thrust direction.
@@ -178,8 +180,6 @@ impl Dynamics for SpacecraftDynamics {
             };
 
             state.mut_thrust_direction(thrust_direction);
-            // Update the control mode
-            guid_law.next(&mut state, almanac);
             Ok(state)
         } else {
             let mut state = next_state;
-- 
2.43.0


From 07bf7ace44a2f56c2063cd947f7067daba204d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 30/72] fix: let the Ruggiero law coast in eclipse

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 4dead80..2f6ded0 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -439,10 +439,12 @@ impl GuidanceLaw for Ruggiero {
                     } else {
                         sc.mode = GuidanceMode::Thrust;
                     }
-                } else if sc.mode() == GuidanceMode::Coast {
-                    debug!("enabling steering: {:x}", sc.orbit);
+                } else {
+                    if sc.mode() == GuidanceMode::Coast {
+                        debug!("enabling steering: {:x}", sc.orbit);
+                    }
+                    sc.mut_mode(GuidanceMode::Thrust);
                 }
-                sc.mut_mode(GuidanceMode::Thrust);
             } else {
                 if sc.mode() == GuidanceMode::Thrust {
                     debug!("disabling steering: {:x}", sc.orbit);
-- 
2.43.0


From 38ee2211e2291141ef58beb7916cd65e28218c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 31/72] fix: report a state after the end of the spacecraft
 sequence

---
 nyx-core/src/dynamics/sequence/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index dbc2a26..6aef1ba 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -284,7 +284,12 @@ impl SpacecraftSequence {
                 }
             }
         }
-        unreachable!("spacecraft plan never finished?!")
+        Err(NyxError::GenericError {
+            msg: format!(
+                "no phase of the sequence starts at or after {}",
+                state.epoch()
+            ),
+        })
     }
 }
 
-- 
2.43.0


From 34d2caba9b50a05968601b6dc75f9e9bdb931272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 32/72] fix: report a spacecraft sequence which is not set up

---
 nyx-core/src/dynamics/sequence/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 6aef1ba..61fabf1 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -234,10 +234,16 @@ impl SpacecraftSequence {
                             .expect("validate did not catch missing terminate")
                             .0;
 
+                        let prop_setup = self.prop_setups.get(propagator).ok_or_else(|| {
+                            NyxError::GenericError {
+                                msg: format!("propagator `{propagator}` is not set up"),
+                            }
+                        })?;
+
                         // Include the guidance if any is available
                         let (next_state, mut phase_traj) = if let Some(guid_cfg) = guidance {
                             // Clone the propagator to add the dynamics
-                            let mut setup = self.prop_setups[propagator].clone();
+                            let mut setup = prop_setup.clone();
                             setup.dynamics.decrement_mass = !guid_cfg.disable_prop_mass;
                             state.thruster = Some(self.thruster_sets[&guid_cfg.thruster_model]);
                             match &guid_cfg.law {
@@ -271,7 +277,7 @@ impl SpacecraftSequence {
                                 .until_epoch_with_traj(*end_time)
                                 .context(FromPropSnafu)?
                         } else {
-                            self.prop_setups[propagator]
+                            prop_setup
                                 .with(state, almanac.clone())
                                 .until_epoch_with_traj(*end_time)
                                 .context(FromPropSnafu)?
-- 
2.43.0


From 191d7f76c4c218a5384d533127204029627ddc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:30 +0000
Subject: [PATCH 33/72] fix: apply impulsive maneuvers of a sequence in their
 local frame

---
 nyx-core/src/dynamics/guidance/mnvr.rs | 15 +++++++++++++++
 nyx-core/src/dynamics/sequence/mod.rs  |  6 ++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/mnvr.rs b/nyx-core/src/dynamics/guidance/mnvr.rs
index a9b13fd..ae0c82d 100644
--- a/nyx-core/src/dynamics/guidance/mnvr.rs
+++ b/nyx-core/src/dynamics/guidance/mnvr.rs
@@ -19,6 +19,7 @@
 use super::{
     GuidanceError, GuidanceLaw, GuidancePhysicsSnafu, LocalFrame, ra_dec_from_unit_vector,
 };
+use crate::NyxError;
 use crate::State;
 use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::unit_vector_from_ra_dec;
@@ -41,6 +42,20 @@ pub struct ImpulsiveManeuver {
     pub dv_km_s: Vector3<f64>,
 }
 
+impl ImpulsiveManeuver {
+    /// Applies this maneuver to the provided spacecraft, converting it from its local frame.
+    pub fn apply(&self, sc: Spacecraft) -> Result<Spacecraft, NyxError> {
+        let dcm =
+            sc.orbit
+                .dcm_to_inertial(self.local_frame)
+                .map_err(|e| NyxError::GenericError {
+                    msg: format!("converting {self} to inertial: {e}"),
+                })?;
+
+        Ok(sc.with_orbit(sc.orbit.with_dv_km_s(dcm * self.dv_km_s)))
+    }
+}
+
 impl fmt::Display for ImpulsiveManeuver {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "{:.3} m/s in {:?}", self.dv_km_s * 1e3, self.local_frame)
diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 61fabf1..9b3e900 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -182,8 +182,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = mnvr.apply(state)?;
                                     }
                                     if let Some(decr) = decrement_properties {
                                         if let Some(mass) = decr.mass {
@@ -207,8 +206,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = mnvr.apply(state)?;
                                     }
                                     if let Some(incr) = increment_properties {
                                         if let Some(mass) = incr.mass {
-- 
2.43.0


From d8578320fe7900078e5d89dc676e21f67e6c2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:34 +0000
Subject: [PATCH 34/72] fix: honor the bounds of an offset filter of a tracking
 arc

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 6878e9e..980a443 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -396,17 +396,15 @@ impl TrackingDataArc {
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.start_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
+        let first = self.start_epoch().unwrap();
+        let to_epoch = |bound: Bound<&Duration>| match bound {
+            Included(offset) => Included(first + *offset),
+            Excluded(offset) => Excluded(first + *offset),
+            Unbounded => Unbounded,
         };
+        let epochs = (to_epoch(bound.start_bound()), to_epoch(bound.end_bound()));
 
-        let end = match bound.end_bound() {
-            Unbounded => self.end_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
-
-        self.filter_by_epoch(start..end)
+        self.filter_by_epoch(epochs)
     }
 
     /// Returns a new tracking arc that only contains measurements from the desired tracker.
-- 
2.43.0


From cd084c0840885b343b55e2e029d325f1a74602c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:34 +0000
Subject: [PATCH 35/72] fix: honor an excluded bound of an offset filter of a
 trajectory

---
 nyx-core/src/md/trajectory/traj.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e3f9fbb..e4ddc94 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -179,17 +179,15 @@ where
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.states.first().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
+        let first = self.states.first().unwrap().epoch();
+        let to_epoch = |bound: ops::Bound<&Duration>| match bound {
+            Included(offset) => Included(first + *offset),
+            Excluded(offset) => Excluded(first + *offset),
+            Unbounded => Unbounded,
         };
+        let epochs = (to_epoch(bound.start_bound()), to_epoch(bound.end_bound()));
 
-        let end = match bound.end_bound() {
-            Unbounded => self.states.last().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
-
-        self.filter_by_epoch(start..=end)
+        self.filter_by_epoch(epochs)
     }
     /// Store this trajectory arc to a parquet file with the default configuration (depends on the state type, search for `export_params` in the documentation for details).
     pub fn to_parquet_simple<P: AsRef<Path>>(&self, path: P) -> Result<PathBuf, Box<dyn Error>> {
-- 
2.43.0


From ead37b81f46dc15ccf7c6e5927d078ae0329b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:34 +0000
Subject: [PATCH 36/72] fix: drop the measurements emptied by an excluded
 measurement type

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 980a443..29ed58a 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -465,14 +465,10 @@ impl TrackingDataArc {
 
     /// Returns a new tracking arc that contains measurements from all trackers except the one provided
     pub fn exclude_measurement_type(mut self, excluded_type: MeasurementType) -> Self {
-        self.measurements = self
-            .measurements
-            .iter_mut()
-            .map(|msr| {
-                msr.data.retain(|msr_type, _| *msr_type != excluded_type);
-                msr.clone()
-            })
-            .collect::<Vec<Measurement>>();
+        self.measurements.retain_mut(|msr| {
+            msr.data.retain(|msr_type, _| *msr_type != excluded_type);
+            !msr.data.is_empty()
+        });
         self
     }
 
-- 
2.43.0


From fa3abe826cef7f9f619bb9bc6f37e610e39be644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:34 +0000
Subject: [PATCH 37/72] fix: keep the last of conflicting measurements whatever
 the size of the arc

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 29ed58a..caf43ae 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -86,9 +86,10 @@ pub struct TrackingDataArc {
 
 #[cfg_attr(feature = "python", pymethods)]
 impl TrackingDataArc {
-    /// Sort these measurements by epoch
+    /// Sort these measurements by epoch and tracker, and merge those of the same epoch and tracker.
+    /// If these define the same measurement type, then the value of the last one is kept.
     pub fn sort(&mut self) {
-        self.measurements.sort_unstable_by(|a, b| {
+        self.measurements.sort_by(|a, b| {
             a.epoch
                 .cmp(&b.epoch)
                 .then_with(|| a.tracker.cmp(&b.tracker))
-- 
2.43.0


From 4f0c5e9a4c66764458605b55fadf5467dbec4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:35 +0000
Subject: [PATCH 38/72] fix: keep the moduli of both merged tracking arcs

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index caf43ae..f3d8cdc 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -547,6 +547,14 @@ impl Add for TrackingDataArc {
         self.measurements.extend(rhs.measurements);
         self.sort();
 
+        // Keep the moduli of both arcs, otherwise the ambiguous data of the right hand side could not be resolved.
+        if let Some(moduli) = rhs.moduli {
+            let merged = self.moduli.get_or_insert_with(IndexMap::new);
+            for (msr_type, modulus) in moduli {
+                merged.entry(msr_type).or_insert(modulus);
+            }
+        }
+
         self.force_reject = false;
         self
     }
-- 
2.43.0


From f833be1077ac4fd1c64bc1d4f8d29e7871a04be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:35 +0000
Subject: [PATCH 39/72] fix: compare all of the measurement types of two
 measurements

---
 nyx-core/src/od/msr/measurement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nyx-core/src/od/msr/measurement.rs b/nyx-core/src/od/msr/measurement.rs
index 0e824b8..77d1a45 100644
--- a/nyx-core/src/od/msr/measurement.rs
+++ b/nyx-core/src/od/msr/measurement.rs
@@ -124,6 +124,7 @@ impl PartialEq for Measurement {
     fn eq(&self, other: &Self) -> bool {
         self.tracker == other.tracker
             && self.epoch == other.epoch
+            && self.data.len() == other.data.len()
             && self.data.iter().all(|(key, &value)| {
                 if let Some(&other_value) = other.data.get(key) {
                     (value - other_value).abs() < 1e-10
-- 
2.43.0


From f047074927d6daaf17405fadf34509d35d33671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:29 +0000
Subject: [PATCH 40/72] fix: downsample each tracker on its own without its
 rejected data

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 95 ++++++++++++++-----------
 1 file changed, 52 insertions(+), 43 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index f3d8cdc..7e07312 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -219,59 +219,68 @@ impl TrackingDataArc {
         if self.is_empty() {
             return self.clone();
         }
-        let current_step = self.min_duration_sep().unwrap();
-
-        if current_step >= target_step {
-            warn!(
-                "cannot downsample tracking data from {current_step} to {target_step} (that would be upsampling)"
-            );
-            return self.clone();
-        }
-
-        let current_hz = 1.0 / current_step.to_seconds();
-        let target_hz = 1.0 / target_step.to_seconds();
-
-        // Simple moving average as low-pass filter
-        let window_size = (current_hz / target_hz).round() as usize;
-
-        info!(
-            "downsampling tracking data from {current_step} ({current_hz:.6} Hz) to {target_step} ({target_hz:.6} Hz) (N = {window_size})"
-        );
-
         let mut result = TrackingDataArc {
+            measurements: Vec::new(),
             source: self.source.clone(),
-            ..Default::default()
+            moduli: self.moduli.clone(),
+            force_reject: self.force_reject,
         };
 
-        let measurements: Vec<_> = self.measurements.iter().collect();
+        // Each tracker is filtered on its own: the observations of different trackers cannot be averaged.
+        for tracker in self.unique_aliases() {
+            let trk_arc = self.clone().filter_by_tracker(tracker);
+            let current_step = trk_arc.min_duration_sep().unwrap();
+
+            if current_step >= target_step {
+                warn!(
+                    "cannot downsample tracking data from {current_step} to {target_step} (that would be upsampling)"
+                );
+                result.measurements.extend(trk_arc.measurements);
+                continue;
+            }
 
-        for (i, msr) in measurements.iter().enumerate().step_by(window_size) {
-            let epoch = msr.epoch;
-            let start = i.saturating_sub(window_size / 2);
-            let end = (i + window_size / 2 + 1).min(measurements.len());
-            let window = &measurements[start..end];
+            let current_hz = 1.0 / current_step.to_seconds();
+            let target_hz = 1.0 / target_step.to_seconds();
 
-            let mut filtered_measurement = Measurement {
-                tracker: window[0].tracker.clone(),
-                epoch,
-                data: IndexMap::new(),
-                rejected: false,
-            };
+            // Simple moving average as low-pass filter
+            let window_size = (current_hz / target_hz).round() as usize;
 
-            // Apply moving average filter for each measurement type
-            for mtype in self.unique_types() {
-                let sum: f64 = window.iter().filter_map(|m| m.data.get(&mtype)).sum();
-                let count = window
-                    .iter()
-                    .filter(|m| m.data.contains_key(&mtype))
-                    .count();
+            info!(
+                "downsampling tracking data from {current_step} ({current_hz:.6} Hz) to {target_step} ({target_hz:.6} Hz) (N = {window_size})"
+            );
 
-                if count > 0 {
-                    filtered_measurement.data.insert(mtype, sum / count as f64);
+            let measurements = &trk_arc.measurements;
+
+            for (i, msr) in measurements.iter().enumerate().step_by(window_size) {
+                let start = i.saturating_sub(window_size / 2);
+                let end = (i + window_size / 2 + 1).min(measurements.len());
+                let window = &measurements[start..end];
+                // Do not let a rejected measurement into the average, unless there are no others.
+                let rejected = window.iter().all(|m| m.rejected);
+
+                let mut filtered_measurement = Measurement {
+                    tracker: msr.tracker.clone(),
+                    epoch: msr.epoch,
+                    data: IndexMap::new(),
+                    rejected,
+                };
+
+                // Apply moving average filter for each measurement type
+                for mtype in trk_arc.unique_types() {
+                    let values = window
+                        .iter()
+                        .filter(|m| m.rejected == rejected)
+                        .filter_map(|m| m.data.get(&mtype));
+                    let count = values.clone().count();
+
+                    if count > 0 {
+                        let sum: f64 = values.sum();
+                        filtered_measurement.data.insert(mtype, sum / count as f64);
+                    }
                 }
-            }
 
-            result.measurements.push(filtered_measurement);
+                result.measurements.push(filtered_measurement);
+            }
         }
         result.sort();
         result
-- 
2.43.0


From 50e5a607a5863f4a634139541cdbbd11819fde43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:55 +0000
Subject: [PATCH 41/72] fix: do not compound the state transition matrix of the
 batch estimator

---
 nyx-core/src/od/blse/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index d4fd773..6fbe544 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -216,10 +216,8 @@ where
                     let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                     epoch = this_state.epoch();
 
-                    // Grab the STM Phi(t_{i+1}, t_i) from the propagated state's STM.
-                    let step_stm = this_state.stm().expect("STM unavailable");
-                    // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
-                    stm = step_stm * stm;
+                    // Grab the STM Phi(t_{i+1}, t_0): it is never reset in this iteration.
+                    stm = this_state.stm().expect("STM unavailable");
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
-- 
2.43.0


From b3a2dbc13f1ef751bc677686d6b2f5a2f317db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:03 +0000
Subject: [PATCH 42/72] fix: use simultaneous and initial measurements in the
 batch estimator

---
 nyx-core/src/od/blse/mod.rs | 199 ++++++++++++++++++------------------
 1 file changed, 102 insertions(+), 97 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 6fbe544..5e80344 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -218,81 +218,84 @@ where
 
                     // Grab the STM Phi(t_{i+1}, t_0): it is never reset in this iteration.
                     stm = this_state.stm().expect("STM unavailable");
+                }
 
-                    if (epoch - msr_epoch).abs() < self.epoch_precision {
-                        // Get the correct tracking device
-                        let device = match devices.get_mut(&msr.tracker) {
-                            Some(d) => d,
-                            None => {
-                                if !unknown_trackers.contains(&msr.tracker) {
-                                    error!(
-                                        "Tracker {} is not in the list of configured devices",
-                                        msr.tracker
-                                    );
-                                }
-                                unknown_trackers.insert(msr.tracker.clone());
-                                continue;
+                // The state at the epoch of this measurement, which may also be the initial epoch or that of the previous measurement.
+                let this_state = prop_inst.state;
+
+                if (epoch - msr_epoch).abs() < self.epoch_precision {
+                    // Get the correct tracking device
+                    let device = match devices.get_mut(&msr.tracker) {
+                        Some(d) => d,
+                        None => {
+                            if !unknown_trackers.contains(&msr.tracker) {
+                                error!(
+                                    "Tracker {} is not in the list of configured devices",
+                                    msr.tracker
+                                );
                             }
-                        };
+                            unknown_trackers.insert(msr.tracker.clone());
+                            continue;
+                        }
+                    };
 
-                        for msr_type in msr.data.keys().copied() {
-                            let mut msr_types = IndexSet::new();
-                            msr_types.insert(msr_type);
+                    for msr_type in msr.data.keys().copied() {
+                        let mut msr_types = IndexSet::new();
+                        msr_types.insert(msr_type);
 
-                            let h_tilde = device
-                            .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
+                        let h_tilde = device
+                        .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
 
-                            // Compute expected measurement H(X(t_i))
-                            let computed_meas_opt = device
-                                .measure_instantaneous(this_state, None, &self.almanac)?;
+                        // Compute expected measurement H(X(t_i))
+                        let computed_meas_opt = device
+                            .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                            let computed_meas = match computed_meas_opt {
-                                Some(cm) => cm,
-                                None => {
-                                    debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
-                                    continue;
-                                }
-                            };
+                        let computed_meas = match computed_meas_opt {
+                            Some(cm) => cm,
+                            None => {
+                                debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
+                                continue;
+                            }
+                        };
 
-                            // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        // Get the computed observation value
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
 
-                            // Get real observation y_i
-                            let real_obs = msr.observation::<U1>(&msr_types)[0];
+                        // Get real observation y_i
+                        let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                            // Sanity check measurement value
-                            ensure!(
-                                real_obs.is_finite(),
-                                InvalidMeasurementSnafu {
-                                    epoch: msr_epoch,
-                                    val: real_obs
-                                }
-                            );
+                        // Sanity check measurement value
+                        ensure!(
+                            real_obs.is_finite(),
+                            InvalidMeasurementSnafu {
+                                epoch: msr_epoch,
+                                val: real_obs
+                            }
+                        );
 
-                            // Compute residual dy = y_i - H(X(t_i))
-                            let residual = real_obs - computed_obs;
+                        // Compute residual dy = y_i - H(X(t_i))
+                        let residual = real_obs - computed_obs;
 
-                            // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
-                            let r_matrix = device
-                                .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                            let r_variance = r_matrix[(0, 0)];
+                        // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
+                        let r_matrix = device
+                            .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                        let r_variance = r_matrix[(0, 0)];
 
-                            ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                            let weight = 1.0 / r_variance;
+                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                        let weight = 1.0 / r_variance;
 
-                            // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
-                            let h_matrix = h_tilde * stm;
+                        // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
+                        let h_matrix = h_tilde * stm;
 
-                            // Accumulate Information Matrix: info_matrix += H^T * W * H
-                            // Recall that the weight is a scalar, so we can move it to the end of the operation.
-                            info_matrix += h_matrix.transpose() * &h_matrix * weight;
+                        // Accumulate Information Matrix: info_matrix += H^T * W * H
+                        // Recall that the weight is a scalar, so we can move it to the end of the operation.
+                        info_matrix += h_matrix.transpose() * &h_matrix * weight;
 
-                            // Accumulate Normal Matrix: normal_matrix += H^T * W * y
-                            normal_matrix += h_matrix.transpose() * residual * weight;
+                        // Accumulate Normal Matrix: normal_matrix += H^T * W * y
+                        normal_matrix += h_matrix.transpose() * residual * weight;
 
-                            // Accumulate sum of squares of weighted residuals
-                            sum_sq_weighted_residuals += weight * residual * residual;
-                        }
+                        // Accumulate sum of squares of weighted residuals
+                        sum_sq_weighted_residuals += weight * residual * residual;
                     }
                 }
             }
@@ -483,54 +486,56 @@ where
                 let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
                 let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                 epoch = this_state.epoch();
+            }
 
-                if (epoch - msr_epoch).abs() < self.epoch_precision {
-                    let device = match devices.get_mut(&msr.tracker) {
-                        Some(d) => d,
-                        None => {
-                            if !unknown_trackers.contains(&msr.tracker) {
-                                error!(
-                                    "Tracker {} is not in the list of configured devices",
-                                    msr.tracker
-                                );
-                            }
-                            unknown_trackers.insert(msr.tracker.clone());
-                            continue;
+            let this_state = prop_inst.state;
+
+            if (epoch - msr_epoch).abs() < self.epoch_precision {
+                let device = match devices.get_mut(&msr.tracker) {
+                    Some(d) => d,
+                    None => {
+                        if !unknown_trackers.contains(&msr.tracker) {
+                            error!(
+                                "Tracker {} is not in the list of configured devices",
+                                msr.tracker
+                            );
                         }
-                    };
+                        unknown_trackers.insert(msr.tracker.clone());
+                        continue;
+                    }
+                };
 
-                    for msr_type in msr.data.keys().copied() {
-                        let mut msr_types = IndexSet::new();
-                        msr_types.insert(msr_type);
+                for msr_type in msr.data.keys().copied() {
+                    let mut msr_types = IndexSet::new();
+                    msr_types.insert(msr_type);
 
-                        let computed_meas_opt = device
-                            .measure_instantaneous(this_state, None, &self.almanac)?;
+                    let computed_meas_opt = device
+                        .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                        let computed_meas = match computed_meas_opt {
-                            Some(cm) => cm,
-                            None => continue,
-                        };
+                    let computed_meas = match computed_meas_opt {
+                        Some(cm) => cm,
+                        None => continue,
+                    };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
-                        let real_obs = msr.observation::<U1>(&msr_types)[0];
+                    let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                    let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                        ensure!(
-                            real_obs.is_finite(),
-                            InvalidMeasurementSnafu {
-                                epoch: msr_epoch,
-                                val: real_obs
-                            }
-                        );
+                    ensure!(
+                        real_obs.is_finite(),
+                        InvalidMeasurementSnafu {
+                            epoch: msr_epoch,
+                            val: real_obs
+                        }
+                    );
 
-                        let residual = real_obs - computed_obs;
-                        let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                        let r_variance = r_matrix[(0, 0)];
+                    let residual = real_obs - computed_obs;
+                    let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                    let r_variance = r_matrix[(0, 0)];
 
-                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                        let weight = 1.0 / r_variance;
+                    ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                    let weight = 1.0 / r_variance;
 
-                        sum_sq_weighted_residuals += weight * residual * residual;
-                    }
+                    sum_sq_weighted_residuals += weight * residual * residual;
                 }
             }
         }
-- 
2.43.0


From 24d71b22e9dd55a0dd146db6596ac0d353fc3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:33 +0000
Subject: [PATCH 43/72] fix: undo the steps rejected by the Levenberg-Marquardt
 batch estimator

---
 nyx-core/src/od/blse/mod.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 5e80344..bcb4409 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -173,6 +173,9 @@ where
         let mut lambda = self.lm_lambda_init;
         let mut current_rms = f64::MAX;
         let mut iter: usize = 0;
+        // Levenberg-Marquardt only: estimate before the latest correction, and whether that correction was undone.
+        let mut prev_estimate = initial_guess;
+        let mut undone = false;
 
         let mut unknown_trackers = IndexSet::new();
 
@@ -347,13 +350,16 @@ where
                         // --- LM Lambda Update Logic ---
                         // Simple strategy: Check if RMS decreased. More robust methods exist.
                         // For a simple check, we compare current_iter_rms with the previous iteration's RMS.
-                        if current_iter_rms < current_rms || iter == 0 {
+                        if current_iter_rms < current_rms || undone {
                             // Cost (approximated by RMS) decreased or first iteration
                             iteration_cost_decreased = true;
-                            // Decrease damping
-                            lambda /= self.lm_lambda_decrease;
-                            // Clamp to min
-                            lambda = lambda.max(self.lm_lambda_min);
+                            if !undone {
+                                // Decrease damping
+                                lambda /= self.lm_lambda_decrease;
+                                // Clamp to min
+                                lambda = lambda.max(self.lm_lambda_min);
+                            }
+                            undone = false;
                             debug!("LM: Cost decreased (RMS {current_rms} -> {current_iter_rms}). Decreasing lambda to {lambda}");
                             current_rms = current_iter_rms;
                         } else {
@@ -364,7 +370,9 @@ where
                              // Clamp to max
                              lambda = lambda.min(self.lm_lambda_max);
                              debug!("LM: Cost increased/stalled (RMS {current_rms} -> {current_iter_rms}). Increasing lambda to {lambda}");
-                             // Don't update current_rms baseline if cost increased
+                             // Don't update current_rms baseline if cost increased, and undo the correction which increased it.
+                             current_estimate = prev_estimate;
+                             undone = true;
                         }
 
                     } else {
@@ -383,6 +391,7 @@ where
             // Only update if the step is considered successful (esp. for LM)
             // Also hit if using normal equations because iteration_cost_decreased is forced to true
             if iteration_cost_decreased {
+                prev_estimate = current_estimate;
                 current_estimate = current_estimate + state_correction;
                 corr_pos_km = state_correction.fixed_rows::<3>(0).norm();
 
@@ -433,6 +442,14 @@ where
 
         if !converged {
             warn!("Not converged after {} iterations.", self.max_iterations);
+            // The cost of the last correction is not known yet.
+            if self.solver == BLSSolver::LevenbergMarquardt
+                && !self
+                    .evaluate(current_estimate, arc)
+                    .is_ok_and(|rms| rms <= current_rms)
+            {
+                current_estimate = prev_estimate;
+            }
         }
 
         info!("Batch Least Squares estimation completed.");
-- 
2.43.0


From b78f0daaa90cafe273df2e919e8881e44e430ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:34 +0000
Subject: [PATCH 44/72] fix: report the failures of the targeter's perturbed
 runs

The finite differences are computed in parallel, where a failing
propagation, frame transformation or thrust direction caused a panic.
---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 32 +++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 08af3b7..abb56b2 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -328,7 +328,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     .map(|(j, var)| (j, var, 0.0_f64))
                     .collect();
 
-                pert_calc.par_iter_mut().for_each(|(_, var, jac_val)| {
+                pert_calc.par_iter_mut().try_for_each(|(_, var, jac_val)| {
                     let mut this_xi = xi;
 
                     let mut this_prop = self.prop.clone();
@@ -388,7 +388,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                     vector[var.component.vec_index()] -= 2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_direction(vector).unwrap();
+                                this_mnvr.set_direction(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustRateX | Vary::ThrustRateY | Vary::ThrustRateZ => {
                                 let mut vector = this_mnvr.rate();
@@ -402,7 +402,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                         2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_rate(vector).unwrap();
+                                this_mnvr.set_rate(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustAccelX | Vary::ThrustAccelY | Vary::ThrustAccelZ => {
                                 let mut vector = this_mnvr.accel();
@@ -416,7 +416,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                         2.0 * var.perturbation;
                                     opposed_pert = true;
                                 }
-                                this_mnvr.set_accel(vector).unwrap();
+                                this_mnvr.set_accel(vector).context(GuidanceSnafu)?;
                             }
                             Vary::ThrustLevel => {
                                 this_mnvr.thrust_prct += var.perturbation;
@@ -434,8 +434,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
-                                .context(AstroSnafu)
-                                .unwrap()
+                                .context(AstroSnafu)?
                                 .rot_mat;
 
                             let velocity_correction =
@@ -451,7 +450,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         let pre_mnvr = this_prop
                             .with(cur_xi, almanac.clone())
                             .until_epoch(this_mnvr.start)
-                            .unwrap();
+                            .context(PropSnafu)?;
                         // Add this maneuver to the dynamics, make sure that we don't over-step this maneuver
                         let prop_opts = this_prop.opts;
                         this_prop.set_max_step(this_mnvr.duration());
@@ -463,20 +462,20 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                                 almanac.clone(),
                             )
                             .until_epoch(this_mnvr.end)
-                            .unwrap();
+                            .context(PropSnafu)?;
                         // Reset the propagator options to their previous configuration
                         this_prop.opts = prop_opts;
                         // And propagate until the achievement epoch
                         this_prop
                             .with(post_mnvr, almanac.clone())
                             .until_epoch(achievement_epoch)
-                            .unwrap()
+                            .context(PropSnafu)?
                             .orbit
                     } else {
                         this_prop
                             .with(this_xi, almanac.clone())
                             .until_epoch(achievement_epoch)
-                            .unwrap()
+                            .context(PropSnafu)?
                             .orbit
                     };
 
@@ -485,8 +484,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                             let orbit_obj_frame = almanac
                                 .transform_to(this_xf, *frame, None)
                                 .context(AstroAlmanacSnafu)
-                                .context(AstroSnafu)
-                                .unwrap();
+                                .context(AstroSnafu)?;
 
                             OrbitGrad::from(orbit_obj_frame)
                         }
@@ -494,7 +492,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     };
 
                     let b_plane = if is_bplane_tgt {
-                        Some(BPlane::from_dual(xf_dual_obj_frame).unwrap())
+                        Some(BPlane::from_dual(xf_dual_obj_frame).context(AstroSnafu)?)
                     } else {
                         None
                     };
@@ -507,7 +505,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                             _ => unreachable!(),
                         }
                     } else if let StateParameter::Element(oe) = obj.parameter {
-                        xf_dual_obj_frame.partial_for(oe).unwrap()
+                        xf_dual_obj_frame
+                            .partial_for(oe)
+                            .context(AstroPhysicsSnafu)
+                            .context(AstroSnafu)?
                     } else {
                         unreachable!()
                     };
@@ -518,7 +519,8 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // We opposed the perturbation to ensure we don't over step a min/max bound
                         *jac_val = -*jac_val;
                     }
-                });
+                    Ok::<(), TargetingError>(())
+                })?;
 
                 for (j, var, jac_val) in &pert_calc {
                     // If this is a thrust level, we oppose the value so that the correction can still be positive.
-- 
2.43.0


From d42029d4dd52735333fadd7026552d2d807dd58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:04 +0000
Subject: [PATCH 45/72] fix: apply the corrections of the targeter in one local
 frame

The iterations used the local frame of the state corrected so far, but the
corrected state of the solution used that of the state before correction:
the solution did not achieve the objectives.
---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index abb56b2..ee48a30 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -180,7 +180,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         // Apply the accumulated initial guess to xi (once, after the loop)
         if !finite_burn_target {
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
@@ -430,7 +430,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // Now, let's apply the correction to the initial state
                         if let Some(frame) = self.correction_frame {
                             // The following will error if the frame is not local
-                            let dcm_vnc2inertial = this_xi
+                            let dcm_vnc2inertial = xi_start
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
@@ -547,7 +547,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                 }
                 // Now, let's apply the correction to the initial state
                 if let Some(frame) = self.correction_frame {
-                    let dcm_vnc2inertial = corrected_state
+                    let dcm_vnc2inertial = xi_start
                         .orbit
                         .dcm_to_inertial(frame)
                         .context(AstroPhysicsSnafu)
@@ -723,7 +723,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
             // Now, let's apply the correction to the initial state
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
-- 
2.43.0


From d9f08c4999aa0aef3771839203987eb03e3a79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:53 +0000
Subject: [PATCH 46/72] fix: bound the whole correction of the targeter

The bounds of a variable are the extreme values it may ever have, but they
bounded the step of each iteration instead of the total correction.
---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 7 +++----
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 6 ++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index ee48a30..a263f5a 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -712,11 +712,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     // Choose the minimum step between the provided max step and the correction.
                     if delta[i].abs() > var.max_step.abs() {
                         delta[i] = var.max_step.abs() * delta[i].signum();
-                    } else if delta[i] > var.max_value {
-                        delta[i] = var.max_value;
-                    } else if delta[i] < var.min_value {
-                        delta[i] = var.min_value;
                     }
+                    // And keep the total correction within the bounds.
+                    delta[i] =
+                        var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
                     state_correction[var.component.vec_index()] += delta[i];
                 }
             }
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 8705161..69dcd67 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -300,11 +300,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                 // Choose the minimum step between the provided max step and the correction.
                 if delta[i].abs() > var.max_step {
                     delta[i] = var.max_step * delta[i].signum();
-                } else if delta[i] > var.max_value {
-                    delta[i] = var.max_value;
-                } else if delta[i] < var.min_value {
-                    delta[i] = var.min_value;
                 }
+                // And keep the total correction within the bounds.
+                delta[i] = var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
 
                 info!(
                     "Correction {:?} (element {}): {}",
-- 
2.43.0


From 0b3e06ec076d122b347b300f618cd5b76fae1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:53 +0000
Subject: [PATCH 47/72] fix: verify the targeter solutions in their objective
 frame

---
 nyx-core/src/md/opti/targeter.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 437738d..a129381 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -18,7 +18,7 @@
 
 use snafu::ResultExt;
 
-use crate::cosmic::AstroPhysicsSnafu;
+use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::dynamics::guidance::LocalFrame;
 use crate::errors::TargetingError;
 use crate::md::AstroSnafu;
@@ -275,7 +275,7 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 println!("{mnvr}");
                 let mut prop = self.prop.clone();
                 prop.dynamics = prop.dynamics.with_guidance_law(Arc::new(mnvr));
-                prop.with(solution.corrected_state, almanac)
+                prop.with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
@@ -283,14 +283,22 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 // This isn't a finite burn maneuver, let's just apply the correction
                 // Propagate until achievement epoch
                 self.prop
-                    .with(solution.corrected_state, almanac)
+                    .with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
         };
 
-        // Build the partials
-        let xf_dual = OrbitGrad::from(xf.orbit);
+        // Build the partials, in the objective frame if there is one
+        let xf_dual = match &self.objective_frame {
+            Some(frame) => OrbitGrad::from(
+                almanac
+                    .transform_to(xf.orbit, *frame, None)
+                    .context(AstroAlmanacSnafu)
+                    .context(AstroSnafu)?,
+            ),
+            None => OrbitGrad::from(xf.orbit),
+        };
 
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
-- 
2.43.0


From e7e00be547d240094c7e25bd3cafd73e2a3d5fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:19 +0000
Subject: [PATCH 48/72] fix: refuse the variables and frames the hyperdual
 targeter cannot use

It applied the corrections of a local frame in the inertial frame and did
not check the configuration of the variables.
---
 nyx-core/src/md/opti/raphson_hyperdual.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 69dcd67..0c55155 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -43,6 +43,11 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
     ) -> Result<TargeterSolution<V, O>, TargetingError> {
         ensure!(!self.objectives.is_empty(), UnderdeterminedProblemSnafu);
 
+        if let Some(frame) = self.correction_frame {
+            let msg = format!("corrections in the {frame:?} frame require finite differencing");
+            return Err(TargetingError::FrameError { msg });
+        }
+
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
             if obj.parameter.is_b_plane() {
@@ -69,6 +74,8 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
         // Apply the initial guess
         for (i, var) in self.variables.iter().enumerate() {
+            // Check the validity (this function will report to log and raise an error)
+            var.valid()?;
             match var.component {
                 Vary::PositionX => {
                     xi.orbit.radius_km.x += var.init_guess;
-- 
2.43.0


From 604807402c03d6ab24cad10eba2fa2bceddf2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:38 +0000
Subject: [PATCH 49/72] fix: report the objectives that the targeter does not
 support

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 4 +++-
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index a263f5a..5bd76d1 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -302,7 +302,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         .context(AstroPhysicsSnafu)
                         .context(AstroSnafu)?
                 } else {
-                    unreachable!()
+                    return Err(TargetingError::UnsupportedVariable {
+                        var: format!("objective {obj}"),
+                    });
                 };
 
                 let achieved = partial.real();
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 0c55155..60759a1 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -193,7 +193,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         .context(AstroPhysicsSnafu)
                         .context(AstroSnafu)?
                 } else {
-                    unreachable!()
+                    return Err(TargetingError::UnsupportedVariable {
+                        var: format!("objective {obj}"),
+                    });
                 };
 
                 let achieved = xf_partial.real();
-- 
2.43.0


From 4f674b6bba007c468a5f523aec232afc1a01ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:20 +0000
Subject: [PATCH 50/72] fix: do not halve the angles of two-way TDM segments

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9582584..e225b84 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -174,8 +174,11 @@ impl TrackingDataArc {
                 {
                     has_freq_data = true;
                     1.0
-                } else {
+                } else if mtype.may_be_two_way() {
                     msr_divider
+                } else {
+                    // Angles do not depend on the path.
+                    1.0
                 };
 
                 let scaled_value = value / effective_divider;
-- 
2.43.0


From 56f284a6b5da5bc282b01f420f27e9ceec882843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:14 +0000
Subject: [PATCH 51/72] fix: apply the corrections of a TDM segment to its own
 data only

---
 .../src/od/msr/trackingdata/io_ccsds_tdm.rs   | 50 ++++++++++++-------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index e225b84..1ece27c 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -96,6 +96,9 @@ impl TrackingDataArc {
 
         let mut measurements = Vec::new();
         let mut metadata = HashMap::new();
+        // Metadata of each segment, and the segment of each measurement.
+        let mut segments: Vec<HashMap<String, String>> = vec![HashMap::new()];
+        let mut msr_segments = Vec::new();
 
         let reader = BufReader::new(file);
 
@@ -111,7 +114,9 @@ impl TrackingDataArc {
             })?;
             let line = line.trim();
 
-            if line == "DATA_START" {
+            if line == "META_START" {
+                segments.push(HashMap::new());
+            } else if line == "DATA_START" {
                 in_data_section = true;
                 continue;
             } else if line == "DATA_STOP" {
@@ -155,7 +160,12 @@ impl TrackingDataArc {
                 if let Some(keyword) = splt.nth(0) {
                     // Get the zeroth item again since we've consumed the first zeroth one.
                     if let Some(value) = splt.nth(0) {
-                        metadata.insert(keyword.trim().to_string(), value.trim().to_string());
+                        let (keyword, value) =
+                            (keyword.trim().to_string(), value.trim().to_string());
+                        if let Some(segment) = segments.last_mut() {
+                            segment.insert(keyword.clone(), value.clone());
+                        }
+                        metadata.insert(keyword, value);
                     }
                 }
 
@@ -185,9 +195,11 @@ impl TrackingDataArc {
 
                 // If the last inserted measurement belongs to the exact same tracker
                 // and epoch, we append the sub-observable to its IndexMap.
+                // Those of different segments are merged once all are processed.
+                let segment = segments.len() - 1;
                 let is_concurrent = measurements.last().is_some_and(|last: &Measurement| {
                     last.epoch == epoch && last.tracker == current_tracker
-                });
+                }) && msr_segments.last() == Some(&segment);
 
                 if is_concurrent {
                     measurements
@@ -206,6 +218,7 @@ impl TrackingDataArc {
                         data,
                         rejected: false,
                     });
+                    msr_segments.push(segment);
                 }
             }
         }
@@ -255,19 +268,6 @@ impl TrackingDataArc {
             drop_freq_data = true;
         }
 
-        let corrections_applied = if let Some(corr_flag) = metadata.get("CORRECTIONS_APPLIED") {
-            match corr_flag.trim().to_lowercase().as_str() {
-                "no" => false,
-                "yes" => true,
-                _ => {
-                    warn!("invalid CORRECTIONS_APPLIED `{corr_flag}`");
-                    true
-                }
-            }
-        } else {
-            true
-        };
-
         // Now, let's convert the receive and transmit frequencies to Doppler measurements in velocity units.
         // We expect the transmit and receive frequencies to have the exact same timestamp.
         let mut freq_types = IndexSet::new();
@@ -281,8 +281,22 @@ impl TrackingDataArc {
 
         let mut all_applied_corrections = IndexSet::new();
 
-        for measurement in &mut measurements {
+        for (measurement, segment) in measurements.iter_mut().zip(&msr_segments) {
+            let segment = &segments[*segment];
             let epoch = measurement.epoch;
+            let corrections_applied = if let Some(corr_flag) = segment.get("CORRECTIONS_APPLIED") {
+                match corr_flag.trim().to_lowercase().as_str() {
+                    "no" => false,
+                    "yes" => true,
+                    _ => {
+                        warn!("invalid CORRECTIONS_APPLIED `{corr_flag}`");
+                        true
+                    }
+                }
+            } else {
+                true
+            };
+
             // Apply corrections if any
             if !corrections_applied {
                 for msr_type in [
@@ -295,7 +309,7 @@ impl TrackingDataArc {
                     MeasurementType::TransmitFrequencyRate,
                 ] {
                     let kw = format!("CORRECTION_{}", msr_type.ccsds_tdm_name());
-                    if let Some(correction_str) = metadata.get(&kw) {
+                    if let Some(correction_str) = segment.get(&kw) {
                         if let Ok(correction) = correction_str.parse::<f64>() {
                             measurement.correct(msr_type, correction);
                             all_applied_corrections.insert(msr_type);
-- 
2.43.0


From 73252bf474babdcd48bf2bcade2eb2e6e700ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:12 +0000
Subject: [PATCH 52/72] fix: convert TDM frequencies with the turn-around ratio
 and transmit frequency of their own segment and tracker

---
 .../src/od/msr/trackingdata/io_ccsds_tdm.rs   | 43 +++++++++++++------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 1ece27c..55be168 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -275,9 +275,8 @@ impl TrackingDataArc {
         freq_types.insert(MeasurementType::TransmitFrequency);
         freq_types.insert(MeasurementType::TransmitFrequencyRate);
 
-        let mut latest_transmit_freq = None;
-        let mut latest_transmit_epoch = None;
-        let mut latest_transmit_rate = 0.0;
+        // Latest transmit frequency, its epoch, and its rate, for each tracker.
+        let mut transmits: HashMap<String, (Option<f64>, Option<Epoch>, f64)> = HashMap::new();
 
         let mut all_applied_corrections = IndexSet::new();
 
@@ -327,23 +326,41 @@ impl TrackingDataArc {
                 continue;
             }
 
+            // The turn-around ratio of this segment, or that of the file if it isn't set.
+            let turnaround = match (
+                segment
+                    .get("TURNAROUND_NUMERATOR")
+                    .and_then(|num| num.parse::<i32>().ok()),
+                segment
+                    .get("TURNAROUND_DENOMINATOR")
+                    .and_then(|denom| denom.parse::<i32>().ok()),
+            ) {
+                (Some(num), Some(denom)) => f64::from(num) / f64::from(denom),
+                _ => turnaround_ratio.unwrap(),
+            };
+
+            let (latest_transmit_freq, latest_transmit_epoch, latest_transmit_rate) = transmits
+                .entry(measurement.tracker.clone())
+                .or_insert((None, None, 0.0));
+
             // Update the transmit frequency and rate if they are set.
             if let Some(rate) = measurement
                 .data
                 .get(&MeasurementType::TransmitFrequencyRate)
             {
-                if let (Some(last_f), Some(last_e)) = (latest_transmit_freq, latest_transmit_epoch)
+                if let (Some(last_f), Some(last_e)) =
+                    (*latest_transmit_freq, *latest_transmit_epoch)
                 {
                     let dt: Duration = epoch - last_e;
-                    latest_transmit_freq = Some(last_f + latest_transmit_rate * dt.to_seconds());
+                    *latest_transmit_freq = Some(last_f + *latest_transmit_rate * dt.to_seconds());
                 }
-                latest_transmit_epoch = Some(epoch);
-                latest_transmit_rate = *rate;
+                *latest_transmit_epoch = Some(epoch);
+                *latest_transmit_rate = *rate;
             }
 
             if let Some(freq) = measurement.data.get(&MeasurementType::TransmitFrequency) {
-                latest_transmit_freq = Some(*freq);
-                latest_transmit_epoch = Some(epoch);
+                *latest_transmit_freq = Some(*freq);
+                *latest_transmit_epoch = Some(epoch);
             }
 
             if !measurement
@@ -371,7 +388,7 @@ impl TrackingDataArc {
 
             let dt: Duration = epoch - latest_transmit_epoch.unwrap();
             let transmit_freq_hz =
-                latest_transmit_freq.unwrap() + latest_transmit_rate * dt.to_seconds();
+                latest_transmit_freq.unwrap() + *latest_transmit_rate * dt.to_seconds();
 
             let receive_freq_hz = *measurement
                 .data
@@ -379,10 +396,10 @@ impl TrackingDataArc {
                 .unwrap();
 
             // Compute the Doppler shift, equation from section 3.5.2.8.2 of CCSDS TDM v2 specs
-            let doppler_shift_hz = transmit_freq_hz * turnaround_ratio.unwrap() - receive_freq_hz;
+            let doppler_shift_hz = transmit_freq_hz * turnaround - receive_freq_hz;
             // Compute the expected Doppler measurement as range-rate.
-            let rho_dot_km_s = (doppler_shift_hz * SPEED_OF_LIGHT_KM_S)
-                / (2.0 * transmit_freq_hz * turnaround_ratio.unwrap());
+            let rho_dot_km_s =
+                (doppler_shift_hz * SPEED_OF_LIGHT_KM_S) / (2.0 * transmit_freq_hz * turnaround);
 
             // Finally, replace the frequency data with a Doppler measurement.
             for freq in &freq_types {
-- 
2.43.0


From 4c28df59c3da516d5aa6432c5bd24ea5177707c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 53/72] fix: control the error of the final step of an adaptive
 propagation

The last step of each propagation, or the only one of a propagation shorter
than the current step, was taken as a fixed step: its error was unbounded.
---
 nyx-core/src/propagators/instance.rs | 31 ++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index e34b526..28fea8f 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -175,11 +175,30 @@ where
 
                 // Take one final step of exactly the needed duration until the stop time
                 let prev_step_size = self.step_size;
-                let prev_step_kind = self.fixed_step;
-                self.set_step(stop_time - epoch, true);
+                let final_step_size = stop_time - epoch;
+                self.step_size = final_step_size;
 
                 self.single_step()?;
 
+                if self.details.step != final_step_size {
+                    // The error control requires a shorter step than the remaining duration, so this was not the final step.
+                    if let Some(ref mut condition) = stop_condition
+                        && condition(self.state)?
+                    {
+                        self.step_size = self.step_size.abs();
+                        self.state = self.state_in_frame(original_frame)?;
+
+                        return Ok(self.state);
+                    }
+
+                    if let Some(ref chan) = maybe_tx_chan
+                        && let Err(e) = chan.send(self.state_in_frame(original_frame)?)
+                    {
+                        warn!("{e} when sending on channel")
+                    }
+                    continue;
+                }
+
                 // Rotate back if needed
                 self.state = self.state_in_frame(original_frame)?;
 
@@ -191,7 +210,7 @@ where
                 }
 
                 // Restore the step size for subsequent calls
-                self.set_step(prev_step_size, prev_step_kind);
+                self.step_size = prev_step_size;
 
                 if backprop {
                     self.step_size = -self.step_size; // Restore to a positive step size
@@ -450,7 +469,11 @@ where
                         );
                     }
 
-                    self.details.step = step_size_s * Unit::Second;
+                    self.details.step = if self.details.attempts == 1 {
+                        self.step_size
+                    } else {
+                        step_size_s * Unit::Second
+                    };
                     if self.details.error < self.prop.opts.tolerance {
                         // Let's increase the step size for the next iteration.
                         // Error is less than tolerance, let's attempt to increase the step for the next iteration.
-- 
2.43.0


From c7304397d59a25d90253a56a5392b38f48a9d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 54/72] fix: interpolate a trajectory only with states whose
 spacing keeps it well-conditioned

States much closer to each other than those around the requested epoch, such
as those of a small initial step, lead to interpolation errors without bound.
---
 nyx-core/src/md/trajectory/traj.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e4ddc94..379679c 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -113,6 +113,18 @@ where
                     first_idx = last_idx.saturating_sub(2 * num_left);
                 }
 
+                // The interpolation is ill-conditioned if some states are much closer to each other than those around this epoch,
+                // so only use the states up to there.
+                let min_step = (self.states[idx].epoch() - self.states[idx - 1].epoch()) / 10;
+                let step = |no: usize| self.states[no + 1].epoch() - self.states[no].epoch();
+                let first_idx = (first_idx..idx - 1)
+                    .rev()
+                    .find(|no| step(*no) < min_step)
+                    .map_or(first_idx, |no| no + 1);
+                let last_idx = (idx..last_idx - 1)
+                    .find(|no| step(*no) < min_step)
+                    .map_or(last_idx, |no| no + 1);
+
                 let mut states = Vec::with_capacity(last_idx - first_idx);
                 for idx in first_idx..last_idx {
                     states.push(self.states[idx]);
-- 
2.43.0


From 741bae1a6990edad792a3b6a7679c898f74afc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:28 +0000
Subject: [PATCH 55/72] fix: interpolate the propellant mass between the states
 around the epoch

The consumption since the start of the interpolation window was subtracted
from the mass of the next state, which already accounts for it.
---
 nyx-core/src/md/trajectory/interpolatable.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 6114973..c6a8946 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -94,13 +94,16 @@ impl Interpolatable for Spacecraft {
             self.orbit.frame,
         );
 
-        // Fuel is linearly interpolated -- should really be a Lagrange interpolation here
-        let first = states.first().unwrap();
-        let last = states.last().unwrap();
-        let prop_kg_dt = (last.mass.prop_mass_kg - first.mass.prop_mass_kg)
-            / (last.epoch() - first.epoch()).to_seconds();
-
-        self.mass.prop_mass_kg += prop_kg_dt * (epoch - first.epoch()).to_seconds();
+        // Fuel is linearly interpolated between the states around this epoch -- should really be a Lagrange interpolation here
+        if let Some(next_no) = (1..n).find(|no| states[*no].epoch() >= epoch) {
+            let prev = &states[next_no - 1];
+            let next = &states[next_no];
+            let ratio =
+                (epoch - prev.epoch()).to_seconds() / (next.epoch() - prev.epoch()).to_seconds();
+
+            self.mass.prop_mass_kg =
+                prev.mass.prop_mass_kg + ratio * (next.mass.prop_mass_kg - prev.mass.prop_mass_kg);
+        }
         // Thrust direction is a discrete guidance output and should not be interpolated.
         self.thrust_direction = None;
 
-- 
2.43.0


From 964ae0790872fc0fd1caf41eb022f89da63563e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:28 +0000
Subject: [PATCH 56/72] fix: interpolate trajectories with offsets from the
 requested epoch

Seconds past J2000 in double precision only resolve a tenth of a microsecond,
i.e. a millimeter in low Earth orbit, which the interpolation amplifies.
---
 nyx-core/src/md/trajectory/interpolatable.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index c6a8946..c4c30fb 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -53,7 +53,7 @@ impl Interpolatable for Spacecraft {
     fn interpolate(mut self, epoch: Epoch, states: &[Self]) -> Result<Self, InterpolationError> {
         // Interpolate the Orbit first
         // Statically allocated arrays of the maximum number of samples
-        let mut epochs_tdb = [0.0; INTERPOLATION_SAMPLES];
+        let mut offsets_s = [0.0; INTERPOLATION_SAMPLES];
         let mut xs = [0.0; INTERPOLATION_SAMPLES];
         let mut ys = [0.0; INTERPOLATION_SAMPLES];
         let mut zs = [0.0; INTERPOLATION_SAMPLES];
@@ -68,20 +68,18 @@ impl Interpolatable for Spacecraft {
             vxs[cno] = state.orbit.velocity_km_s.x;
             vys[cno] = state.orbit.velocity_km_s.y;
             vzs[cno] = state.orbit.velocity_km_s.z;
-            epochs_tdb[cno] = state.epoch().to_et_seconds();
+            // Offsets from the requested epoch, because seconds past J2000 only resolve a tenth of a microsecond.
+            offsets_s[cno] = (state.epoch() - epoch).to_seconds();
         }
 
         // Ensure that if we don't have enough states, we only interpolate using what we have instead of INTERPOLATION_SAMPLES
         let n = states.len();
 
-        let (x_km, vx_km_s) =
-            hermite_eval(&epochs_tdb[..n], &xs[..n], &vxs[..n], epoch.to_et_seconds())?;
+        let (x_km, vx_km_s) = hermite_eval(&offsets_s[..n], &xs[..n], &vxs[..n], 0.0)?;
 
-        let (y_km, vy_km_s) =
-            hermite_eval(&epochs_tdb[..n], &ys[..n], &vys[..n], epoch.to_et_seconds())?;
+        let (y_km, vy_km_s) = hermite_eval(&offsets_s[..n], &ys[..n], &vys[..n], 0.0)?;
 
-        let (z_km, vz_km_s) =
-            hermite_eval(&epochs_tdb[..n], &zs[..n], &vzs[..n], epoch.to_et_seconds())?;
+        let (z_km, vz_km_s) = hermite_eval(&offsets_s[..n], &zs[..n], &vzs[..n], 0.0)?;
 
         self.orbit = Orbit::new(
             x_km,
-- 
2.43.0


From 99ce3bd94457271caadd0fa064eb6d4ab14c3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:07 +0000
Subject: [PATCH 57/72] fix: balance the states around the epoch near the ends
 of a trajectory

Interpolating with a dozen states on one side of the epoch amplifies the
integration error of each of them by several orders of magnitude.
---
 nyx-core/src/md/trajectory/traj.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 379679c..2faf103 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -125,6 +125,11 @@ where
                     .find(|no| step(*no) < min_step)
                     .map_or(last_idx, |no| no + 1);
 
+                // Nor is it well-conditioned near the ends of the trajectory with many more states on one side of this epoch.
+                let (num_before, num_after) = (idx - first_idx, last_idx - idx);
+                let first_idx = first_idx.max(idx.saturating_sub(num_after + 4));
+                let last_idx = last_idx.min(idx + num_before + 4);
+
                 let mut states = Vec::with_capacity(last_idx - first_idx);
                 for idx in first_idx..last_idx {
                     states.push(self.states[idx]);
-- 
2.43.0


From 0c9ffb264d0fea0a1a473769130444d151a30c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:07 +0000
Subject: [PATCH 58/72] fix: load COF gravity fields from a configuration

Path::ends_with compares whole components, so that .cof files were read as SHADR.
---
 nyx-core/src/io/gravity.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 586244a..facf024 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -104,8 +104,10 @@ impl GravityFieldData {
                 action: "fetching gravity field frame",
             })?;
 
-        if !cfg.gunzipped && cfg.filepath.ends_with(".cof")
-            || cfg.gunzipped && cfg.filepath.ends_with(".cof.gz")
+        // NOTE: `Path::ends_with` compares whole path components.
+        let filename = cfg.filepath.to_string_lossy();
+        if !cfg.gunzipped && filename.ends_with(".cof")
+            || cfg.gunzipped && filename.ends_with(".cof.gz")
         {
             Self::from_cof(cfg.filepath, cfg.degree, cfg.order, cfg.gunzipped, frame)
         } else {
-- 
2.43.0


From 833adba06ff759cc468b3ff1ddbf69957f06d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:28 +0000
Subject: [PATCH 59/72] fix: give an estimate from dispersions the deviation
 which was drawn

The state of the estimate was the mirror image of the draw: the deviation was
the nominal state minus the dispersed one.
---
 nyx-core/src/od/estimate/kfestimate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index b37fd61..07e76fe 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -119,7 +119,7 @@ impl KfEstimate<Spacecraft> {
         let dispersed_state = generator.sample(&mut rng);
 
         // Compute the difference between both states
-        let delta_orbit = (nominal_state.orbit - dispersed_state.state.orbit).unwrap();
+        let delta_orbit = (dispersed_state.state.orbit - nominal_state.orbit).unwrap();
 
         let state_deviation = [
             delta_orbit.radius_km.x,
@@ -128,9 +128,9 @@ impl KfEstimate<Spacecraft> {
             delta_orbit.velocity_km_s.x,
             delta_orbit.velocity_km_s.y,
             delta_orbit.velocity_km_s.z,
-            (nominal_state.srp.coeff_reflectivity - dispersed_state.state.srp.coeff_reflectivity),
-            (nominal_state.drag.coeff_drag - dispersed_state.state.drag.coeff_drag),
-            (nominal_state.mass.prop_mass_kg - dispersed_state.state.mass.prop_mass_kg),
+            (dispersed_state.state.srp.coeff_reflectivity - nominal_state.srp.coeff_reflectivity),
+            (dispersed_state.state.drag.coeff_drag - nominal_state.drag.coeff_drag),
+            (dispersed_state.state.mass.prop_mass_kg - nominal_state.mass.prop_mass_kg),
         ];
 
         // Build the covariance as three times the absolute value of the error, squared.
-- 
2.43.0


From e0eee4dc2332d2528d2e946c8007874e4ada7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:23 +0000
Subject: [PATCH 60/72] fix: accept a singular covariance for a multivariate
 spacecraft

An uncertainty of zero on one axis of a local frame gives a covariance whose
smallest eigenvalue is negative by rounding, which was refused, and panicked
in SpacecraftUncertainty::to_estimate_randomized.
---
 nyx-core/src/mc/multivariate.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index a5396f1..9579ba7 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -225,17 +225,15 @@ impl MvnSpacecraft {
         cov: SMatrix<f64, 9, 9>,
         mean: SVector<f64, 9>,
     ) -> Result<Self, Box<NyxError>> {
-        // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil
-        match cov.eigenvalues() {
-            None => return Err(Box::new(NyxError::CovarianceMatrixNotPsd)),
-            Some(evals) => {
-                for eigenval in &evals {
-                    if *eigenval < 0.0 {
-                        return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-                    }
-                }
+        // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil,
+        // to within the rounding errors of a rotated singular covariance.
+        let evals = cov.symmetric_eigenvalues();
+        let rounding = evals.amax() * 1e-14;
+        for eigenval in &evals {
+            if *eigenval < -rounding {
+                return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
             }
-        };
+        }
 
         let svd = cov.svd_unordered(false, true);
         if svd.v_t.is_none() {
-- 
2.43.0


From e4e090ef9de32a0d5d2a7f107e11eef73791b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:34 +0000
Subject: [PATCH 61/72] fix: use the relative velocity in the Doppler between
 spacecraft

---
 nyx-core/src/od/interlink/trk_device.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index c447ba4..2f8ff9f 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -205,9 +205,9 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
 
             let rho_tx_frame = rx_in_tx_frame.radius_km - observer.orbit.radius_km;
 
-            // Compute the range-rate \dot ρ. Note that rx_in_tx_frame is already the relative velocity of rx wrt tx!
-            let range_rate_km_s =
-                rho_tx_frame.dot(&rx_in_tx_frame.velocity_km_s) / rho_tx_frame.norm();
+            // Compute the range-rate \dot ρ from the relative velocity of rx wrt tx.
+            let rho_dot_tx_frame = rx_in_tx_frame.velocity_km_s - observer.orbit.velocity_km_s;
+            let range_rate_km_s = rho_tx_frame.dot(&rho_dot_tx_frame) / rho_tx_frame.norm();
 
             let noises = self.noises(observer.epoch(), rng)?;
 
-- 
2.43.0


From ff4bffecf408323027c9870bea8d2a785281db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:34 +0000
Subject: [PATCH 62/72] fix: report an error outside of the trajectory of a
 transmitter

---
 nyx-core/src/od/interlink/trk_device.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index 2f8ff9f..b4640ba 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -17,7 +17,9 @@
 */
 use anise::almanac::Almanac;
 use anise::astro::Aberration;
-use anise::errors::AlmanacResult;
+use anise::ephemerides::EphemerisError;
+use anise::errors::{AlmanacError, AlmanacResult};
+use anise::math::interpolation::InterpolationError;
 use anise::prelude::{Frame, Orbit};
 use hifitime::{Duration, Epoch, TimeUnits};
 use indexmap::{IndexMap, IndexSet};
@@ -100,7 +102,15 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     }
 
     fn location(&self, epoch: Epoch, frame: Frame, almanac: &Almanac) -> AlmanacResult<Orbit> {
-        almanac.transform_to(self.traj.at(epoch).unwrap().orbit, frame, self.ab_corr)
+        match self.traj.at(epoch) {
+            Ok(state) => almanac.transform_to(state.orbit, frame, self.ab_corr),
+            Err(_) => Err(AlmanacError::Ephemeris {
+                action: "computing location from Interlink",
+                source: Box::new(EphemerisError::EphemInterpolation {
+                    source: InterpolationError::MissingInterpolationData { epoch },
+                }),
+            }),
+        }
     }
 
     fn measure(
-- 
2.43.0


From a7c0f4cc3b69a3f47f45fd3c639f1c10ab3ac203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:14 +0000
Subject: [PATCH 63/72] fix: propagate the state transition matrix of a ground
 asset

---
 nyx-core/src/od/groundpnt/ground_dynamics.rs | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/ground_dynamics.rs b/nyx-core/src/od/groundpnt/ground_dynamics.rs
index 3251c7e..0ab8b46 100644
--- a/nyx-core/src/od/groundpnt/ground_dynamics.rs
+++ b/nyx-core/src/od/groundpnt/ground_dynamics.rs
@@ -16,6 +16,7 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
 
+use crate::State;
 use crate::dynamics::{Dynamics, DynamicsError};
 use crate::od::groundpnt::GroundAsset;
 use anise::prelude::Almanac;
@@ -31,27 +32,25 @@ impl Dynamics for GroundDynamics {
 
     fn eom(
         &self,
-        _delta_t: f64,
-        _state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
+        delta_t: f64,
+        state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
         state_ctx: &Self::StateType,
-        _almanac: &Almanac,
+        almanac: &Almanac,
     ) -> Result<OVector<f64, <Self::StateType as crate::State>::VecLength>, DynamicsError>
     where
         DefaultAllocator: Allocator<<Self::StateType as crate::State>::VecLength>,
     {
-        let d_x = Vector6::from_iterator([
-            state_ctx.latitude_rate_deg_s,
-            state_ctx.longitude_rate_deg_s,
-            state_ctx.height_rate_km_s,
-            0.0,
-            0.0,
-            0.0,
-        ]);
+        let osc = state_ctx.set_with_delta_seconds(delta_t, state_vec);
+        let (d_x, grad) = self.dual_eom(delta_t, &osc, almanac)?;
+
+        // Propagate the STM if it is set.
+        let d_stm = match osc.stm {
+            Some(stm) => grad * stm,
+            None => Matrix6::zeros(),
+        };
 
         Ok(OVector::<f64, Const<42>>::from_iterator(
-            d_x.iter()
-                .chain(OVector::<f64, Const<36>>::zeros().iter())
-                .cloned(),
+            d_x.iter().chain(d_stm.iter()).cloned(),
         ))
     }
 
-- 
2.43.0


From 5f2ee7068b07b06b43c142f653453d44be28760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:26 +0000
Subject: [PATCH 64/72] fix: compute the sensitivity to a ground asset in its
 frame at its expected position

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 45 +++++++++++-------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 5b5ef98..eeacc39 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -74,26 +74,32 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
     /// ground asset. Then we compute the AER as seen from the ground asset.
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &GroundAsset,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
     ) -> Result<Self, ODError> {
         let receiver = rx.orbit();
-        let loc = rx.to_location();
 
         // Compute the device location in the receiver frame because we compute the sensitivity in that frame.
         // This frame is required because the scalar measurements are frame independent, but the sensitivity
         // must be in the estimation frame.
 
-        let transmitter = tx
-            .traj
-            .at(receiver.epoch)
-            .map_err(|source| ODError::ODTrajError {
-                source,
-                details: "computing sensitivity ground asset / interlink".into(),
-            })?
-            .orbit;
+        let transmitter = almanac
+            .transform_to(
+                tx.traj
+                    .at(receiver.epoch)
+                    .map_err(|source| ODError::ODTrajError {
+                        source,
+                        details: "computing sensitivity ground asset / interlink".into(),
+                    })?
+                    .orbit,
+                rx.frame,
+                None,
+            )
+            .context(ODAlmanacSnafu {
+                action: "computing transmitter location when computing sensitivity matrix",
+            })?;
 
         let jac = rx
             .geodetic_to_cartesian_jacobian()
@@ -110,20 +116,9 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = match msr.data.get(&MeasurementType::Range) {
-                    Some(range_km) => *range_km,
-                    None => {
-                        almanac
-                            .azimuth_elevation_range_sez_from_location(transmitter, loc, None, None)
-                            .context(ODAlmanacSnafu {
-                                action: "computing range for Doppler measurement",
-                            })?
-                            .range_km
-                    }
-                };
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                // Linearize about the expected range and range rate: the measured ones may be ambiguous or outliers.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -143,7 +138,7 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From d8252e328d37b827c0f0ffb99809a4a662306d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:05 +0000
Subject: [PATCH 65/72] fix: include the velocity of a ground asset in its
 Doppler

---
 nyx-core/src/od/groundpnt/mod.rs        | 31 ++++++++++++++++++++++---
 nyx-core/src/od/groundpnt/trk_device.rs | 14 ++++++++++-
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/mod.rs b/nyx-core/src/od/groundpnt/mod.rs
index f52f820..5182993 100644
--- a/nyx-core/src/od/groundpnt/mod.rs
+++ b/nyx-core/src/od/groundpnt/mod.rs
@@ -29,7 +29,7 @@ use core::fmt;
 use core::ops::Add;
 use hifitime::Epoch;
 use hyperdual::{OHyperdual, hyperspace_from_vector};
-use nalgebra::{Const, DimName, Matrix6, OMatrix, OVector, Vector3, Vector6};
+use nalgebra::{Const, DimName, Matrix3, Matrix6, OMatrix, OVector, Vector3, Vector6};
 use num_traits::Float;
 pub mod ground_dynamics;
 pub mod sensitivity;
@@ -303,14 +303,39 @@ impl State for GroundAsset {
     }
 
     fn orbit(&self) -> Orbit {
-        Orbit::try_latlongalt(
+        let mut orbit = Orbit::try_latlongalt(
             self.latitude_deg,
             self.longitude_deg,
             self.height_km,
             self.epoch,
             self.frame,
         )
-        .expect("Ground asset frame does not allow init from lat/long/alt")
+        .expect("Ground asset frame does not allow init from lat/long/alt");
+
+        // Add the velocity of the asset with respect to the body.
+        let velocity_sez_km_s = velocity_sez_from_latlongalt_rate(
+            orbit,
+            self.latitude_rate_deg_s,
+            self.longitude_rate_deg_s,
+            self.height_rate_km_s,
+        )
+        .expect("Ground asset frame does not allow velocity from lat/long/alt rates");
+        let (sin_lat, cos_lat) = self.latitude_deg.to_radians().sin_cos();
+        let (sin_long, cos_long) = self.longitude_deg.to_radians().sin_cos();
+
+        orbit.velocity_km_s = Matrix3::new(
+            sin_lat * cos_long,
+            -sin_long,
+            cos_lat * cos_long,
+            sin_lat * sin_long,
+            cos_long,
+            cos_lat * sin_long,
+            -cos_lat,
+            0.0,
+            sin_lat,
+        ) * velocity_sez_km_s;
+
+        orbit
     }
 
     fn epoch(&self) -> Epoch {
diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index d07545b..5e00212 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -151,6 +151,18 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
         if aer.elevation_above_mask_deg() < 0.0 {
             Ok(None)
         } else {
+            // The AER is from a fixed location: account for the velocity of the asset.
+            let asset = rx.orbit();
+            let rho_km = almanac
+                .transform_to(pnt_veh.orbit, rx.frame, None)
+                .context(ODAlmanacSnafu {
+                    action: "transforming transmitter to receiver frame",
+                })?
+                .radius_km
+                - asset.radius_km;
+            let range_rate_km_s =
+                aer.range_rate_km_s - rho_km.dot(&asset.velocity_km_s) / rho_km.norm();
+
             let noises = self.noises(rx.epoch, rng)?;
 
             let mut msr =
@@ -160,7 +172,7 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
             for (ii, msr_type) in self.measurement_types.iter().enumerate() {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => aer.range_km,
-                    MeasurementType::Doppler => aer.range_rate_km_s,
+                    MeasurementType::Doppler => range_rate_km_s,
                     // Or return an error for unsupported types
                     _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
                 } + noises[ii + 1];
-- 
2.43.0


From 0bd849864a803d19184473c5a588073761c1967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:27 +0000
Subject: [PATCH 66/72] fix: export the gains and smoother ratios of the
 requested window of a ground asset

---
 nyx-core/src/od/groundpnt/solution.rs | 60 ++++++++++++++++-----------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/solution.rs b/nyx-core/src/od/groundpnt/solution.rs
index 0383580..328e38f 100644
--- a/nyx-core/src/od/groundpnt/solution.rs
+++ b/nyx-core/src/od/groundpnt/solution.rs
@@ -257,31 +257,41 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
-            if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
-                // Must interpolate the data!
-                let start = cfg
-                    .start_epoch
-                    .unwrap_or_else(|| self.estimates.first().unwrap().state().epoch());
-                let end = cfg
-                    .end_epoch
-                    .unwrap_or_else(|| self.estimates.last().unwrap().state().epoch());
-
-                let mut residuals: Vec<Option<Residual<U2>>> =
-                    Vec::with_capacity(self.residuals.len());
-                let mut estimates = Vec::with_capacity(self.estimates.len());
-
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
-                    if estimate.epoch() >= start && estimate.epoch() <= end {
-                        estimates.push(*estimate);
-                        residuals.push(residual.clone());
-                    }
+        let (estimates, residuals, gains, filter_smoother_ratios) = if cfg.start_epoch.is_some()
+            || cfg.end_epoch.is_some()
+            || cfg.step.is_some()
+        {
+            // Must interpolate the data!
+            let start = cfg
+                .start_epoch
+                .unwrap_or_else(|| self.estimates.first().unwrap().state().epoch());
+            let end = cfg
+                .end_epoch
+                .unwrap_or_else(|| self.estimates.last().unwrap().state().epoch());
+
+            let mut residuals: Vec<Option<Residual<U2>>> = Vec::with_capacity(self.residuals.len());
+            let mut estimates = Vec::with_capacity(self.estimates.len());
+            let mut gains = Vec::with_capacity(self.gains.len());
+            let mut filter_smoother_ratios = Vec::with_capacity(self.filter_smoother_ratios.len());
+
+            for (idx, estimate) in self.estimates.iter().enumerate() {
+                if estimate.epoch() >= start && estimate.epoch() <= end {
+                    estimates.push(*estimate);
+                    residuals.push(self.residuals[idx].clone());
+                    gains.push(self.gains[idx]);
+                    filter_smoother_ratios.push(self.filter_smoother_ratios[idx]);
                 }
+            }
 
-                (estimates, residuals)
-            } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
-            };
+            (estimates, residuals, gains, filter_smoother_ratios)
+        } else {
+            (
+                self.estimates.to_vec(),
+                self.residuals.to_vec(),
+                self.gains.to_vec(),
+                self.filter_smoother_ratios.to_vec(),
+            )
+        };
 
         // Build all of the records
 
@@ -447,7 +457,7 @@ where
         for i in 0..state_items.len() {
             for j in 0..2 {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -461,7 +471,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..state_items.len() {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From d7d265289a002618a4b93532838f7db1651e915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:35 +0000
Subject: [PATCH 67/72] fix: measure the component of each type of a position
 device

---
 nyx-core/src/od/position/trk_device.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index ef7bac9..f4dfe5a 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -73,7 +73,17 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             }
         }
 
-        for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
+        for msr_type in self.measurement_types.iter().copied() {
+            let ii = match msr_type {
+                MeasurementType::X => 0,
+                MeasurementType::Y => 1,
+                MeasurementType::Z => 2,
+                _ => {
+                    return Err(ODError::MeasurementSimError {
+                        details: format!("{msr_type:?} is not supported by XyzDevice"),
+                    });
+                }
+            };
             msr.push(
                 msr_type,
                 rx.orbit.radius_km[ii]
-- 
2.43.0


From 8a7bbcf68dcb18575421f9f75a039b738edee80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:54 +0000
Subject: [PATCH 68/72] fix: leave time updates out of the count in the RMS of
 the residuals

---
 nyx-core/src/od/process/solution/stats.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index c337ce5..99fba71 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -150,7 +150,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.prefit.dot(&residual.prefit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the postfit residuals
@@ -159,7 +159,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.postfit.dot(&residual.postfit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
@@ -168,7 +168,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.ratio.powi(2);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Computes the fraction of residual ratios that lie within ±threshold.
-- 
2.43.0


From c951be1e4a0a57e5c3c0da44a7e1ec2b5e8353da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:26 +0000
Subject: [PATCH 69/72] fix: return an error instead of a panic when testing
 the normality of a single residual

---
 nyx-core/src/od/process/solution/stats.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 99fba71..790ac65 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -216,7 +216,10 @@ where
         let std_dev = variance.sqrt();
 
         // Create a normal distribution based on the empirical mean and std deviation.
-        let normal_dist = Normal::new(mean, std_dev).unwrap();
+        // A single residual, or identical ones, do not define one.
+        let normal_dist = Normal::new(mean, std_dev).map_err(|_| ODError::ODNoResiduals {
+            action: "evaluating residual normality",
+        })?;
 
         // Compute the maximum difference between the empirical CDF and the normal CDF.
         let mut d_stat = 0.0;
-- 
2.43.0


From a6874365a586ff9cb9824873075930cc33064cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:14 +0000
Subject: [PATCH 70/72] fix: linearize azimuth and elevation in the topocentric
 frame, in degrees

---
 nyx-core/src/od/msr/sensitivity.rs | 71 ++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 3f471a4..2b01aa7 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -16,14 +16,18 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
 
+use crate::cosmic::AstroPhysicsSnafu;
+use crate::errors::StateAstroSnafu;
 use crate::linalg::DefaultAllocator;
 use crate::linalg::allocator::Allocator;
+use crate::md::StateParameter;
 use crate::md::prelude::Interpolatable;
-use crate::od::{GroundStation, ODAlmanacSnafu, ODError, TrackingDevice};
+use crate::od::{GroundStation, ODAlmanacSnafu, ODError, ODStateSnafu, TrackingDevice};
 use crate::{Spacecraft, State};
-use anise::prelude::Almanac;
+use anise::errors::OrientationSnafu;
+use anise::prelude::{Almanac, Orbit};
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, Matrix3, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -115,6 +119,30 @@ where
     }
 }
 
+/// Rotation from the topocentric frame (SEZ) of the ground station into the frame of the receiver.
+fn sez_to_receiver(
+    tx: &GroundStation,
+    receiver: &Orbit,
+    almanac: &Almanac,
+) -> Result<Matrix3<f64>, ODError> {
+    let action = "computing topocentric frame for sensitivity matrix";
+    let station = tx
+        .to_orbit(receiver.epoch, almanac)
+        .context(ODAlmanacSnafu { action })?;
+    let sez2fixed = station
+        .dcm3x3_from_topocentric_to_body_fixed()
+        .context(AstroPhysicsSnafu)
+        .context(StateAstroSnafu {
+            param: StateParameter::Epoch(),
+        })
+        .context(ODStateSnafu { action })?;
+    let fixed2rx = almanac
+        .rotate(station.frame, receiver.frame, receiver.epoch)
+        .context(OrientationSnafu { action })
+        .context(ODAlmanacSnafu { action })?;
+    Ok(fixed2rx.rot_mat * sez2fixed.rot_mat)
+}
+
 impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
     for ScalarSensitivity<Spacecraft, Spacecraft, GroundStation>
 {
@@ -186,16 +214,17 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Azimuth => {
-                let denom = delta_r.x.powi(2) + delta_r.y.powi(2);
-                let m11 = -delta_r.y / denom;
-                let m12 = delta_r.x / denom;
-                let m13 = 0.0;
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
+                // Build the sensitivity in the topocentric frame (SEZ), and rotate it into the receiver frame.
+                let sez2rx = sez_to_receiver(tx, &receiver, almanac)?;
+                let delta_sez = sez2rx.transpose() * delta_r;
+                let denom = delta_sez.x.powi(2) + delta_sez.y.powi(2);
+                let m1 = sez2rx * Vector3::new(delta_sez.y / denom, -delta_sez.x / denom, 0.0);
+                // The azimuth is in degrees.
+                let m1 = m1.map(f64::to_degrees);
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        m1.x, m1.y, m1.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
@@ -205,17 +234,23 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Elevation => {
-                let r2 = delta_r.norm().powi(2);
-                let z2 = delta_r.z.powi(2);
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-                let m11 = -(delta_r.x * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m12 = -(delta_r.y * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m13 = (delta_r.x.powi(2) + delta_r.y.powi(2)).sqrt() / r2;
+                // Build the sensitivity in the topocentric frame (SEZ), and rotate it into the receiver frame.
+                let sez2rx = sez_to_receiver(tx, &receiver, almanac)?;
+                let delta_sez = sez2rx.transpose() * delta_r;
+                let r2 = delta_sez.norm_squared();
+                let horiz = delta_sez.xy().norm();
+                let m1 = sez2rx
+                    * Vector3::new(
+                        -delta_sez.x * delta_sez.z / (r2 * horiz),
+                        -delta_sez.y * delta_sez.z / (r2 * horiz),
+                        horiz / r2,
+                    );
+                // The elevation is in degrees.
+                let m1 = m1.map(f64::to_degrees);
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        m1.x, m1.y, m1.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
-- 
2.43.0


From a81cc5df91e5b8ce529b2a70831379ef17e03882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:48 +0000
Subject: [PATCH 71/72] fix: skip the observables which a device does not model
 in the batch estimator

---
 nyx-core/src/od/blse/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index bcb4409..6002de1 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -243,6 +243,10 @@ where
                     };
 
                     for msr_type in msr.data.keys().copied() {
+                        if !device.measurement_types().contains(&msr_type) {
+                            // This device does not model this observable, skip it as in the Kalman filter.
+                            continue;
+                        }
                         let mut msr_types = IndexSet::new();
                         msr_types.insert(msr_type);
 
@@ -523,6 +527,10 @@ where
                 };
 
                 for msr_type in msr.data.keys().copied() {
+                    if !device.measurement_types().contains(&msr_type) {
+                        // This device does not model this observable, skip it as in the Kalman filter.
+                        continue;
+                    }
                     let mut msr_types = IndexSet::new();
                     msr_types.insert(msr_type);
 
-- 
2.43.0


From 55fcb8574ae49164dd656d63a63e04f778b730f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:48 +0000
Subject: [PATCH 72/72] fix: undo a worsening last correction of the
 Levenberg-Marquardt batch estimator

---
 nyx-core/src/od/blse/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 6002de1..528116c 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -446,14 +446,14 @@ where
 
         if !converged {
             warn!("Not converged after {} iterations.", self.max_iterations);
-            // The cost of the last correction is not known yet.
-            if self.solver == BLSSolver::LevenbergMarquardt
-                && !self
-                    .evaluate(current_estimate, arc)
-                    .is_ok_and(|rms| rms <= current_rms)
-            {
-                current_estimate = prev_estimate;
-            }
+        }
+        // The cost of the last correction is not known yet.
+        if self.solver == BLSSolver::LevenbergMarquardt
+            && !self
+                .evaluate(current_estimate, arc)
+                .is_ok_and(|rms| rms <= current_rms)
+        {
+            current_estimate = prev_estimate;
         }
 
         info!("Batch Least Squares estimation completed.");
-- 
2.43.0

